//go:build purego

package main

const variant = "purego-"
