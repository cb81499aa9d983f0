//go:build !purego

package main

const variant = ""
