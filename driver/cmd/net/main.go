// Sessions of the network clients over stand-ins inside the process: the
// default HTTP transport is replaced, nothing leaves the process.
package main

import (
	. "verifdriver/h"
)

func main() { Main(map[string]func(c *Ctx){"C37": c37, "C38": c38}) }
