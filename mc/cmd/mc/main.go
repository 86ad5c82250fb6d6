// Command mc runs the checks.
package main

import (
	"verif/mc/checks"
	"verif/mc/run"
)

func main() { run.Main(checks.All) }
