package main

import (
	"verif/checks"
	"verif/mon"
)

func main() { mon.Probe = checks.Probe; mon.Main(checks.All()) }
