package main

import (
	_ "verif.local/harness/checks"
	"verif.local/harness/engine"
)

func main() { engine.Main() }
