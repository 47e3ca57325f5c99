package main

import (
	"verif.local/h/core"
	_ "verif.local/h/props"
)

func main() { core.Main() }
