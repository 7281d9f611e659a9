package main

import (
	"verif/mc/eng"
	_ "verif/mc/props"
)

func main() { eng.Main() }
