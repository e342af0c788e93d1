package main

import (
	"os"

	"verif/mc"
	"verif/props"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-evalseq" {
		props.EvalSeq(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-envlocale" {
		props.EnvLocale()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-saveall" {
		props.SaveAll()
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "-evalone" {
		props.EvalOne(os.Args[2], os.Args[3])
		return
	}
	mc.Main(props.All)
}
