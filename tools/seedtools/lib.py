PRE='''package main

import (
	"fmt"
	"os"

	"github.com/arr-ai/wbnf/parser"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func parse(g parser.Grammar, in string) (parser.TreeElement, error) {
	return g.Compile(nil).Parse("a", parser.NewScanner(in))
}

var _ = parse

'''
