package main

import (
	"fmt"
	"os"
	"sort"
)

// auxes are helper processes started by cases.
var auxes = map[string]func(args []string){}

func auxMain(args []string) {
	if len(args) > 0 && auxes[args[0]] != nil {
		auxes[args[0]](args[1:])
		return
	}
	fmt.Fprintln(os.Stderr, "no such helper", args)
	os.Exit(2)
}

func sorted(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}
