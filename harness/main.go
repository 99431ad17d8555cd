package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|aux ...")
		os.Exit(2)
	}
	if os.Args[1] == "aux" {
		auxMain(os.Args[2:])
		return
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	scratch := fs.String("scratch", "", "")
	only := fs.String("only", "", "")
	verbose := fs.Bool("v", false, "")
	verif := fs.String("verif", "", "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(parentMain(*prop, *tier, *seed, *verif, *scratch))
	case "worker":
		workerMain(*prop, *tier, *seed, *shard, *shards, *scratch, *only, *verbose)
	case "replay":
		var v Violation
		b, err := os.ReadFile(fs.Arg(0))
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		workerMain(v.Property, v.Tier, v.Seed, 0, 1, *scratch, fmt.Sprintf("%s:%d", v.Section, v.Index), true)
	case "list":
		for id := range properties {
			fmt.Println(id)
		}
	default:
		os.Exit(2)
	}
}
