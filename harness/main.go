// Command verifharness searches generated inputs for violations of the properties listed in
// ../properties.jsonl. See ../DESIGN.md.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifharness run|shard|replay ...")
		os.Exit(2)
	}

	switch os.Args[1] {
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "shard":
		os.Exit(shardMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "gen":
		os.Exit(genMain(os.Args[2:]))
	}

	fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
	os.Exit(2)
}
