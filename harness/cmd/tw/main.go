// Command tw decides the properties of textwire.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"verif/harness/core"
	"verif/harness/props"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: tw run PROPERTY quick|thorough | tw replay FILE")
	os.Exit(3)
}

func prop(id string) *core.Prop {
	p := props.Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(3)
	}
	return p
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	args := os.Args[2:]
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	switch {
	case os.Args[1] == "run" && len(args) == 2:
		seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
		os.Exit(core.Run(prop(args[0]), args[1] == "thorough", seed, verif))
	case os.Args[1] == "shard" && len(args) == 2:
		var a core.ShardArgs
		if err := json.Unmarshal([]byte(args[0]), &a); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		if err := core.Shard(prop(a.Prop), a, args[1]); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
	case os.Args[1] == "judge" && len(args) == 5:
		js, err := os.ReadFile(args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		tries, _ := strconv.Atoi(args[3])
		msg, err := core.Judge(prop(args[0]), args[1], js, tries, args[4])
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		if msg != "" {
			fmt.Print(msg)
			os.Exit(1)
		}
	case os.Args[1] == "exec" && len(args) == 0:
		props.Exec(os.Stdin, os.Stdout)
	case os.Args[1] == "race" && len(args) == 1:
		fmt.Println(prop(args[0]).Race)
	case os.Args[1] == "list" && len(args) == 0:
		fmt.Println(strings.Join(props.IDs(), " "))
	case os.Args[1] == "replay" && len(args) == 1:
		b, err := os.ReadFile(args[0])
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var f core.Failure
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		os.Exit(core.Replay(prop(f.Property), f, verif))
	default:
		usage()
	}
}
