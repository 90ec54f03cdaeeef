package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
)

func die(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"DRIVER"}, a...)...)
	os.Exit(4)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: drv gen|run ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	in := fs.String("in", "", "cases")
	out := fs.String("out", "", "output file")
	plan := fs.String("plan", "", "generator plan")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "number of cases")
	size := fs.Int("size", 0, "size parameter of the plan")
	skip := fs.Int("skip", 0, "cases to skip")
	only := fs.Int("only", -1, "run only this case")
	crash := fs.String("crashlog", "", "file for the state before each call")
	shard := fs.Int("shard", 0, "part of the input")
	shards := fs.Int("shards", 1, "number of parts")
	aspects := fs.String("aspects", "", "what to compare, all if empty")
	fs.Parse(os.Args[2:])
	debug.SetMaxStack(1 << 28)
	switch os.Args[1] {
	case "gen":
		if err := genPlan(*plan, *seed, *n, *size, *out); err != nil {
			die(err)
		}
	case "run":
		if err := runAll(*in, *out, *skip, *only, *crash); err != nil {
			die(err)
		}
	case "solo":
		soloMain()
	case "conc":
		concMain()
	case "replay":
		if err := replay(*in, *out, *seed, *shard, *shards, *crash); err != nil {
			die(err)
		}
	case "replaycases":
		if err := replayCases(*in, *out, *seed, *shard, *shards, *crash, *aspects); err != nil {
			die(err)
		}
	default:
		die("unknown command", os.Args[1])
	}
}
