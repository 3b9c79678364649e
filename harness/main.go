package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
)

func main() {
	var (
		mode = flag.String("mode", "", "what to do")
		spec = flag.String("spec", "", "JSON description of the job")
		in   = flag.String("in", "", "input file")
		out  = flag.String("out", "", "output file")
		seed = flag.Int64("seed", 1, "seed")
		only = flag.String("only", "", "the only case to run")
		prog = flag.String("progress", "", "progress file")
	)
	flag.Parse()
	progress.open(*prog)
	watchMemory()
	switch *mode {
	case "hist":
		var hs []histSpec
		if err := json.Unmarshal([]byte(*spec), &hs); err != nil {
			panic(err)
		}
		histories(hs, *seed, *out, *only)
	case "graph":
		var gs []graphSpec
		if err := json.Unmarshal([]byte(*spec), &gs); err != nil {
			panic(err)
		}
		graphs(gs, *seed, *out, *only)
	case "names", "texts":
		var ns nameSpec
		if err := json.Unmarshal([]byte(*spec), &ns); err != nil {
			panic(err)
		}
		if *mode == "names" {
			names(ns, *seed, *out)
		} else {
			texts(ns, *out)
		}
	case "sched":
		var ss schedSpec
		if err := json.Unmarshal([]byte(*spec), &ss); err != nil {
			panic(err)
		}
		schedules(ss, *out, *only)
	case "conc":
		var cs []concSpec
		if err := json.Unmarshal([]byte(*spec), &cs); err != nil {
			panic(err)
		}
		concurrent(cs, *seed, *out, *only)
	case "big":
		var bs []bigSpec
		if err := json.Unmarshal([]byte(*spec), &bs); err != nil {
			panic(err)
		}
		bigHistories(bs, *seed, *out, *only)
	case "huge":
		var bs []hugeSpec
		if err := json.Unmarshal([]byte(*spec), &bs); err != nil {
			panic(err)
		}
		huge(bs, *seed, *out, *only)
	case "cost":
		var cs []costSpec
		if err := json.Unmarshal([]byte(*spec), &cs); err != nil {
			panic(err)
		}
		costs(cs, *seed, *out, *only)
	case "branches":
		var bs []branchesSpec
		if err := json.Unmarshal([]byte(*spec), &bs); err != nil {
			panic(err)
		}
		branches(bs, *seed, *out, *only)
	case "depth":
		var ds depthSpec
		if err := json.Unmarshal([]byte(*spec), &ds); err != nil {
			panic(err)
		}
		depths(ds, *seed, *out, *only)
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", *mode, *in)
		os.Exit(2)
	}
}
