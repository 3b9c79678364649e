package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

var profiles = map[string]Profile{
	"mix":    {Slots: 4, Ops: 40, Keys: 12, Ins: 8, Inp: 4, Del: 5, DelSub: 2, Upd: 2, Drop: 2, Nil: 1, Same: 60, Enum: 0.3, Tri: 0.2, Look: 4},
	"grow":   {Slots: 2, Ops: 60, Keys: 24, Ins: 5, Inp: 5, Del: 5, DelSub: 1, Upd: 1, Drop: 1, Same: 95, Enum: 0.15, Tri: 0.1, Look: 3, Burst: true},
	"branch": {Slots: 5, Ops: 40, Keys: 10, Ins: 8, Inp: 2, Del: 7, DelSub: 2, Drop: 1, Same: 15, Enum: 0.5, Tri: 0.1, Look: 5},
	"inp":    {Slots: 3, Ops: 50, Keys: 14, Ins: 3, Inp: 12, Del: 4, DelSub: 1, Upd: 1, Drop: 4, Same: 85, Enum: 0.4, Tri: 0.2, Look: 4},
	"bad":    {Slots: 4, Ops: 40, Keys: 12, Ins: 6, Inp: 3, Del: 5, DelSub: 2, Upd: 6, Drop: 1, Nil: 4, Same: 50, Enum: 0.4, Tri: 0.2, Look: 5, Bad: 45},
	"upd":    {Slots: 2, Ops: 40, Keys: 14, Ins: 3, Inp: 8, Del: 1, Upd: 8, Drop: 3, Same: 92, Enum: 0.4, Look: 3},
	"del":    {Slots: 3, Ops: 50, Keys: 14, Ins: 8, Inp: 3, Del: 8, DelSub: 5, Drop: 1, Same: 80, Enum: 0.4, Tri: 0.3, Look: 4},
	"look":   {Slots: 3, Ops: 30, Keys: 20, Ins: 10, Inp: 4, Del: 2, DelSub: 1, Upd: 1, Drop: 1, Same: 80, Enum: 0.1, Tri: 0.1, Look: 12},
	"enum":   {Slots: 3, Ops: 30, Keys: 16, Ins: 10, Inp: 4, Del: 4, DelSub: 2, Upd: 1, Drop: 1, Same: 80, Enum: 1, Tri: 1, Look: 1},
	"stream": {Slots: 4, Ops: 60, Keys: 10, Ins: 8, Inp: 2, Del: 5, DelSub: 1, Upd: 1, Drop: 2, Nil: 1, Same: 50, Enum: 0.1, Look: 2, Streams: 5, Open: 4, Next: 20, Many: 0.03},
	"dot":    {Slots: 3, Ops: 40, Keys: 14, Ins: 10, Inp: 5, Del: 5, Drop: 1, Nil: 1, Same: 75, Enum: 0.1, Look: 1, Dot: 0.5},
	"wide":   {Slots: 2, Ops: 320, Keys: 160, Ins: 10, Inp: 5, Del: 6, DelSub: 1, Upd: 1, Same: 95, Enum: 0.02, Tri: 0.02, Look: 3, Burst: true},
	"base":   {Slots: 3, Ops: 30, Keys: 14, Ins: 12, Inp: 6, Del: 4, DelSub: 1, Upd: 1, Drop: 1, Nil: 1, Same: 70, NoEnd: true},
	"conc":   {Slots: 5, Ops: 30, Keys: 14, Ins: 10, Del: 7, DelSub: 2, Drop: 1, Same: 20, Enum: 0.5, Tri: 0.2, Dot: 0.15, Look: 5, Streams: 4, Open: 3, Next: 12, Foc: 1},
	"kept":   {Slots: 2, Ops: 40, Keys: 12, Ins: 8, Inp: 5, Del: 7, DelSub: 2, Upd: 2, Drop: 3, Foc: 1, Same: 85, Enum: 0.1, Look: 2, Kept: 0.07},
	"focus":  {Slots: 4, Ops: 40, Keys: 14, Ins: 8, Inp: 4, Del: 4, Drop: 4, Nil: 1, Same: 40, Enum: 0.4, Tri: 0.2, Dot: 0.1, Look: 4, Foc: 8, Streams: 1, Open: 1, Next: 3},
	"nested": {Slots: 3, Ops: 30, Keys: 24, Ins: 12, Inp: 6, Del: 1, Drop: 1, Same: 80, Look: 1, Streams: 6, Open: 5, Next: 30},
}

const nslots = 5

// histSpec is what to record: kind, comparisons, profiles and number of histories.
type histSpec struct {
	Kind     string   `json:"kind"`
	Cmps     []string `json:"cmps"`
	Profiles []string `json:"profiles"`
	N        int      `json:"n"`
	Impls    []string `json:"impls"` // all if empty
	Agree    bool     `json:"agree"` // all implementations have to answer the same; values are from the whole range
}

// histories records histories and writes different ones as a JSON list.
func histories(specs []histSpec, seed int64, out, only string) {
	traces := []*Trace{}
	runs := 0
	differ := []string{}
	ops := map[string]int{}
	for si, hs := range specs {
		impls := implsOf(hs.Kind)
		for i := 0; i < hs.N; i++ {
			r := rand.New(rand.NewSource(seed*1000003 + int64(si)*7919 + int64(i)))
			cmp := "lex"
			if len(hs.Cmps) > 0 {
				cmp = hs.Cmps[i%len(hs.Cmps)]
			}
			pn := hs.Profiles[(i/max(1, len(hs.Cmps)))%len(hs.Profiles)]
			sc := genScript(r, hs.Kind, cmp, profiles[pn])
			sc.Note = fmt.Sprintf("%s/%s/%s/%d", hs.Kind, cmp, pn, i)
			if hs.Agree {
				sc = withoutUpdates(sc)
				impls = implsAnyVals(hs.Kind, r)
			}
			groups := map[string]*Trace{}
			order := []*Trace{}
			for _, impl := range impls {
				if len(hs.Impls) > 0 && !contains(hs.Impls, impl.Name()) {
					continue
				}
				id := impl.Name() + ":" + sc.Note
				if only != "" && only != id || tired() {
					continue
				}
				progress.at(id)
				s := sc
				if !containsRune(impl.Features(), 'U') {
					s = withoutUpdates(sc)
				}
				tr := runScript(s, impl, nslots)
				runs++
				for _, e := range tr.Ev {
					ops[e["e"].(string)]++
				}
				b, err := json.Marshal([]interface{}{tr.Outs, tr.Ev})
				if err != nil {
					panic(err)
				}
				if g, ok := groups[string(b)]; ok {
					g.Impls = append(g.Impls, impl.Name())
				} else {
					groups[string(b)] = tr
					order = append(order, tr)
				}
			}
			if hs.Agree && len(order) > 1 {
				for _, g := range order {
					differ = append(differ, fmt.Sprintf("%s: %v", g.Note, g.Impls))
				}
			}
			traces = append(traces, order...)
		}
	}
	writeJSON(out, traces)
	writeJSON(out+".stats", map[string]interface{}{"runs": runs, "traces": len(traces), "ops": ops, "differ": differ})
}

// Only generic networks tree is able to update descendants. To compare it with others its updates are
// left out of their histories.
func withoutUpdates(sc Script) Script {
	ops := make([]Op, 0, len(sc.Ops))
	for _, op := range sc.Ops {
		if op.E != "upd" {
			ops = append(ops, op)
		}
	}
	sc.Ops = ops
	return sc
}

func writeJSON(name string, v interface{}) {
	f, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := json.NewEncoder(f).Encode(v); err != nil {
		panic(err)
	}
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func containsRune(s string, c rune) bool {
	for _, r := range s {
		if r == c {
			return true
		}
	}
	return false
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// watchMemory stops the process if it eats too much.
var memOnce sync.Once

func watchMemory() {
	debug.SetMaxStack(64 << 20)
	memOnce.Do(func() {
		go func() {
			var m runtime.MemStats
			for {
				time.Sleep(300 * time.Millisecond)
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > 6<<30 {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					fmt.Fprintf(os.Stderr, "fatal: out of memory while at %s\n%s\n", progress.where, buf[:n])
					os.Exit(7)
				}
			}
		}()
	})
}
