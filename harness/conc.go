package main

import (
	"fmt"
	"math/rand"
	"sync"
)

// concSpec tells how many times to let goroutines work with versions they share.
type concSpec struct {
	Kind string   `json:"kind"`
	Cmps []string `json:"cmps"`
	N    int      `json:"n"`
	G    int      `json:"g"`
}

// concurrent builds several versions, publishes them to goroutines which use them without any synchronization,
// and writes what every goroutine has seen as a trace of its own.
func concurrent(specs []concSpec, seed int64, out, only string) {
	traces := []*Trace{}
	runs := 0
	for si, cs := range specs {
		for i := 0; i < cs.N; i++ {
			r := rand.New(rand.NewSource(seed*1000033 + int64(si)*7927 + int64(i)))
			cmp := "lex"
			if len(cs.Cmps) > 0 {
				cmp = cs.Cmps[i%len(cs.Cmps)]
			}
			prologue := genScript(r, cs.Kind, cmp, profiles["base"])
			prologue.Note = fmt.Sprintf("%s/%s/conc/%d", cs.Kind, cmp, i)
			// Who is alive at the end.
			alive := [nslots + 1]bool{}
			for _, op := range prologue.Ops {
				if op.D > 0 {
					alive[op.D] = true
				}
				if op.E == "drop" {
					alive[op.S] = false
				}
			}
			base := []int{}
			for s, x := range alive {
				if x {
					base = append(base, s)
				}
			}
			scripts := make([]Script, cs.G)
			for g := range scripts {
				scripts[g] = genScriptFor(r, cs.Kind, cmp, profiles["conc"], prologue.Keys, base)
				scripts[g].Note = fmt.Sprintf("%s/%d", prologue.Note, g)
			}
			for _, impl := range implsOf(cs.Kind) {
				id := impl.Name() + ":" + prologue.Note
				if only != "" && only != id || tired() {
					continue
				}
				progress.at(id)
				pro := prologue
				if !containsRune(impl.Features(), 'U') {
					pro = withoutUpdates(prologue)
				}
				p := newTrace(pro, impl)
				vers := make([]Ver, nslots+1)
				if !runOps(p, pro, impl, vers) {
					traces = append(traces, p)
					continue
				}
				var wg sync.WaitGroup
				start := make(chan struct{})
				trs := make([]*Trace, cs.G)
				for g := range trs {
					tr := newTrace(scripts[g], impl)
					for _, k := range p.Outs {
						tr.out(k)
					}
					tr.Ev = append(tr.Ev, p.Ev...)
					trs[g] = tr
					own := append([]Ver{}, vers...)
					wg.Add(1)
					go func(sc Script) {
						defer wg.Done()
						<-start
						runOps(tr, sc, impl, own)
					}(scripts[g])
				}
				close(start)
				wg.Wait()
				runs += cs.G
				traces = append(traces, trs...)
			}
		}
	}
	writeJSON(out, traces)
	writeJSON(out+".stats", map[string]interface{}{"runs": runs, "traces": len(traces)})
}
