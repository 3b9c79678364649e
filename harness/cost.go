package main

import (
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
)

// What operations on big trees allocate: copy on write takes a path and not a tree (see CostTrace).

type costSpec struct {
	Kind, Cmp string
	Size, Ops int
}

// allocated is how many objects and bytes f takes, the least of three times.
func allocated(f func()) (int, int) {
	var a, b runtime.MemStats
	n, m := 1<<40, 1<<40
	for i := 0; i < 3; i++ {
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		n, m = min(n, int(b.Mallocs-a.Mallocs)), min(m, int(b.TotalAlloc-a.TotalAlloc))
	}
	return min(n, 1<<30), min(m, 1<<30)
}

func costs(specs []costSpec, seed int64, out, only string) {
	runtime.GOMAXPROCS(1)
	traces, n, most := []*Trace{}, 0, map[string]int{}
	for _, s := range specs {
		cmp := s.Cmp
		if cmp == "" {
			cmp = "lex"
		}
		for _, impl := range implsOf(s.Kind) {
			r := rand.New(rand.NewSource(seed*31 + int64(s.Size)))
			keys := bigKeys(r, s.Kind, cmp, s.Size)
			note := "cost/" + s.Kind + "/" + impl.Name()
			if only != "" && only != note {
				continue
			}
			progress.at(note)
			t := &Trace{Impls: []string{impl.Name()}, Kind: s.Kind, Cmp: cmp, Note: note, Keys: []Key{}, Outs: []Key{}, Ev: []Event{}}
			deep := 0
			for _, k := range keys {
				deep = max(deep, len(k.c))
			}
			bad := guardFor("cost", 120, func() {
				v := impl.New(cmp)
				order := r.Perm(len(keys))
				stay := len(order) * 9 / 10
				for i, k := range order[:stay] {
					v = impl.Inp(v, keys[k].k, 1+i%maxVal)
				}
				few := v // a version with hardly anything left
				for _, k := range order[9:stay] {
					few, _ = impl.Del(few, keys[k].k)
				}
				own, fresh := impl.New(cmp), len(order)/2
				for i, k := range order[:fresh] {
					own = impl.Inp(own, keys[k].k, 1+i%maxVal)
				}
				seen := 0 // entries which a listing or an update shows
				measure := func(op string, f func()) {
					seen = 0
					a, b := allocated(f)
					n++
					most[s.Kind+" "+op] = max(most[s.Kind+" "+op], a)
					t.Ev = append(t.Ev, Event{"e": "cost", "op": op, "n": stay, "deep": deep, "a": a, "b": b, "c": seen})
				}
				list := func(v Ver, variant int) {
					seen = 0
					next := impl.Open(v, variant)
					for _, ok := next(); ok; _, ok = next() {
						seen++
					}
				}
				old := debug.SetGCPercent(-1)
				defer debug.SetGCPercent(old)
				for i := 0; i < s.Ops; i++ {
					if i%50 == 0 {
						runtime.GC()
					}
					in, off := keys[order[r.Intn(stay)]].k, keys[order[stay+r.Intn(len(order)-stay)]].k
					measure("ins", func() { impl.Ins(v, off, 7) })
					measure("replace", func() { impl.Ins(v, in, 7) })
					measure("del", func() { impl.Del(v, in) })
					measure("none", func() { impl.Del(v, off) })
					// In place a key is new only once, so every run takes its own one.
					measure("inp", func() { own, fresh = impl.Inp(own, keys[order[fresh]].k, 7), fresh+1 })
					measure("inprep", func() { own = impl.Inp(own, in, 7) })
					measure("get", func() { impl.Get(v, in) })
					if strings.Contains(impl.Features(), "S") {
						measure("dsub", func() { impl.DelSub(v, in) })
					}
					if strings.Contains(impl.Features(), "X") {
						measure("getx", func() { impl.GetExact(v, in) })
						measure("nonex", func() { impl.GetExact(v, off) })
					}
					if strings.Contains(impl.Features(), "U") {
						measure("update", func() { seen = len(impl.Update(v, in, func(int) int { return 7 })) })
					}
					if i%20 == 0 {
						measure("enum", func() { list(v, i/20) })
						measure("few", func() { list(few, i/20) })
					}
				}
			})
			if bad != "" {
				t.Ev = append(t.Ev, Event{"e": "bad", "why": bad})
			}
			traces = append(traces, t)
		}
	}
	writeJSON(out, traces)
	writeJSON(out+".stats", map[string]interface{}{"measurements": n, "most allocations": most})
}
