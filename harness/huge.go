package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Trees of more than 2^16 entries. Keys are numbers whose order is the one of the listing, contents are described by
// arithmetic (see HugeTrace), and listings are recorded as runs.

type hugeSpec struct {
	Kind  string   `json:"kind"`
	Size  int      `json:"size"`
	Impls []string `json:"impls"`
	Long  int      `json:"long"` // what keys of string trees have in common at their beginning
}

// hugeKeys makes keys and a way back from the listed ones, -1 for those which can't be listed.
func hugeKeys(kind, cmp string, n, long int) ([]Key, func(Key) int) {
	keys := make([]Key, n)
	back := make(map[string]int, n)
	common := strings.Repeat("k", long)
	add := func(i int, in, out Key) {
		keys[i] = in
		back[out.id()] = i
	}
	for i := 0; i < n; i++ {
		switch kind {
		case "str":
			j := i
			if cmp == "rev" {
				j = n - 1 - i
			}
			b := []byte(fmt.Sprintf("%s%07d", common, j))
			add(i, Key{F: "t", B: b}, Key{F: "b", B: b})
		case "label":
			k := Key{F: "t", B: []byte(fmt.Sprintf("k-%07d", i))}
			add(i, k, k)
		case "radix32":
			k := Key{F: "n", B: b32(uint32(i) << 13), N: 32}
			add(i, k, k)
		case "radix64":
			// A hundred networks inside of every bigger one.
			x := uint64(i/101) << 40
			k := Key{F: "n", B: b64(x), N: 24}
			if i%101 > 0 {
				k = Key{F: "n", B: b64(x | uint64(i%101-1)<<30), N: 64}
			}
			add(i, k, k)
		case "ip":
			size, bits := 4, 32
			b := b32(0x0a000000 + uint32(i))
			if i >= n/2 {
				size, bits = 16, 128
				b = append(b64(0x20010db8<<32+uint64(i)/300), b64(uint64(i)%300)...)
			}
			m := make([]byte, size)
			for j := 0; j < bits; j++ {
				setBit(m, j, 1)
			}
			k := Key{F: "i", B: b, M: m}
			add(i, k, k)
		case "dom":
			// A thousand of names below each one.
			p := fmt.Sprintf("d%04d.zone", i/1001)
			if i%1001 > 0 {
				p = fmt.Sprintf("n%04d.%s", i%1001, p)
			}
			k := Key{F: "t", B: []byte(p)}
			add(i, k, k)
		default:
			panic("harness: kind " + kind)
		}
	}
	return keys, func(k Key) int {
		if i, ok := back[k.id()]; ok {
			return i
		}
		return -1
	}
}

func hugeHistory(r *rand.Rand, impl Impl, kind, cmp string, n, long int) *Trace {
	t := &Trace{Impls: []string{impl.Name()}, Kind: kind, Cmp: cmp, Keys: []Key{}, Outs: []Key{}, Ev: []Event{}}
	keys, back := hugeKeys(kind, cmp, n, long)
	vers := make([]Ver, 4)
	do := func(what string, f func(ev Event)) bool {
		ev := Event{"e": what}
		if bad := guardFor(what, 100, func() { f(ev) }); bad != "" {
			t.Ev = append(t.Ev, Event{"e": "bad", "op": what, "why": bad})
			return false
		}
		t.Ev = append(t.Ev, ev)
		return true
	}
	// Every order of a batch has to give the same.
	order := func(style int) func(j int) int {
		step := []int{1, n - 1, 48271, 7919}[style%4]
		for gcd(step, n) != 1 {
			step++
		}
		return func(j int) int { return int(int64(j) * int64(step) % int64(n)) }
	}
	put := func(s, d, m, rem, shift int) bool {
		what, at := "ins", order(r.Intn(4))
		if s == d {
			what = "inp"
		}
		return do(what, func(ev Event) {
			v := vers[s]
			for j := 0; j < n; j++ {
				if i := at(j); i%m == rem {
					if s == d {
						v = impl.Inp(v, keys[i], 1+(i+shift)%97)
					} else {
						v = impl.Ins(v, keys[i], 1+(i+shift)%97)
					}
				}
			}
			vers[d] = v
			ev["s"], ev["d"], ev["m"], ev["r"], ev["x"] = s, d, m, rem, shift
		})
	}
	cut := func(s, d, m, rem int) bool {
		at := order(r.Intn(4))
		return do("del", func(ev Event) {
			v, yes := vers[s], 0
			for j := 0; j < n; j++ {
				if i := at(j); i%m == rem {
					var ok bool
					if v, ok = impl.Del(v, keys[i]); ok {
						yes++
					}
				}
			}
			vers[d] = v
			ev["s"], ev["d"], ev["m"], ev["r"], ev["n"] = s, d, m, rem, yes
		})
	}
	list := func(s int) bool {
		return do("enum", func(ev Event) {
			ev["s"], ev["p"] = s, runs(impl.Open(vers[s], 0), back)
		})
	}
	look := func(s int) bool {
		return do("look", func(ev Event) {
			q := [][]int{}
			for j := 0; j < 700; j++ {
				i := r.Intn(n)
				q = append(q, []int{i, impl.Get(vers[s], keys[i])})
			}
			ev["s"], ev["q"] = s, q
		})
	}
	_ = do("new", func(ev Event) { ev["d"], ev["n"], vers[1] = 1, n, impl.New(cmp) }) &&
		put(1, 1, 1, 0, 0) && list(1) && look(1) &&
		put(1, 2, 11, 5, 40) && cut(2, 3, 7, 3) && list(3) && look(3) && list(1) && look(1) && list(2) &&
		cut(3, 2, 2, 0) && list(2) && look(2) && cut(2, 2, 1, 0) && list(2) && list(1)
	return t
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// runs packs a listing: [first key, its value, number of entries] where keys and values go up by one.
func runs(next func() (Item, bool), back func(Key) int) [][]int {
	p := [][]int{}
	for it, ok := next(); ok; it, ok = next() {
		i := back(it.K)
		if l := len(p); l > 0 && p[l-1][0]+p[l-1][2] == i && p[l-1][1]+p[l-1][2] == it.V {
			p[l-1][2]++
			continue
		}
		if p = append(p, []int{i, it.V, 1}); len(p) > 1<<20 {
			panic("enumeration has no end")
		}
	}
	return p
}

func huge(specs []hugeSpec, seed int64, out, only string) {
	traces := []*Trace{}
	entries := 0
	for si, s := range specs {
		for j, impl := range implsOf(s.Kind) {
			cmp := "lex"
			if s.Kind == "str" && j%2 == 1 {
				cmp = "rev"
			}
			note := fmt.Sprintf("huge/%s/%s", s.Kind, cmp)
			if s.Long > 0 {
				note += fmt.Sprintf("/%d", s.Long)
			}
			id := impl.Name() + ":" + note
			if len(s.Impls) > 0 && !contains(s.Impls, impl.Name()) || only != "" && only != id || tired() {
				continue
			}
			progress.at(id)
			t := hugeHistory(rand.New(rand.NewSource(seed*41+int64(si))), impl, s.Kind, cmp, s.Size, s.Long)
			t.Note = note
			entries += s.Size
			traces = append(traces, t)
		}
	}
	writeJSON(out, traces)
	writeJSON(out+".stats", map[string]interface{}{"traces": len(traces), "entries": entries})
}
