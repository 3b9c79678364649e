package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// Histories with thousands of entries: keys are known by ranks and operations come in batches (see BigTrace).

type bigSpec struct {
	Kind  string   `json:"kind"`
	Cmps  []string `json:"cmps"`
	Size  int      `json:"size"`
	N     int      `json:"n"`
	Dot   bool     `json:"dot"`
	Impls []string `json:"impls"`
}

// bigKey is a key with its canonical form.
type bigKey struct {
	k Key
	c [][]byte
}

func cmpShort(a, b []byte) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	return bytes.Compare(a, b)
}

func cmpBig(kind, cmp string, a, b bigKey) int {
	switch {
	case kind == "dom":
		for i := 0; i < len(a.c) && i < len(b.c); i++ {
			if c := cmpShort(a.c[i], b.c[i]); c != 0 {
				return c
			}
		}
		return len(a.c) - len(b.c)
	case kind == "label" || cmp == "len":
		return cmpShort(a.c[0], b.c[0])
	case cmp == "rev":
		return bytes.Compare(b.c[0], a.c[0])
	}
	return bytes.Compare(a.c[0], b.c[0])
}

func bitsOf(b []byte, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = getBit(b, i)
	}
	return out
}

func one(k Key, c []byte) bigKey { return bigKey{k, [][]byte{c}} }

// bigPrefixes makes a generator of prefixes: dense ranges, nested networks, anything.
func bigPrefixes(r *rand.Rand, size int) func() ([]byte, int) {
	width := size * 8
	bases := [][]byte{}
	for i := 0; i < 3; i++ {
		bases = append(bases, randBytes(r, size, ""))
	}
	style := r.Intn(3)
	return func() ([]byte, int) {
		b := cloneBytes(bases[r.Intn(len(bases))])
		s := style
		if r.Intn(4) == 0 {
			s = r.Intn(3)
		}
		switch s {
		case 0: // addresses of a range
			b[size-1], b[size-2] = byte(r.Intn(256)), byte(r.Intn(8))
			return b, width
		case 1: // networks of a range
			n := width - r.Intn(14)
			b[size-1], b[size-2] = byte(r.Intn(256)), byte(r.Intn(256))
			return b, n
		}
		if size != 4 && size != 8 && size != 16 || r.Intn(8) > 0 {
			return randBytes(r, size, ""), r.Intn(width + 1)
		}
		return famousPrefix(r, width)
	}
}

var mappedPrefix = []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}

func bigKeys(r *rand.Rand, kind, cmp string, n int) []bigKey {
	var gen func() bigKey
	switch kind {
	case "str":
		style := r.Intn(3)
		gen = func() bigKey {
			var b []byte
			switch style {
			case 0:
				b = []byte(fmt.Sprintf("key%d", r.Intn(3*n)))
			case 1:
				b = randBytes(r, r.Intn(6), "")
			default:
				b = randBytes(r, 1+r.Intn(300), "ab")
			}
			return one(Key{F: "t", B: b}, b)
		}
	case "label":
		style := r.Intn(3)
		gen = func() bigKey {
			var b []byte
			switch style {
			case 0:
				b = []byte(fmt.Sprintf("H%d", r.Intn(3*n)))
			case 1:
				b = upBytes(randBytes(r, 1+r.Intn(5), ""))
			default:
				b = upBytes(randBytes(r, 55+r.Intn(9), "A.\x00"))
			}
			if r.Intn(3) == 0 {
				return one(Key{F: "b", B: b}, b)
			}
			return one(Key{F: "t", B: spell(r, b)}, b)
		}
	case "radix32", "radix64":
		size := 4
		if kind == "radix64" {
			size = 8
		}
		next := bigPrefixes(r, size)
		gen = func() bigKey {
			b, m := next()
			return one(Key{F: "n", B: b, N: m}, bitsOf(b, m))
		}
	case "ip":
		n4, n6 := bigPrefixes(r, 4), bigPrefixes(r, 16)
		gen = func() bigKey {
			f, size, next := byte(4), 4, n4
			if r.Intn(2) == 0 {
				f, size, next = 6, 16, n6
			}
			b, m := next()
			c := append([]byte{f}, bitsOf(b, m)...)
			if m == 8*size && r.Intn(2) == 0 {
				if f == 6 && bytes.HasPrefix(b, mappedPrefix) {
					c = append([]byte{4}, bitsOf(b[12:], 32)...)
				}
				return one(Key{F: "a", B: b}, c)
			}
			mask := make([]byte, size)
			for i := 0; i < m; i++ {
				setBit(mask, i, 1)
			}
			return one(Key{F: "i", B: b, M: mask}, c)
		}
	case "dom":
		names := [][][]byte{{}}
		hub := r.Intn(3)
		gen = func() bigKey {
			p := names[r.Intn(len(names))]
			if hub == 0 || r.Intn(3) == 0 {
				p = names[r.Intn(1+len(names)/50)]
			}
			if len(p) >= 6 {
				p = p[:3]
			}
			l := []byte(fmt.Sprintf("D%d", r.Intn(n)))
			if r.Intn(4) == 0 {
				l = genLabel(r, r.Intn(3))
			}
			name := append(append([][]byte{}, p...), l)
			names = append(names, name)
			parts := []string{}
			for i := len(name) - 1; i >= 0; i-- {
				parts = append(parts, string(spell(r, name[i])))
			}
			return bigKey{Key{F: "t", B: []byte(strings.Join(parts, "."))}, name}
		}
	default:
		panic("harness: kind " + kind)
	}
	keys := []bigKey{}
	for i := 0; i < n+n/4; i++ {
		keys = append(keys, gen())
	}
	sort.SliceStable(keys, func(i, j int) bool { return cmpBig(kind, cmp, keys[i], keys[j]) < 0 })
	out := keys[:1]
	for _, k := range keys[1:] {
		if cmpBig(kind, cmp, out[len(out)-1], k) != 0 {
			out = append(out, k)
		}
	}
	return out
}

// bigTrace also tells the closest key which contains the key and the last one which is contained.
type bigTrace struct {
	*Trace
	Up []int `json:"up"`
	Hi []int `json:"hi"`
}

func within(kind string, a, b bigKey) bool {
	if kind == "str" || kind == "label" {
		return false
	}
	if kind == "dom" {
		if len(a.c) > len(b.c) {
			return false
		}
		for i := range a.c {
			if !bytes.Equal(a.c[i], b.c[i]) {
				return false
			}
		}
		return true
	}
	return bytes.HasPrefix(b.c[0], a.c[0])
}

func links(kind string, keys []bigKey) (up, hi []int) {
	up, hi = make([]int, len(keys)), make([]int, len(keys))
	for i := range keys {
		p := i
		for p > 0 && !within(kind, keys[p-1], keys[i]) {
			p = up[p-1]
		}
		up[i], hi[i] = p, i+1
	}
	for i := len(keys) - 1; i >= 0; i-- {
		if p := up[i]; p > 0 {
			hi[p-1] = max(hi[p-1], hi[i])
		}
	}
	return up, hi
}

type bigRun struct {
	t    *Trace
	impl Impl
	keys []Key
	vers [4]Ver
}

func (b *bigRun) do(what string, f func(ev Event)) bool {
	ev := Event{"e": what}
	if bad := guardFor(what, 60, func() { f(ev) }); bad != "" {
		b.t.Ev = append(b.t.Ev, Event{"e": "bad", "op": what, "why": bad})
		return false
	}
	b.t.Ev = append(b.t.Ev, ev)
	return true
}

// put stores keys of given ranks in place or in new versions.
func (b *bigRun) put(r *rand.Rand, s, d int, ranks []int) bool {
	what := "ins"
	if s == d {
		what = "inp"
	}
	return b.do(what, func(ev Event) {
		xs := make([]int, len(b.keys))
		v := b.vers[s]
		for _, k := range ranks {
			x := 1 + r.Intn(maxVal-1)
			xs[k] = x
			if s == d {
				v = b.impl.Inp(v, b.keys[k], x)
			} else {
				v = b.impl.Ins(v, b.keys[k], x)
			}
		}
		b.vers[d] = v
		ev["s"], ev["d"], ev["x"] = s, d, xs
	})
}

func (b *bigRun) cut(what string, s, d int, ranks []int) bool {
	return b.do(what, func(ev Event) {
		o, res := make([]int, len(b.keys)), make([]int, len(b.keys))
		v := b.vers[s]
		for i, k := range ranks {
			var ok bool
			if what == "del" {
				v, ok = b.impl.Del(v, b.keys[k])
			} else {
				v, ok = b.impl.DelSub(v, b.keys[k])
			}
			o[k] = i + 1
			if ok {
				res[k] = 1
			}
		}
		b.vers[d] = v
		ev["s"], ev["d"], ev["o"], ev["r"] = s, d, o, res
	})
}

func (b *bigRun) look(what string, s int, ranks []int) bool {
	return b.do(what, func(ev Event) {
		q := [][]int{}
		for _, k := range ranks {
			if what == "look" {
				q = append(q, []int{k + 1, b.impl.Get(b.vers[s], b.keys[k])})
			} else {
				q = append(q, []int{k + 1, b.impl.GetExact(b.vers[s], b.keys[k])})
			}
		}
		ev["s"], ev["q"] = s, q
	})
}

func (b *bigRun) list(s, variant int) bool {
	return b.do("enum", func(ev Event) {
		ev["s"], ev["p"] = s, b.t.list(b.impl.Open(b.vers[s], variant))
	})
}

func (b *bigRun) dot(s int) bool {
	return b.do("dot", func(ev Event) {
		ev["s"] = s
		b.t.dotEvent(b.impl, b.vers[s], ev)
	})
}

func bigHistory(r *rand.Rand, impl Impl, kind, cmp string, keys []bigKey, hi []int, dot bool) *Trace {
	n := len(keys)
	b := &bigRun{impl: impl, t: &Trace{Impls: []string{impl.Name()}, Kind: kind, Cmp: cmp, Outs: []Key{}, Ev: []Event{}, outIdx: map[string]int{}}}
	for _, k := range keys {
		b.keys = append(b.keys, k.k)
	}
	b.t.Keys = b.keys
	sample := func(m int) []int { return r.Perm(n)[:min(n, m)] }
	dot = dot && containsRune(impl.Features(), 'D')
	exact := containsRune(impl.Features(), 'X')
	var half func() (Item, bool)
	var seen [][]int
	order := sample(3 * n / 4)
	switch r.Intn(3) {
	case 0:
		sort.Ints(order)
	case 1:
		sort.Sort(sort.Reverse(sort.IntSlice(order)))
	}
	ok := b.do("new", func(ev Event) { ev["d"] = 1; b.vers[1] = impl.New(cmp) }) &&
		b.put(r, 1, 1, order) && b.list(1, 0) && b.look("look", 1, sample(300)) &&
		(!dot || b.dot(1)) && (!exact || b.look("lookx", 1, sample(150))) &&
		// New versions while an enumeration of the first one is in progress.
		b.half(&half, &seen, 1, len(order)/2) &&
		b.put(r, 1, 2, sample(n/8)) && b.cut("del", 2, 3, sample(n/10)) &&
		b.rest(half, seen, 1) && b.list(2, 1) && b.list(3, 0) && b.look("look", 3, sample(300)) &&
		(!containsRune(impl.Features(), 'S') || b.cut("dsub", 3, 3, sample(n/50)) && b.list(3, 1)) &&
		b.cut("del", 2, 3, sample(2*n/3)) && b.list(1, 1) && b.list(3, 1) && b.look("look", 3, sample(200)) &&
		(!dot || b.dot(3)) && (!exact || b.look("lookx", 3, sample(100))) &&
		b.put(r, 3, 2, sample(n/8)) && b.list(2, 0) &&
		// Everything goes.
		b.cut("del", 2, 3, r.Perm(n)) && b.list(3, 0) && b.list(2, 1) && b.empty(3) && b.empty(2) &&
		// The first version is the only one again.
		b.drop(2) && b.drop(3) && b.put(r, 1, 1, sample(n/4)) && b.list(1, 1) && b.update(r, 1, hi) &&
		b.look("look", 1, sample(200))
	_ = ok
	return b.t
}

func (b *bigRun) drop(s int) bool {
	return b.do("drop", func(ev Event) { ev["s"], b.vers[s] = s, nil })
}

func (b *bigRun) empty(s int) bool {
	return !containsRune(b.impl.Features(), 'E') ||
		b.do("empty", func(ev Event) { ev["s"], ev["r"] = s, b.impl.Empty(b.vers[s]) })
}

// update descendants of some keys, first of all those who have many of them.
func (b *bigRun) update(r *rand.Rand, s int, hi []int) bool {
	if !containsRune(b.impl.Features(), 'U') {
		return true
	}
	nets := []int{}
	for _, k := range r.Perm(len(b.keys)) {
		if b.keys[k].F == "i" {
			nets = append(nets, k)
		}
	}
	sort.SliceStable(nets, func(i, j int) bool { return hi[nets[i]]-nets[i] > hi[nets[j]]-nets[j] })
	for i, k := range nets {
		if i >= 12 && i%(len(nets)/10+1) != 0 {
			continue
		}
		if !b.do("upd", func(ev Event) {
			cs := [][]int{}
			for _, c := range b.impl.Update(b.vers[s], b.keys[k], func(int) int { return r.Intn(maxVal) }) {
				cs = append(cs, []int{b.t.out(c.K), c.Old, c.New})
			}
			ev["s"], ev["k"], ev["c"] = s, k+1, cs
		}) || i%5 == 0 && !b.list(s, 0) {
			return false
		}
	}
	return b.list(s, 0)
}

func (b *bigRun) half(next *func() (Item, bool), seen *[][]int, s, n int) bool {
	if bad := guardFor("enum", 60, func() {
		*next = b.impl.Open(b.vers[s], 0)
		for i := 0; i < n; i++ {
			it, ok := (*next)()
			if !ok {
				break
			}
			*seen = append(*seen, []int{b.t.out(it.K), it.V})
		}
	}); bad != "" {
		b.t.Ev = append(b.t.Ev, Event{"e": "bad", "op": "enum", "why": bad})
		return false
	}
	return true
}

func (b *bigRun) rest(next func() (Item, bool), seen [][]int, s int) bool {
	return b.do("enum", func(ev Event) {
		ev["s"], ev["p"] = s, append(seen, b.t.list(next)...)
	})
}

func bigHistories(specs []bigSpec, seed int64, out, only string) {
	traces := []bigTrace{}
	runs, entries := 0, 0
	for si, bs := range specs {
		for i := 0; i < bs.N; i++ {
			cmp := "lex"
			if len(bs.Cmps) > 0 {
				cmp = bs.Cmps[i%len(bs.Cmps)]
			}
			base := seed*2000003 + int64(si)*7919 + int64(i)
			keys := bigKeys(rand.New(rand.NewSource(base)), bs.Kind, cmp, bs.Size)
			up, hi := links(bs.Kind, keys)
			groups := map[string]*Trace{}
			for _, impl := range implsOf(bs.Kind) {
				if len(bs.Impls) > 0 && !contains(bs.Impls, impl.Name()) {
					continue
				}
				id := fmt.Sprintf("%s:big/%s/%s/%d", impl.Name(), bs.Kind, cmp, i)
				if only != "" && only != id || tired() {
					continue
				}
				progress.at(id)
				tr := bigHistory(rand.New(rand.NewSource(base+1)), impl, bs.Kind, cmp, keys, hi, bs.Dot)
				tr.Note = fmt.Sprintf("big/%s/%s/%d", bs.Kind, cmp, i)
				runs++
				entries += len(keys)
				bb, err := json.Marshal([]interface{}{tr.Outs, tr.Ev})
				if err != nil {
					panic(err)
				}
				if g, ok := groups[string(bb)]; ok {
					g.Impls = append(g.Impls, impl.Name())
				} else {
					groups[string(bb)] = tr
					traces = append(traces, bigTrace{tr, up, hi})
				}
			}
		}
	}
	writeJSON(out, traces)
	writeJSON(out+".stats", map[string]interface{}{"runs": runs, "traces": len(traces), "keys": entries})
}
