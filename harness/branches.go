package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Histories of module Branches are carried out here: every step takes a version and makes another one of it (or works in
// place); all versions which are still there are looked at after every step.

type branchesSpec struct {
	File  string   `json:"file"`
	Shape string   `json:"shape"` // flat, tree, domain
	Impls []string `json:"impls"`
	Need  string   `json:"need"` // only histories with this operation
	Some  int      `json:"some"` // take one history of so many
	Fams  int      `json:"fams"` // and one family of so many
}

type bStep struct {
	op     string
	src, c int
	ok     bool
	list   [][2]int
	look   []int
}

type bHist struct {
	line  string
	seed  []int
	steps []bStep
}

type bBad struct {
	Family  string   `json:"family"`
	What    string   `json:"what"`
	Step    int      `json:"step"`
	History string   `json:"history"`
	Seed    []string `json:"seed"`
	Steps   []string `json:"steps"`
}

func readHistories(name string) []bHist {
	f, err := os.Open(name)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	lines := []string{}
	for sc.Scan() {
		line := sc.Text()
		if strings.HasPrefix(line, `"`) {
			var s string
			must(json.Unmarshal([]byte(line), &s))
			line = s
		}
		if strings.HasPrefix(line, "@h") {
			lines = append(lines, line[2:])
		}
	}
	must(sc.Err())
	sort.Strings(lines)
	hs := []bHist{}
	for i, l := range lines {
		if i > 0 && l == lines[i-1] {
			continue
		}
		var a []json.RawMessage
		must(json.Unmarshal([]byte(l), &a))
		h := bHist{line: l}
		must(json.Unmarshal(a[0], &h.seed))
		var steps [][]json.RawMessage
		must(json.Unmarshal(a[1], &steps))
		for _, x := range steps {
			s := bStep{}
			must(json.Unmarshal(x[0], &s.op))
			must(json.Unmarshal(x[1], &s.src))
			must(json.Unmarshal(x[2], &s.c))
			must(json.Unmarshal(x[3], &s.ok))
			must(json.Unmarshal(x[4], &s.list))
			must(json.Unmarshal(x[5], &s.look))
			h.steps = append(h.steps, s)
		}
		hs = append(hs, h)
	}
	return hs
}

// classKey tells how the class is written for families of the shape.
func classKey(shape string, c int) string {
	if shape == "flat" {
		return strconv.FormatUint(uint64(c)<<40, 10)
	}
	path := [][]int{{}, {1}, {1, 1}, {1, 2}, {2}, {2, 1}, {2, 2}}[c-1]
	if shape == "domain" {
		b, _ := json.Marshal(path)
		return string(b)
	}
	x := 0
	for i := 0; i < 2; i++ {
		x *= 2
		if i < len(path) {
			x += path[i] - 1
		}
	}
	return fmt.Sprintf("[%d,%d]", x, len(path))
}

type bVer struct {
	v    Ver
	live bool
	list [][2]int
	look []int
}

func (w *bWalker) look(b *bVer, full bool) string {
	w.n++
	impl := w.f.impl
	next := impl.Open(b.v, w.n)
	i := 0
	for {
		it, ok := next()
		if !ok {
			break
		}
		if i >= len(b.list) {
			return fmt.Sprintf("enumeration lists more than %d entries, then %s", i, showKey(it.K))
		}
		j := i
		if w.f.desc {
			j = len(b.list) - 1 - i
		}
		if k := w.keys[b.list[j][0]]; w.f.back(it.K) != k || it.V != b.list[j][1] {
			return fmt.Sprintf("entry %d of enumeration is %s (%s) with value %d, not %s with value %d",
				i+1, showKey(it.K), w.f.back(it.K), it.V, k, b.list[j][1])
		}
		i++
	}
	if i < len(b.list) {
		return fmt.Sprintf("enumeration lists only %d entries of %d", i, len(b.list))
	}
	if !full {
		return ""
	}
	if strings.Contains(impl.Features(), "E") && impl.Empty(b.v) != (len(b.list) == 0) {
		return fmt.Sprintf("IsEmpty gives %v", len(b.list) != 0)
	}
	for c, want := range b.look {
		w.n++
		k := w.f.real(w.keys[c+1], w.n)
		if got := impl.Get(b.v, k); got != want {
			return fmt.Sprintf("lookup of %s gives value %d, not %d", showKey(k), got, want)
		}
	}
	return ""
}

type bWalker struct {
	f     *family
	shape string
	keys  map[int]string
	n     int
	steps int
}

func (w *bWalker) run(h bHist, bad *bBad) (p string) {
	impl := w.f.impl
	w.n++
	seeded := w.n
	r := rand.New(rand.NewSource(int64(seeded)))
	x := &bVer{v: impl.New(w.f.cmp), live: true}
	for i, j := range r.Perm(len(h.seed)) {
		c := h.seed[j]
		k := w.f.real(w.keys[c], w.n+i)
		bad.Seed = append(bad.Seed, showKey(k))
		if p := guard("making the first version", func() {
			if seeded%3 == 0 || seeded%3 == 1 && i%2 == 0 {
				x.v = impl.Ins(x.v, k, 50+c)
			} else {
				x.v = impl.Inp(x.v, k, 50+c)
			}
		}); p != "" {
			return p
		}
	}
	sort.Ints(h.seed)
	for _, c := range h.seed {
		x.list = append(x.list, [2]int{c, 50 + c})
	}
	vs := []*bVer{x}
	for i, s := range h.steps {
		w.n++
		w.steps++
		src := vs[s.src-1]
		k := w.f.real(w.keys[s.c], w.n)
		bad.Step = i + 1
		bad.Steps = append(bad.Steps, fmt.Sprintf("%s %s on version %d", s.op, showKey(k), s.src))
		y := &bVer{live: true, list: s.list, look: s.look}
		ok := s.ok
		if p := guard(s.op, func() {
			switch s.op {
			case "ins":
				y.v = impl.Ins(src.v, k, i+1)
			case "del":
				y.v, ok = impl.Del(src.v, k)
			case "dsub":
				y.v, ok = impl.DelSub(src.v, k)
			case "inp":
				y.v = impl.Inp(src.v, k, i+1)
			case "upd":
				y.v = src.v
				impl.Update(src.v, k, func(int) int { return i + 1 })
			default:
				panic("harness: unknown operation")
			}
		}); p != "" {
			return p
		}
		if ok != s.ok {
			return fmt.Sprintf("%s of %s returns %v", s.op, showKey(k), ok)
		}
		if s.op == "inp" || s.op == "upd" {
			for _, o := range vs {
				o.live = false
			}
			vs[s.src-1] = y
		} else {
			vs = append(vs, y)
		}
		for j, o := range vs {
			if !o.live {
				continue
			}
			var p string
			if bad := guard("observation", func() { p = w.look(o, o == y || i == len(h.steps)-1) }); bad != "" {
				p = bad
			}
			if p != "" {
				return fmt.Sprintf("version %d: %s", j+1, p)
			}
		}
	}
	return ""
}

// hash spreads numbers so that every family has histories of its own.
func hash(a, b int) int {
	x := uint64(a)*0x9e3779b97f4a7c15 + uint64(b)*0xbf58476d1ce4e5b9
	x ^= x >> 29
	x *= 0x94d049bb133111eb
	return int(x >> 33)
}

func branches(specs []branchesSpec, seed int64, out, only string) {
	type job struct {
		f    *family
		hs   []bHist
		s    branchesSpec
		from int
	}
	jobs := []job{}
	total := 0
	for _, s := range specs {
		hs := readHistories(s.File)
		total += len(hs)
		var fs []*family
		nkeys := 7
		switch s.Shape {
		case "flat":
			nkeys = 64
			fs = rbFamilies()
		case "tree":
			fs = radixFamilies(2, false)
		case "domain":
			// (but not at the bottom of the longest names, enumerations take too long there)
			for _, f := range domFamilies(2, 2) {
				if !strings.HasSuffix(f.name, "below 125 labels") {
					fs = append(fs, f)
				}
			}
		}
		for i, f := range fs {
			if s.Fams > 1 && (i+int(seed))%s.Fams != 0 && only == "" {
				continue
			}
			if len(s.Impls) > 0 && !contains(s.Impls, f.impl.Name()) || only != "" && only != f.name {
				continue
			}
			s := s
			s.Fams = nkeys
			jobs = append(jobs, job{f, hs, s, i})
		}
	}
	var (
		mu     sync.Mutex
		wg     sync.WaitGroup
		bads   []*bBad
		nh, ns int
		names  []string
		sem    = make(chan bool, runtime.NumCPU())
	)
	for _, j := range jobs {
		names = append(names, j.f.name)
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if tired() {
				return
			}
			progress.at(j.f.name)
			w := &bWalker{f: j.f, shape: j.s.Shape, keys: map[int]string{}, n: int(seed)*131 + j.from}
			for c := 1; c <= j.s.Fams; c++ {
				w.keys[c] = classKey(j.s.Shape, c)
			}
			upd := strings.Contains(j.f.impl.Features(), "U")
			done := 0
			for i, h := range j.hs {
				if j.s.Some > 1 && hash(i, j.from+int(seed))%j.s.Some != 0 {
					continue
				}
				if j.s.Need != "" && !strings.Contains(h.line, `"`+j.s.Need+`"`) {
					continue
				}
				if !upd && strings.Contains(h.line, `"upd"`) {
					continue
				}
				progress.stepf(j.f.name, "%s", h.line)
				b := &bBad{Family: j.f.name, History: h.line}
				done++
				if p := w.run(h, b); p != "" {
					b.What = p
					mu.Lock()
					bads = append(bads, b)
					mu.Unlock()
					break
				}
			}
			mu.Lock()
			nh += done
			ns += w.steps
			mu.Unlock()
		}(j)
	}
	wg.Wait()
	sort.Slice(bads, func(i, j int) bool { return bads[i].Family < bads[j].Family })
	writeJSON(out, map[string]interface{}{"bad": bads, "histories": nh, "steps": ns, "families": names, "total": total})
}
