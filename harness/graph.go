package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// A graph is every transition a structural model has made, with what each of them has to do to the content of
// the tree, and what lookups have to find in each state. Here every transition is made by the real trees.

type gItem struct {
	key string
	new bool
}

type gEdge struct {
	from, op, key, to string
	ok                bool
	list              []gItem
}

type gQuery struct{ key, win string }

type graph struct {
	edges   map[string][]*gEdge
	n       int
	queries map[string][]gQuery
}

const noKey = "none"

func compact(r json.RawMessage) string { return string(r) }

// readGraph reads lines TLC has printed.
func readGraph(name string) *graph {
	f, err := os.Open(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	g := &graph{edges: map[string][]*gEdge{}, queries: map[string][]gQuery{}}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	seen := map[string]bool{}
	for sc.Scan() {
		var line string
		if err := json.Unmarshal(sc.Bytes(), &line); err != nil {
			panic(fmt.Sprintf("harness: bad line %q: %s", sc.Text(), err))
		}
		if seen[line] {
			continue
		}
		seen[line] = true
		var a []json.RawMessage
		if err := json.Unmarshal([]byte(line[2:]), &a); err != nil {
			panic(fmt.Sprintf("harness: bad line %q: %s", line, err))
		}
		switch line[:2] {
		case "@e":
			e := &gEdge{from: compact(a[0]), key: compact(a[2]), to: compact(a[3])}
			must(json.Unmarshal(a[1], &e.op))
			must(json.Unmarshal(a[4], &e.ok))
			var l [][]json.RawMessage
			must(json.Unmarshal(a[5], &l))
			for _, x := range l {
				var tag string
				must(json.Unmarshal(x[1], &tag))
				e.list = append(e.list, gItem{compact(x[0]), tag == "n"})
			}
			g.edges[e.from] = append(g.edges[e.from], e)
			g.n++
		case "@s":
			var l [][]json.RawMessage
			must(json.Unmarshal(a[1], &l))
			qs := []gQuery{}
			for _, x := range l {
				qs = append(qs, gQuery{compact(x[0]), compact(x[1])})
			}
			g.queries[compact(a[0])] = qs
		default:
			panic("harness: bad line " + line)
		}
	}
	must(sc.Err())
	// TLC's workers print in any order.
	for _, es := range g.edges {
		sort.Slice(es, func(i, j int) bool {
			a, b := es[i], es[j]
			if a.key != b.key {
				return a.key < b.key
			}
			return a.op < b.op
		})
	}
	return g
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// family is a way to put the graph on some real tree.
type family struct {
	name    string
	impl    Impl
	cmp     string
	none    string                      // how absence of a winner is written in the graph
	rank    bool                        // keys of the graph are ranks
	desc    bool                        // real order is the opposite of the one of ranks
	real    func(key string, n int) Key // n chooses a spelling
	back    func(k Key) string          // key which is listed, "?" if it can't be there
	outside []Key                       // nothing is found by these
	subs    bool                        // DeleteSubdomains has to be the same as Delete here
	tree    func(state string) []string
}

type gEnt struct {
	key string
	val int
}

type inst struct {
	v    Ver
	ents []gEnt
}

type gStep struct {
	Op   string `json:"op"`
	Key  Key    `json:"-"`
	KeyS string `json:"key"`
	Val  int    `json:"val,omitempty"`
}

type gBad struct {
	Family string   `json:"family"`
	What   string   `json:"what"`
	Path   []gStep  `json:"path"`
	State  string   `json:"model_state"`
	Listed []string `json:"expected_content,omitempty"`
}

type walker struct {
	f     *family
	g     *graph
	n     int // counter: spellings, values and update choices
	hold  map[string]*inst
	path  map[string][]*gEdge
	edges int
	looks int
}

func midpoint(ents []gEnt, r int) string {
	lo, hi := uint64(0), ^uint64(0)
	if r > 0 {
		lo, _ = strconv.ParseUint(ents[r-1].key, 10, 64)
	}
	if r < len(ents) {
		hi, _ = strconv.ParseUint(ents[r].key, 10, 64)
	}
	m := lo + (hi-lo)/2
	if m == lo {
		panic("harness: no room between keys")
	}
	return strconv.FormatUint(m, 10)
}

// key translates a key of the graph in an operation on the given content.
func (w *walker) key(k string, ents []gEnt) string {
	if !w.f.rank {
		return k
	}
	r, err := strconv.Atoi(k)
	must(err)
	if r%2 == 0 {
		return ents[r/2-1].key
	}
	return midpoint(ents, r/2)
}

func findEnt(ents []gEnt, k string) int {
	for _, e := range ents {
		if e.key == k {
			return e.val
		}
	}
	return 0
}

// apply makes an operation; inplace tells to prefer in-place insertion.
func (w *walker) apply(x *inst, e *gEdge, inplace bool, log *[]gStep) (*inst, string) {
	w.n++
	k := w.key(e.key, x.ents)
	rk := w.f.real(k, w.n)
	old := findEnt(x.ents, k)
	val := 1 + w.n%(maxVal-2)
	if val == old {
		val++
	}
	op := e.op
	if op == "ins" && inplace {
		op = "inp"
	}
	if log != nil {
		*log = append(*log, gStep{Op: op, Key: rk, KeyS: showKey(rk), Val: val})
	}
	y := &inst{}
	var (
		ok    = true
		calls []Call
		sub   = w.f.subs && op == "del" && w.n%2 == 0
	)
	bad := guard(op+" of "+showKey(rk), func() {
		switch op {
		case "ins":
			y.v = w.f.impl.Ins(x.v, rk, val)
		case "inp":
			y.v = w.f.impl.Inp(x.v, rk, val)
		case "del":
			if sub {
				y.v, ok = w.f.impl.DelSub(x.v, rk)
			} else {
				y.v, ok = w.f.impl.Del(x.v, rk)
			}
		case "dsub":
			y.v, ok = w.f.impl.DelSub(x.v, rk)
		case "upd":
			n := w.n
			calls = w.f.impl.Update(x.v, rk, func(i int) int {
				if n%3 == 1 || n%3 == 2 && i%2 == 0 {
					return 0
				}
				return 1 + (n+7*i)%(maxVal-2)
			})
			y.v = x.v
		default:
			panic("harness: unknown operation")
		}
	})
	if bad != "" {
		return y, bad
	}
	if (op == "del" || op == "dsub") && ok != e.ok {
		return y, fmt.Sprintf("%s of %s returns %v", op, showKey(rk), ok)
	}
	called := map[string]Call{}
	for _, c := range calls {
		b := w.f.back(c.K)
		if _, ok := called[b]; ok {
			return y, fmt.Sprintf("callback is called twice for %s", showKey(c.K))
		}
		if c.Old != findEnt(x.ents, b) {
			return y, fmt.Sprintf("callback is called with value %d for %s", c.Old, showKey(c.K))
		}
		called[b] = c
	}
	news := 0
	for _, it := range e.list {
		ent := gEnt{}
		switch {
		case !w.f.rank:
			ent.key = it.key
		case it.new:
			ent.key = k
		default:
			r, err := strconv.Atoi(it.key)
			must(err)
			ent.key = x.ents[r/2-1].key
		}
		ent.val = findEnt(x.ents, ent.key)
		if it.new {
			news++
			ent.val = val
			if op == "upd" {
				c, ok := called[ent.key]
				if !ok {
					return y, fmt.Sprintf("callback isn't called for %s", ent.key)
				}
				ent.val = c.Old
				if c.New > 0 {
					ent.val = c.New
				}
			}
		}
		if ent.val == 0 {
			panic("harness: entry without value")
		}
		y.ents = append(y.ents, ent)
	}
	if op == "upd" && news != len(called) {
		return y, fmt.Sprintf("callback is called for %v", calls)
	}
	return y, ""
}

// verify compares what is seen with what has to be there.
func (w *walker) verify(x *inst, state string) string {
	var problem string
	bad := guard("observation", func() { problem = w.observe(x, state) })
	if bad != "" {
		return bad
	}
	return problem
}

func (w *walker) observe(x *inst, state string) string {
	w.n++
	impl := w.f.impl
	next := impl.Open(x.v, w.n)
	i := 0
	for {
		it, ok := next()
		if !ok {
			break
		}
		if i >= len(x.ents) {
			return fmt.Sprintf("enumeration lists more than %d entries, then %s", i, showKey(it.K))
		}
		j := i
		if w.f.desc {
			j = len(x.ents) - 1 - i
		}
		want := x.ents[j]
		if b := w.f.back(it.K); b != want.key || it.V != want.val {
			return fmt.Sprintf("entry %d of enumeration is %s (%s) with value %d, not %s with value %d",
				i+1, showKey(it.K), b, it.V, want.key, want.val)
		}
		i++
	}
	if i < len(x.ents) {
		return fmt.Sprintf("enumeration lists only %d entries of %d", i, len(x.ents))
	}
	feat := impl.Features()
	if strings.Contains(feat, "E") {
		if e := impl.Empty(x.v); e != (len(x.ents) == 0) {
			return fmt.Sprintf("IsEmpty gives %v", e)
		}
	}
	look := func(k Key, want int) string {
		w.looks++
		if got := impl.Get(x.v, k); got != want {
			return fmt.Sprintf("lookup of %s gives value %d, not %d", showKey(k), got, want)
		}
		return ""
	}
	if w.f.rank {
		for i := 0; i <= len(x.ents); i++ {
			if p := look(w.f.real(midpoint(x.ents, i), w.n+i), gotAbsent); p != "" {
				return p
			}
			if i < len(x.ents) {
				if p := look(w.f.real(x.ents[i].key, w.n+i), x.ents[i].val); p != "" {
					return p
				}
			}
		}
	} else {
		qs, ok := w.g.queries[state]
		if !ok {
			panic("harness: no lookups for " + state)
		}
		for i, q := range qs {
			want := gotAbsent
			if q.win != w.f.none {
				want = findEnt(x.ents, q.win)
				if want == 0 {
					panic("harness: winner isn't there")
				}
			}
			k := w.f.real(q.key, w.n+i)
			if p := look(k, want); p != "" {
				return p
			}
			if strings.Contains(feat, "X") {
				want := findEnt(x.ents, q.key)
				if want == 0 {
					want = gotAbsent
				}
				if got := impl.GetExact(x.v, k); got != want {
					return fmt.Sprintf("exact lookup of %s gives value %d, not %d", showKey(k), got, want)
				}
			}
		}
	}
	for _, k := range w.f.outside {
		if p := look(k, gotAbsent); p != "" {
			return p
		}
	}
	if w.f.tree != nil {
		want := w.f.tree(state)
		for i, n := range impl.(triImpl).Tri(x.v) {
			s := fmt.Sprintf("%s %v", w.f.back(n.K), n.Leaf)
			if i >= len(want) || s != want[i] {
				return fmt.Sprintf("node %d of the structure is %s", i+1, s)
			}
			if n.Leaf && n.V != findEnt(x.ents, w.f.back(n.K)) || !n.Leaf && n.V != 0 {
				return fmt.Sprintf("node %d (%s) of the structure keeps value %d", i+1, s, n.V)
			}
			want[i] = ""
		}
		for i, s := range want {
			if s != "" {
				return fmt.Sprintf("node %d (%s) is missing in the structure", i+1, s)
			}
		}
	}
	return ""
}

func showKey(k Key) string {
	switch k.F {
	case "n":
		return fmt.Sprintf("%x/%d", k.B, k.N)
	case "i":
		return fmt.Sprintf("%x mask %x", k.B, k.M)
	}
	return fmt.Sprintf("%s %q", k.F, k.B)
}

// rebuild makes a tree of the state which nobody else has.
func (w *walker) rebuild(state string, inplace bool, log *[]gStep) (*inst, string) {
	x := &inst{v: w.f.impl.New(w.f.cmp)}
	var bad string
	for _, e := range w.path[state] {
		if x, bad = w.apply(x, e, inplace, log); bad != "" {
			return x, bad
		}
	}
	return x, ""
}

func (w *walker) run() *gBad {
	root := "[]"
	w.hold = map[string]*inst{root: {v: w.f.impl.New(w.f.cmp)}}
	w.path = map[string][]*gEdge{root: nil}
	// The way every held version was made, for reports.
	logs := map[string][]gStep{root: nil}
	queue := []string{root}
	fail := func(what, state string, log []gStep, x *inst) *gBad {
		b := &gBad{Family: w.f.name, What: what, Path: log, State: state}
		if x != nil {
			for _, e := range x.ents {
				b.Listed = append(b.Listed, fmt.Sprintf("%s = %d", e.key, e.val))
			}
		}
		return b
	}
	if p := w.verify(w.hold[root], root); p != "" {
		return fail(p, root, nil, nil)
	}
	for qi := 0; qi < len(queue); qi++ {
		s := queue[qi]
		x := w.hold[s]
		for _, e := range w.g.edges[s] {
			switch e.op {
			case "ins", "del", "dsub":
				progress.stepf(w.f.name, "%s %s on %s", e.op, e.key, s)
				w.edges++
				log := append([]gStep{}, logs[s]...)
				y, p := w.apply(x, e, false, &log)
				if p == "" {
					p = w.verify(y, e.to)
				}
				if p != "" {
					return fail(p, s, log, y)
				}
				if _, ok := w.hold[e.to]; !ok {
					w.hold[e.to] = y
					w.path[e.to] = append(append([]*gEdge{}, w.path[s]...), e)
					logs[e.to] = log
					queue = append(queue, e.to)
				}
			case "inp", "upd":
				if e.op == "upd" && !strings.Contains(w.f.impl.Features(), "U") {
					continue
				}
				for _, inplace := range []bool{false, true} {
					progress.stepf(w.f.name, "%s %s on %s", e.op, e.key, s)
					w.edges++
					log := []gStep{}
					y, p := w.rebuild(s, inplace, &log)
					if p == "" {
						y, p = w.apply(y, e, inplace, &log)
					}
					if p == "" {
						p = w.verify(y, e.to)
					}
					if p != "" {
						return fail(p, s, log, y)
					}
				}
			}
		}
		if p := w.verify(x, s); p != "" {
			return fail("version has changed after operations on it: "+p, s, logs[s], x)
		}
	}
	for _, s := range queue {
		if p := w.verify(w.hold[s], s); p != "" {
			return fail("version has changed after operations on versions made of it: "+p, s, logs[s], w.hold[s])
		}
	}
	return nil
}

type graphSpec struct {
	File  string   `json:"file"`
	Kind  string   `json:"kind"`  // rb, radix, ip2, dom
	P     []int    `json:"p"`     // sizes of the model
	Impls []string `json:"impls"` // all if empty
	Deep  bool     `json:"deep"`
	Some  int      `json:"some"` // take one family of so many
}

func graphs(specs []graphSpec, seed int64, out, only string) {
	type job struct {
		f *family
		g *graph
	}
	jobs := []job{}
	files := map[string]*graph{}
	for _, s := range specs {
		g, ok := files[s.File]
		if !ok {
			g = readGraph(s.File)
			files[s.File] = g
		}
		for i, f := range families(s) {
			if s.Some > 1 && (i+int(seed))%s.Some != 0 && only == "" {
				continue
			}
			if len(s.Impls) > 0 && !contains(s.Impls, f.impl.Name()) || only != "" && only != f.name {
				continue
			}
			jobs = append(jobs, job{f, g})
		}
	}
	var (
		mu    sync.Mutex
		wg    sync.WaitGroup
		bads  []*gBad
		stats = map[string]int{}
		sem   = make(chan bool, runtime.NumCPU())
	)
	if only != "" {
		sem = make(chan bool, 1)
	}
	names := []string{}
	for i, j := range jobs {
		names = append(names, j.f.name)
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if tired() {
				return
			}
			progress.at(j.f.name)
			w := &walker{f: j.f, g: j.g, n: int(seed)*31 + i*17}
			b := w.run()
			mu.Lock()
			defer mu.Unlock()
			if b != nil {
				bads = append(bads, b)
			}
			stats["transitions"] += w.edges
			stats["states"] += len(w.hold)
			stats["lookups"] += w.looks
		}(i, j)
	}
	wg.Wait()
	sort.Slice(bads, func(i, j int) bool { return bads[i].Family < bads[j].Family })
	writeJSON(out, map[string]interface{}{"bad": bads, "stats": stats, "families": names})
}
