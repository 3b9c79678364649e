package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"unsafe"
)

// reach is the longest of the shortest ways, in pointers, from a value to anything it keeps.
func reach(root interface{}) int {
	type item struct {
		v reflect.Value
		d int
	}
	type ref struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[ref]bool{}
	queue := []item{{reflect.ValueOf(root), 0}}
	deepest := 0
	var spread func(v reflect.Value, d int)
	spread = func(v reflect.Value, d int) {
		if d > deepest {
			deepest = d
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			k := ref{v.UnsafePointer(), v.Type()}
			if !seen[k] {
				seen[k] = true
				queue = append(queue, item{v.Elem(), d + 1})
			}
		case reflect.Interface:
			if !v.IsNil() {
				spread(v.Elem(), d)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				spread(v.Field(i), d)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				spread(v.Index(i), d)
			}
		case reflect.Slice:
			if v.IsNil() || v.Len() == 0 {
				return
			}
			k := ref{v.UnsafePointer(), v.Type()}
			if seen[k] {
				return
			}
			seen[k] = true
			for i := 0; i < v.Len(); i++ {
				queue = append(queue, item{v.Index(i), d + 1})
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				queue = append(queue, item{it.Value(), d + 1})
			}
		}
	}
	for len(queue) > 0 {
		it := queue[0]
		queue = queue[1:]
		spread(it.v, it.d)
	}
	return deepest
}

// gauge tells how deep the deepest key is.
type gauge struct {
	name    string
	impl    Impl
	cmp     string
	key     func(x uint64) Key
	count   *int64 // comparisons, if they can be counted
	useless int    // pointers before the first entry
}

// counting makes a gauge which counts comparisons of its own.
func (g *gauge) counting(name string) *gauge {
	if g.count == nil {
		return g
	}
	own := *g
	own.cmp, own.count = "count "+name, new(int64)
	n := own.count
	compares[own.cmp] = func(a, b string) int { *n++; return strings.Compare(a, b) }
	return &own
}

func (g *gauge) depth(v Ver, keys []uint64) int {
	if g.count == nil {
		return reach(v) - g.useless
	}
	worst := 0
	for _, x := range keys {
		*g.count = 0
		if g.impl.Get(v, g.key(x)) <= 0 {
			panic(fmt.Sprintf("key %d is lost", x))
		}
		worst = max(worst, int(*g.count))
	}
	return worst
}

func gauges() []*gauge {
	out := []*gauge{}
	for _, impl := range implsOf("str") {
		out = append(out, &gauge{name: impl.Name(), impl: impl, cmp: "count", count: &cmpCount,
			key: func(x uint64) Key { return Key{F: "b", B: b64(x)} }})
		common := bytes.Repeat([]byte{'k'}, 300)
		out = append(out, &gauge{name: impl.Name() + " with long keys", impl: impl, cmp: "count", count: &cmpCount,
			key: func(x uint64) Key { return Key{F: "b", B: append(common[:300:300], b64(x)...)} }})
	}
	for _, impl := range implsOf("label") {
		out = append(out, &gauge{name: impl.Name(), impl: impl,
			key: func(x uint64) Key { return Key{F: "t", B: nibbles(x)} }})
		common := bytes.Repeat([]byte{'k'}, 47)
		out = append(out, &gauge{name: impl.Name() + " with long keys", impl: impl,
			key: func(x uint64) Key { return Key{F: "t", B: append(common[:47:47], nibbles(x)...)} }})
	}
	for _, impl := range implsOf("dom") {
		for _, base := range []string{"", ".com", strings.Repeat(".x", 100)} {
			base := base
			out = append(out, &gauge{name: impl.Name() + " below " + base, impl: impl,
				key: func(x uint64) Key { return Key{F: "t", B: append(nibbles(x), base...)} }})
		}
	}
	for _, g := range out {
		if g.count == nil {
			v := g.impl.Ins(g.impl.New("lex"), g.key(7), 8)
			g.useless = reach(v) - 1
		}
	}
	return out
}

// course is a history with measurements on its way.
type course struct {
	g    *gauge
	v    Ver
	keys []uint64
	ev   []Event
	inp  bool
	n    int
	bad  string
}

func (c *course) ins(x uint64) {
	c.n++
	if c.inp {
		c.v = c.g.impl.Inp(c.v, c.g.key(x), 8)
	} else {
		c.v = c.g.impl.Ins(c.v, c.g.key(x), 8)
	}
	c.keys = append(c.keys, x)
}

func (c *course) del(i int) {
	c.n++
	c.v, _ = c.g.impl.Del(c.v, c.g.key(c.keys[i]))
	c.keys = append(c.keys[:i], c.keys[i+1:]...)
}

func (c *course) measure() {
	c.ev = append(c.ev, Event{"e": "depth", "n": len(c.keys), "d": c.g.depth(c.v, c.keys), "ops": c.n})
}

func orderOf(r *rand.Rand, how string, n int) []uint64 {
	out := make([]uint64, n)
	for i := range out {
		x := i
		switch how {
		case "down":
			x = n - 1 - i
		case "ends":
			x = i / 2
			if i%2 == 1 {
				x = n - 1 - i/2
			}
		case "out":
			x = n/2 + (i+1)/2
			if i%2 == 1 {
				x = n/2 - (i+1)/2
			}
		case "saw":
			x = (i%8)*(n/8+1) + i/8
		}
		out[i] = uint64(x+1) << 20
	}
	if how == "random" {
		r.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

var orders = []string{"up", "down", "ends", "out", "saw", "random"}
var cuts = []string{"left", "right", "random", "shallow", "even", "middle"}

func (c *course) grow(r *rand.Rand, how string, n int) {
	for i, x := range orderOf(r, how, n) {
		c.ins(x)
		if i < 40 || (i+1)&i == 0 || i%499 == 0 {
			c.measure()
		}
	}
	c.measure()
}

func (c *course) shrink(r *rand.Rand, how string) {
	sortKeys(c.keys)
	last := len(c.keys)
	for len(c.keys) > 0 {
		i := 0
		switch how {
		case "right":
			i = len(c.keys) - 1
		case "random":
			i = r.Intn(len(c.keys))
		case "even":
			i = (c.n * 2) % len(c.keys)
		case "middle":
			i = len(c.keys) / 2
		case "shallow":
			// Keys next to the root go first.
			i = r.Intn(len(c.keys))
			if c.g.count != nil {
				best := 1 << 30
				for k := 0; k < 12; k++ {
					j := r.Intn(len(c.keys))
					*c.g.count = 0
					c.g.impl.Get(c.v, c.g.key(c.keys[j]))
					if int(*c.g.count) < best {
						i, best = j, int(*c.g.count)
					}
				}
			}
		}
		c.del(i)
		if len(c.keys) < 40 || len(c.keys) < last*9/10 {
			last = len(c.keys)
			c.measure()
		}
	}
}

func sortKeys(k []uint64) {
	for i := 1; i < len(k); i++ {
		for j := i; j > 0 && k[j] < k[j-1]; j-- {
			k[j], k[j-1] = k[j-1], k[j]
		}
	}
}

// climb looks for a bad history: of several persistent continuations it takes the one with the worst balance.
func (c *course) climb(r *rand.Rand, n, steps, width int) {
	for _, x := range orderOf(r, orders[r.Intn(len(orders))], n) {
		c.ins(x + uint64(r.Intn(1<<19)))
	}
	for s := 0; s < steps; s++ {
		type cand struct {
			v    Ver
			keys []uint64
			d    int
		}
		var best cand
		bestScore := math.Inf(-1)
		for k := 0; k < width; k++ {
			var cd cand
			if len(c.keys) > 2 && (len(c.keys) > n || r.Intn(3) > 0) {
				i := r.Intn(len(c.keys))
				cd.v, _ = c.g.impl.Del(c.v, c.g.key(c.keys[i]))
				cd.keys = append(append([]uint64{}, c.keys[:i]...), c.keys[i+1:]...)
			} else {
				x := c.keys[r.Intn(len(c.keys))] + uint64(r.Intn(1<<16)) - 1<<15
				if containsU(c.keys, x) {
					continue
				}
				cd.v = c.g.impl.Ins(c.v, c.g.key(x), 8)
				cd.keys = append(append([]uint64{}, c.keys...), x)
			}
			cd.d = c.g.depth(cd.v, cd.keys)
			score := float64(cd.d) - 2*math.Log2(float64(len(cd.keys)+1)) + 0.01*r.Float64()
			if score > bestScore {
				best, bestScore = cd, score
			}
		}
		if best.keys == nil {
			continue
		}
		c.n++
		c.v, c.keys = best.v, best.keys
		// Those far below the bound needn't be told all.
		if s%10 == 0 || float64(best.d) > 2*math.Log2(float64(len(c.keys)+1))-1 {
			c.ev = append(c.ev, Event{"e": "depth", "n": len(c.keys), "d": best.d, "ops": c.n})
		}
	}
}

func containsU(s []uint64, x uint64) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// slide keeps a window of moving keys.
func (c *course) slide(r *rand.Rand, n, steps int, back bool) {
	next := uint64(1) << 40
	for i := 0; i < n+steps; i++ {
		c.ins(next)
		if back {
			next -= 1 << 10
		} else {
			next += 1 << 10
		}
		if len(c.keys) > n {
			c.del(0)
			if i%97 == 0 {
				c.measure()
			}
		}
	}
	c.measure()
}

type depthSpec struct {
	N, Rounds, Climbs, Steps int
}

func depths(s depthSpec, seed int64, out, only string) {
	var (
		mu    sync.Mutex
		wg    sync.WaitGroup
		trs   = map[int]map[string]interface{}{}
		sem   = make(chan bool, runtime.NumCPU())
		total int
	)
	job, jobs := 0, []func(){}
	for _, g := range gauges() {
		for k := 0; k < s.Rounds+2+s.Climbs; k++ {
			job++
			name := fmt.Sprintf("%s course %d", g.name, k)
			if only != "" && only != name {
				continue
			}
			g, k, job := g.counting(name), k, job
			wg.Add(1)
			jobs = append(jobs, func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				r := rand.New(rand.NewSource(seed*1009 + int64(job)))
				c := &course{g: g, v: g.impl.New(g.cmp), inp: k%2 == 1}
				progress.at(name)
				n := s.N
				if g.count == nil {
					n /= 3
				}
				note := ""
				bad := guardFor("history", 600, func() {
					switch {
					case k < s.Rounds:
						o, d := orders[(k+job)%len(orders)], cuts[(k/2+job)%len(cuts)]
						note = o + "/" + d
						c.grow(r, o, n)
						c.shrink(r, d)
					case k < s.Rounds+2:
						note = "window"
						c.slide(r, n/4, n, k%2 == 0)
					default:
						note = "climb"
						c.inp = false
						w := 8
						if g.count == nil {
							w = 4
						}
						c.climb(r, 20+r.Intn(60), s.Steps, w)
					}
				})
				if bad != "" {
					c.ev = append(c.ev, Event{"e": "bad", "why": bad, "n": len(c.keys), "ops": c.n})
				}
				mu.Lock()
				defer mu.Unlock()
				trs[job] = map[string]interface{}{"impls": []string{g.name}, "note": note, "ev": c.ev}
				total += c.n
			})
		}
	}
	for _, f := range jobs {
		go f()
	}
	wg.Wait()
	list := []map[string]interface{}{}
	measures := 0
	for i := 1; i <= job; i++ {
		if t, ok := trs[i]; ok {
			list = append(list, t)
			measures += len(t["ev"].([]Event))
		}
	}
	writeJSON(out, list)
	writeJSON(out+".stats", map[string]interface{}{"courses": len(list), "operations": total, "measurements": measures})
}
