package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, c := range b {
		out[i] = int(c)
	}
	return out
}

// MarshalJSON writes a key the way the specification reads it.
func (k Key) MarshalJSON() ([]byte, error) {
	n := k.N
	// TLC works with 32-bit numbers.
	if n > 1<<20 {
		n = 1 << 20
	} else if n < -(1 << 20) {
		n = -(1 << 20)
	}
	return json.Marshal(map[string]interface{}{"f": k.F, "b": ints(k.B), "n": n, "m": ints(k.M)})
}

// Event is a record of a step.
type Event map[string]interface{}

// Trace is a recorded history.
type Trace struct {
	Impls []string `json:"impls"`
	Kind  string   `json:"kind"`
	Cmp   string   `json:"cmp"`
	Note  string   `json:"note"`
	Keys  []Key    `json:"keys"`
	Outs  []Key    `json:"outs"`
	Ev    []Event  `json:"ev"`

	outIdx map[string]int
}

func (t *Trace) out(k Key) int {
	id := k.id()
	i, ok := t.outIdx[id]
	if !ok {
		t.Outs = append(t.Outs, Key{F: k.F, B: cloneBytes(k.B), N: k.N, M: cloneBytes(k.M)})
		i = len(t.Outs)
		t.outIdx[id] = i
	}
	return i
}

const maxItems = 100000

// runScript executes a history on an implementation and records what it answers.
func runScript(sc Script, impl Impl, nslots int) *Trace {
	tr := newTrace(sc, impl)
	runOps(tr, sc, impl, make([]Ver, nslots+1))
	return tr
}

func newTrace(sc Script, impl Impl) *Trace {
	return &Trace{Impls: []string{impl.Name()}, Kind: sc.Kind, Cmp: sc.Cmp, Note: sc.Note, Keys: sc.Keys,
		Outs: []Key{}, Ev: []Event{}, outIdx: map[string]int{}}
}

// runOps carries steps out on given versions and adds them to the trace; it stops at the first failure.
func runOps(tr *Trace, sc Script, impl Impl, vers []Ver) bool {
	next := make([]func() (Item, bool), 7)
	base := runtime.NumGoroutine()
	if keeping {
		tokens = nil
	}
	for n, op := range sc.Ops {
		progress.step(n, op)
		ev := Event{"e": op.E}
		bad := guard(op.E, func() {
			switch op.E {
			case "new":
				ev["d"] = op.D
				vers[op.D] = impl.New(sc.Cmp)
			case "nil":
				ev["d"] = op.D
				vers[op.D] = impl.Nil()
			case "drop":
				ev["s"] = op.S
				vers[op.S] = nil
			case "ins":
				ev["s"], ev["d"], ev["k"], ev["v"] = op.S, op.D, op.K+1, op.V
				vers[op.D] = impl.Ins(vers[op.S], sc.Keys[op.K], op.V)
			case "inp":
				ev["s"], ev["k"], ev["v"] = op.S, op.K+1, op.V
				vers[op.S] = impl.Inp(vers[op.S], sc.Keys[op.K], op.V)
			case "del":
				v, ok := impl.Del(vers[op.S], sc.Keys[op.K])
				ev["s"], ev["d"], ev["k"], ev["r"] = op.S, op.D, op.K+1, ok
				vers[op.D] = v
			case "dsub":
				v, ok := impl.DelSub(vers[op.S], sc.Keys[op.K])
				ev["s"], ev["d"], ev["k"], ev["r"] = op.S, op.D, op.K+1, ok
				vers[op.D] = v
			case "foc":
				f := impl.(focuser)
				if op.X == 0 {
					ev["s"], ev["d"], ev["k"], ev["o"] = op.S, op.D, op.K+1, 0
					vers[op.D] = f.Focus(vers[op.S], sc.Keys[op.K])
				} else {
					v, k := f.Child(vers[op.S], op.X)
					ev["s"], ev["d"], ev["k"], ev["o"] = op.S, op.D, 0, 0
					if k != nil {
						ev["o"] = tr.out(*k)
					}
					vers[op.D] = v
				}
			case "upd":
				x := op.X
				calls := impl.Update(vers[op.S], sc.Keys[op.K], func(n int) int {
					if x>>uint(n%16)&1 == 0 {
						return 0
					}
					if (x>>3+n)%3 == 0 {
						return 1 + (x+n)%6
					}
					return 1 + (x+n)%(maxVal-1)
				})
				c := [][]int{}
				for _, call := range calls {
					c = append(c, []int{tr.out(call.K), call.Old, call.New})
				}
				ev["s"], ev["k"], ev["c"] = op.S, op.K+1, c
			case "look", "lookx":
				q := [][]int{}
				for _, k := range op.Q {
					if op.E == "look" {
						q = append(q, []int{k + 1, impl.Get(vers[op.S], sc.Keys[k])})
					} else {
						q = append(q, []int{k + 1, impl.GetExact(vers[op.S], sc.Keys[k])})
					}
				}
				ev["s"], ev["q"] = op.S, q
			case "enum":
				ev["s"] = op.S
				ev["p"] = tr.list(impl.Open(vers[op.S], op.X))
			case "dot":
				ev["s"] = op.S
				tr.dotEvent(impl, vers[op.S], ev)
			case "many":
				ev["s"], ev["ps"] = op.S, tr.many(impl, vers[op.S], op.X)
			case "open":
				ev["s"], ev["i"] = op.S, op.I
				next[op.I] = impl.Open(vers[op.S], op.X)
			case "next":
				it, ok := next[op.I]()
				ev["i"] = op.I
				if ok {
					ev["p"] = []int{tr.out(it.K), it.V}
				} else {
					ev["e"] = "over"
				}
			case "idle":
				// There are goroutines of the guard and those which were here before.
				ev["x"] = leftover(base + 1)
			case "kept":
				ev["v"] = kept(base + 1)
			case "empty":
				ev["s"], ev["r"] = op.S, impl.Empty(vers[op.S])
			case "tri":
				ns := [][]int{}
				for _, x := range impl.(triImpl).Tri(vers[op.S]) {
					leaf := 0
					if x.Leaf {
						leaf = 1
					}
					ns = append(ns, []int{tr.out(x.K), leaf, x.V, x.C[0] + 1, x.C[1] + 1})
				}
				ev["s"], ev["n"] = op.S, ns
			default:
				panic("harness: operation " + op.E)
			}
		})
		if bad != "" {
			tr.Ev = append(tr.Ev, Event{"e": "bad", "op": op.E, "s": op.S, "k": op.K + 1, "why": bad})
			return false
		}
		tr.Ev = append(tr.Ev, ev)
	}
	return true
}

// leftover waits until no more than base goroutines are left and returns number of those which don't go away.
func leftover(base int) int {
	n := 0
	for i := 0; i < 3000; i++ {
		n = runtime.NumGoroutine() - base
		if n <= 0 {
			return 0
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	atomic.AddInt32(&hangs, 1)
	return n
}

func (t *Trace) list(next func() (Item, bool)) [][]int {
	p := [][]int{}
	for {
		it, ok := next()
		if !ok {
			return p
		}
		p = append(p, []int{t.out(it.K), it.V})
		if len(p) > maxItems {
			panic("enumeration has no end")
		}
	}
}

// many opens n enumerations at once and goes through all of them, in turns or by as many goroutines;
// it gives different listings.
func (t *Trace) many(impl Impl, v Ver, n int) [][][]int {
	next := make([]func() (Item, bool), n)
	for i := range next {
		next[i] = impl.Open(v, i)
	}
	got := make([][]Item, n)
	if n%2 == 0 {
		for more := true; more; {
			more = false
			for i, f := range next {
				if f == nil {
					continue
				}
				it, ok := f()
				if !ok {
					next[i] = nil
					continue
				}
				more = true
				if got[i] = append(got[i], it); len(got[i]) > maxItems {
					panic("enumeration has no end")
				}
			}
		}
	} else {
		var wg sync.WaitGroup
		for i, f := range next {
			wg.Add(1)
			go func(i int, f func() (Item, bool)) {
				defer wg.Done()
				for it, ok := f(); ok && len(got[i]) < maxItems; it, ok = f() {
					got[i] = append(got[i], it)
				}
			}(i, f)
		}
		wg.Wait()
	}
	ps, seen := [][][]int{}, map[string]bool{}
	for _, items := range got {
		p := [][]int{}
		for _, it := range items {
			p = append(p, []int{t.out(it.K), it.V})
		}
		if s := fmt.Sprint(p); !seen[s] {
			seen[s] = true
			ps = append(ps, p)
		}
	}
	return ps
}

// progressFile tells what was being executed if the process dies.
type progressFile struct {
	f     *os.File
	where string
	deep  bool
}

var progress progressFile

func (p *progressFile) open(name string) {
	if name == "" {
		return
	}
	f, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	p.f = f
	p.deep = os.Getenv("VH_DEEP") != ""
}

func (p *progressFile) at(where string) {
	p.where = where
	if p.f != nil {
		p.write(where)
	}
}

func (p *progressFile) step(n int, op Op) {
	if p.deep && p.f != nil {
		p.write(fmt.Sprintf("%s step %d %+v", p.where, n, op))
	}
}

func (p *progressFile) stepf(where, f string, args ...interface{}) {
	if p.deep && p.f != nil {
		p.write(where + " step " + fmt.Sprintf(f, args...))
	}
}

func (p *progressFile) write(s string) {
	b := make([]byte, 512)
	for i := range b {
		b[i] = ' '
	}
	copy(b, s)
	p.f.WriteAt(b, 0)
}
