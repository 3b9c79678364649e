package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
)

// schedSpec is a file with schedules printed by model Schedules.
type schedSpec struct{ File string }

// Keys 1 < 2 < 3 of schedules for every kind of tree.
func schedKeys(kind string) [][3]Key {
	b := func(s string) Key { return Key{F: "b", B: []byte(s)} }
	t := func(s string) Key { return Key{F: "t", B: []byte(s)} }
	n := func(size int, bits int, s ...byte) Key {
		x := make([]byte, size)
		copy(x, s)
		return Key{F: "n", B: x, N: bits}
	}
	i := func(size int, bits int, s ...byte) Key {
		x := make([]byte, size)
		copy(x, s)
		return Key{F: "i", B: x, M: cidr(bits, 8*size)}
	}
	switch kind {
	case "str":
		return [][3]Key{{b("a"), b("b"), b("c")}, {b(""), b("\x00"), b("\xff")}}
	case "label":
		return [][3]Key{{t("a"), t("b"), t("aa")}, {b("\x00"), t("\\."), t("z")}}
	case "radix32":
		return [][3]Key{{n(4, 8, 10), n(4, 16, 10, 1), n(4, 8, 11)}, {n(4, 0), n(4, 1), n(4, 32, 255, 255)}, {n(4, 8, 1), n(4, 8, 2), n(4, 16, 2)}}
	case "radix64":
		return [][3]Key{{n(8, 8, 10), n(8, 16, 10, 1), n(8, 8, 11)}, {n(8, 0), n(8, 1), n(8, 64, 255, 255)}, {n(8, 8, 1), n(8, 8, 2), n(8, 16, 2)}}
	case "ip":
		return [][3]Key{
			{i(4, 8, 10), i(4, 16, 10, 1), i(4, 8, 11)},
			{i(4, 8, 10), i(16, 32, 1), i(16, 80, 1)},
			{i(16, 64, 1, 2), i(16, 65, 1, 2), i(16, 64, 1, 3)},
			{i(16, 80, 1, 2), i(16, 81, 1, 2), i(16, 128, 1, 3)},
			{i(4, 0), i(4, 32, 1, 2, 3, 4), i(16, 0)},
		}
	case "dom":
		return [][3]Key{{t("com"), t("a.com"), t("b.com")}, {t(""), t("x"), t("c.b.a.x")}, {t("a"), t("b.c"), t("d.e.f")},
			{t("p.q"), t("r.p.q"), t("s.r.p.q")}}
	}
	panic("harness: kind " + kind)
}

// schedules carries every schedule out on every tree.
func schedules(sp schedSpec, out, only string) {
	f, err := os.Open(sp.File)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	type step struct {
		op      string
		a, b, c int
	}
	var all [][]step
	var raws []string
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := sc.Text()
		if strings.HasPrefix(line, "\"") {
			if err := json.Unmarshal([]byte(line), &line); err != nil {
				panic(err)
			}
		}
		if !strings.HasPrefix(line, "@w ") {
			continue
		}
		var raw [][]interface{}
		if err := json.Unmarshal([]byte(line[3:]), &raw); err != nil {
			panic(err)
		}
		steps := []step{}
		for _, x := range raw {
			steps = append(steps, step{x[0].(string), int(x[1].(float64)), int(x[2].(float64)), int(x[3].(float64))})
		}
		all = append(all, steps)
		raws = append(raws, line[3:])
	}
	type badT struct {
		Impl     string `json:"impl"`
		Keys     string `json:"keys"`
		Schedule string `json:"schedule"`
		Step     int    `json:"step"`
		What     string `json:"what"`
	}
	bad := []badT{}
	runs := 0
	for _, kind := range []string{"str", "label", "radix32", "radix64", "ip", "dom"} {
		for _, impl := range implsOf(kind) {
			for _, keys := range schedKeys(kind) {
				for w, steps := range all {
					where := fmt.Sprintf("%s/%d", impl.Name(), w)
					if only != "" && only != where || tired() {
						continue
					}
					progress.at(where)
					at := 0
					what := ""
					base := runtime.NumGoroutine()
					panicked := guard("schedule", func() {
						ver := []Ver{nil, impl.Ins(impl.Ins(impl.New("lex"), keys[0], 1), keys[2], 3)}
						next := map[int]func() (Item, bool){}
						for i, s := range steps {
							at = i + 1
							switch s.op {
							case "open":
								next[s.a] = impl.Open(ver[s.b], w)
							case "ins":
								ver = append(ver, impl.Ins(ver[s.a], keys[s.b-1], s.b))
							case "del":
								// Deletion which takes away nested entries too isn't what schedules are about.
								v, ok := delOne(impl, ver[s.a], keys, s.b)
								if !ok {
									what = "entry isn't deleted"
									return
								}
								ver = append(ver, v)
							case "next":
								it, ok := next[s.a]()
								switch {
								case ok && s.b == 0:
									what = fmt.Sprintf("stream %d gives one more entry %v", s.a, it)
								case !ok && s.b > 0:
									what = fmt.Sprintf("stream %d ends without entry %d", s.a, s.b)
								case ok && it.V != s.b:
									what = fmt.Sprintf("stream %d gives %v instead of entry %d", s.a, it, s.b)
								}
								if what != "" {
									return
								}
							}
						}
					})
					if panicked != "" {
						what = panicked
					} else if what == "" {
						if n := leftover(base); n > 0 {
							what = fmt.Sprintf("%d goroutines are left", n)
						}
					}
					runs++
					if what != "" {
						bad = append(bad, badT{impl.Name(), fmt.Sprint(keys), raws[w], at, what})
						if len(bad) > 20 {
							writeJSON(out, map[string]interface{}{"bad": bad, "runs": runs, "schedules": len(all)})
							return
						}
					}
				}
			}
		}
	}
	writeJSON(out, map[string]interface{}{"bad": bad, "runs": runs, "schedules": len(all)})
}

// delOne removes exactly entry k: kinds where removal takes away nested entries get them back.
func delOne(impl Impl, v Ver, keys [3]Key, k int) (Ver, bool) {
	had := [4]bool{}
	next := impl.Open(v, 0)
	for {
		it, ok := next()
		if !ok {
			break
		}
		if it.V > 0 && it.V < 4 {
			had[it.V] = true
		}
	}
	d, ok := impl.Del(v, keys[k-1])
	for j := 1; j <= 3; j++ {
		if had[j] && j != k {
			d = impl.Ins(d, keys[j-1], j)
		}
	}
	return d, ok
}
