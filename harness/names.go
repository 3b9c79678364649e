package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"github.com/infobloxopen/go-trees/domain"
)

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, domain.ErrInvalidEscape):
		return "escape"
	case errors.Is(err, domain.ErrEmptyLabel):
		return "empty"
	case errors.Is(err, domain.ErrTooManyLabels):
		return "labels"
	case errors.Is(err, domain.ErrLabelTooLong):
		return "long"
	case errors.Is(err, domain.ErrNameTooLong):
		return "name"
	}
	return "other"
}

func labelsOf(n domain.Name) [][]int {
	out := [][]int{}
	if err := n.GetLabels(func(s string) error {
		out = append(out, ints([]byte(s)))
		if len(out) > 1000 {
			return errors.New("too many")
		}
		return nil
	}); err != nil {
		out = append(out, []int{-1})
	}
	return out
}

func badEvent(what string, x []byte, why string) Event {
	return Event{"e": "bad", "op": what, "x": ints(x), "why": why}
}

func nameEvent(x []byte) Event {
	if tired() {
		return nil
	}
	ev := Event{"e": "name", "x": ints(x), "labels": [][]int{}}
	if bad := guard("MakeNameFromString", func() {
		n, err := domain.MakeNameFromString(string(x))
		ev["err"] = errKind(err)
		if err == nil {
			ev["labels"] = labelsOf(n)
		}
	}); bad != "" {
		return badEvent("MakeNameFromString", x, bad)
	}
	return ev
}

// innerDot tells about texts which MakeLabel isn't for.
func innerDot(x []byte) bool {
	for i := 0; i+1 < len(x); i++ {
		switch x[i] {
		case '\\':
			i++
			if i+2 < len(x) && x[i] >= '0' && x[i] <= '9' {
				i += 2
			}
		case '.':
			return true
		}
	}
	return false
}

func labelEvent(x []byte) Event {
	if tired() {
		return nil
	}
	ev := Event{"e": "label", "x": ints(x), "y": []int{}}
	if bad := guard("MakeLabel", func() {
		y, err := domain.MakeLabel(string(x))
		ev["err"] = errKind(err)
		if err == nil {
			ev["y"] = ints([]byte(y))
		}
	}); bad != "" {
		return badEvent("MakeLabel", x, bad)
	}
	return ev
}

func humanEvent(x []byte) Event {
	if tired() {
		return nil
	}
	ev := Event{"e": "human", "x": ints(x), "z": []int{}}
	if bad := guard("MakeHumanReadableLabel", func() {
		y := domain.MakeHumanReadableLabel(string(x))
		ev["y"] = ints([]byte(y))
		z, err := domain.MakeLabel(y)
		ev["err"] = errKind(err)
		if err == nil {
			ev["z"] = ints([]byte(z))
		}
	}); bad != "" {
		return badEvent("MakeHumanReadableLabel", x, bad)
	}
	return ev
}

func calmEvent(x []byte) Event {
	if bad := guard("MakeHumanReadableLabel", func() { domain.MakeHumanReadableLabel(string(x)) }); bad != "" {
		return badEvent("MakeHumanReadableLabel", x, bad)
	}
	return Event{"e": "calm"}
}

var errStop = errors.New("stop")

func walkEvent(x []byte) (ev Event) {
	if tired() {
		return nil
	}
	ev = Event{"e": "walk", "x": ints(x)}
	if bad := guard("accessors", func() {
		n, err := domain.MakeNameFromString(string(x))
		if err != nil {
			// Whether it has to be is another property.
			t := string(x)
			ev = Event{"e": "wrap", "x": ints(x), "panics": []bool{refuses(t), refuses(&t)}}
			return
		}
		ev["str"] = ints([]byte(n.String()))
		ls := labelsOf(n)
		ev["labels"] = ls
		chain := [][]interface{}{}
		outs := [][]int{}
		off := 0
		end := 0
		for {
			s, next := n.GetLabel(off)
			chain = append(chain, []interface{}{off, ints([]byte(s)), next})
			end += len(s) + 1
			if next <= 0 || len(chain) > 300 {
				break
			}
			off = next
		}
		for _, l := range ls {
			end = max(end, len(l)+1)
		}
		for _, o := range []int{-1, -2, -64, -256, -1 << 31, end, end + 1, end - 1, end + 63, 255, 256, 257, 1 << 16, math.MaxInt32} {
			_, r := n.GetLabel(o)
			outs = append(outs, []int{o, r})
		}
		for _, o := range []int{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1} {
			_, r := n.GetLabel(o)
			// TLC has no such numbers.
			o = math.MaxInt32 - o&1
			outs = append(outs, []int{o, r})
		}
		// Offsets in the middle of labels mean nothing, still there has to be an answer.
		for o := 0; o < end; o++ {
			n.GetLabel(o)
		}
		stops := [][]interface{}{}
		for k := 1; k <= len(ls)+1; k++ {
			if k > 6 && k < len(ls)-1 {
				continue
			}
			calls, stop := 0, stopErrors[(k+len(x))%len(stopErrors)]
			err := n.GetLabels(func(string) error {
				calls++
				if calls == k {
					return stop
				}
				// Whoever is called may well look at the name himself.
				inner := 0
				if err := n.GetLabels(func(string) error { inner++; return nil }); err != nil || inner != len(ls) {
					calls = 1000
				}
				return nil
			})
			if err != nil && !sameError(err, stop) {
				calls = -1
			}
			stops = append(stops, []interface{}{k, calls, sameError(err, stop)})
		}
		refl := [][]interface{}{}
		s := string(x)
		type field struct {
			N domain.Name
			P *domain.Name
			S string
		}
		f := field{n, &n, s}
		fv := reflect.ValueOf(&f).Elem()
		for _, v := range []reflect.Value{reflect.ValueOf(n), reflect.ValueOf(&n), reflect.ValueOf(s), reflect.ValueOf(&s),
			fv.Field(0), fv.Field(1), fv.Field(2)} {
			m := domain.MakeNameFromReflection(v)
			refl = append(refl, []interface{}{labelsOf(m), ints([]byte(m.String()))})
		}
		ev["chain"], ev["outs"], ev["stops"], ev["refl"] = chain, outs, stops, refl
	}); bad != "" {
		return badEvent("accessors", x, bad)
	}
	return ev
}

// Errors of callbacks: none of them means anything to the code under test.
type sliceError []string

func (e sliceError) Error() string { return "slice" }

type pointerError struct{}

func (e *pointerError) Error() string { return "pointer" }

var stopErrors = []error{errStop, io.EOF, fmt.Errorf("wrapped: %w", io.EOF), sliceError{"a"}, (*pointerError)(nil), domain.ErrEmptyLabel,
	errors.New("stop iterations"), domain.ErrNameTooLong, context.Canceled, errors.New("")}

func sameError(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, ok := a.(sliceError); ok {
		y, ok := b.(sliceError)
		return ok && len(x) > 0 && len(y) > 0 && &x[0] == &y[0]
	}
	if _, ok := b.(sliceError); ok {
		return false
	}
	return a == b
}

// refuses tells if MakeNameFromReflection panics.
func refuses(v interface{}) (yes bool) {
	defer func() { yes = recover() != nil }()
	domain.MakeNameFromReflection(reflect.ValueOf(v))
	return
}

// alienEvent is about values which don't wrap anything a name could be made of.
func alienEvent() Event {
	x, l := 1, []string{"a"}
	var (
		noName *domain.Name
		noText *string
	)
	p := &noName
	panics := []bool{}
	for _, v := range []interface{}{0, 1.5, false, nil, []byte("a"), l, &l, &x, struct{ A string }{"a"}, map[string]string{"a": "b"},
		[]domain.Name{{}}, func() string { return "a" }, noName, noText, p, [1]string{"a"}, errStop} {
		panics = append(panics, refuses(v))
	}
	return Event{"e": "alien", "panics": panics}
}

// ---------------------------------------------------------------- texts

func joinDots(ls [][]byte) []byte {
	out := []byte{}
	for i, l := range ls {
		if i > 0 {
			out = append(out, '.')
		}
		out = append(out, l...)
	}
	return out
}

func spelled(r *rand.Rand, ls [][]byte) []byte {
	s := make([][]byte, len(ls))
	for i := range ls {
		s[i] = spell(r, ls[i])
	}
	return joinDots(s)
}

func randLabel(r *rand.Rand, n int) []byte {
	switch r.Intn(4) {
	case 0:
		return upBytes(randBytes(r, n, ""))
	case 1:
		return randBytes(r, n, "A.\\0\x00\x20\x7f\xff")
	}
	return randBytes(r, n, "ABYZ09-_")
}

// sizes makes sizes of labels which take so many bytes together with their lengths.
func sizes(r *rand.Rand, total int) []int {
	out := []int{}
	for total > 0 {
		n := 1 + r.Intn(63)
		if n+1 > total || r.Intn(5) == 0 {
			n = total - 1
		}
		if n > 63 {
			n = 63
		}
		if total-n-1 == 1 {
			n--
			if n < 1 {
				n = 1
			}
		}
		if n < 1 {
			break
		}
		out = append(out, n)
		total -= n + 1
	}
	return out
}

func corpus(r *rand.Rand, n int) [][]byte {
	out := [][]byte{}
	add := func(b []byte) { out = append(out, b) }
	for _, s := range []string{"", ".", "..", "a.", ".a", "a..b", "a.b..", "\\", "\\.", "a\\", "a.\\", "\\1", "\\12", "\\123", "\\1.", "\\12.",
		"\\256", "\\255", "\\260", "\\300", "\\999", "\\25a", "\\2a5", "\\a", "a.b.c.", "a.b.c", "\\046", "\\046.", "\\046\\046", ".\\046",
		"\\..", "\\...", "a\\..b", "a\\.b", "\\\\", "\\\\.", "\\\\\\", "..a", "A.b.C", "\\097\\065", "\\000", "\\\x00", "\\-1", "\\+12", "\\0x1",
		"\\ 12", "\\12 ", "xn--a.b", "\xff.\xfe", "é.à", "*.a", "_a._b"} {
		add([]byte(s))
	}
	// Labels about the limit.
	for _, size := range []int{1, 31, 61, 62, 63, 64, 65, 66, 127, 128, 200, 255, 256, 1000} {
		for k := 0; k < 6; k++ {
			l := spell(r, randLabel(r, size))
			add(l)
			add(append(cloneBytes(l), '.'))
			add(append(append(cloneBytes(l), '.'), spell(r, randLabel(r, 1+r.Intn(64)))...))
			add(append(append(spell(r, randLabel(r, 1+r.Intn(64))), '.'), l...))
		}
	}
	// Many labels.
	for _, m := range []int{1, 2, 125, 126, 127, 128, 129, 200, 254, 255, 256, 300} {
		for k := 0; k < 3; k++ {
			ls := make([][]byte, m)
			for i := range ls {
				ls[i] = randLabel(r, 1)
			}
			x := spelled(r, ls)
			add(x)
			add(append(cloneBytes(x), '.'))
			if k == 0 {
				ls[r.Intn(m)] = randLabel(r, 2)
				add(spelled(r, ls))
			}
		}
	}
	// Names about the limit.
	for total := 248; total < 262; total++ {
		for k := 0; k < 6; k++ {
			ls := [][]byte{}
			for _, n := range sizes(r, total) {
				ls = append(ls, randLabel(r, n))
			}
			x := spelled(r, ls)
			add(x)
			if k == 0 {
				add(append(cloneBytes(x), '.'))
			}
		}
	}
	for len(out) < n {
		ls := [][]byte{}
		m := 1 + r.Intn(5)
		for i := 0; i < m; i++ {
			ls = append(ls, randLabel(r, 1+r.Intn(1+r.Intn(30))))
		}
		x := spelled(r, ls)
		// Something is spoilt in the half of them.
		if len(x) > 0 && r.Intn(2) == 0 {
			for k := 1 + r.Intn(2); k > 0; k-- {
				i := r.Intn(len(x))
				switch r.Intn(3) {
				case 0:
					x = append(x[:i:i], x[min(len(x), i+1):]...)
				case 1:
					x = append(append(x[:i:i], "\\.0259a"[r.Intn(7)]), x[i:]...)
				default:
					x[i] = "\\.0259a\xff"[r.Intn(8)]
				}
				if len(x) == 0 {
					break
				}
			}
		}
		add(x)
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type nameSpec struct {
	N     int
	Parts []string
	File  string
}

func names(s nameSpec, seed int64, out string) {
	r := rand.New(rand.NewSource(seed*77 + 5))
	evs := []Event{}
	progress.at("names")
	add := func(e Event) {
		if e != nil {
			evs = append(evs, e)
		}
	}
	if contains(s.Parts, "name") {
		for _, x := range corpus(r, s.N) {
			add(nameEvent(x))
		}
		// Every byte as it is, behind a backslash, and every escape of three digits.
		for c := 0; c < 256; c++ {
			add(nameEvent([]byte{byte(c)}))
			add(nameEvent([]byte{'\\', byte(c)}))
			add(nameEvent([]byte{'\\', byte(c), '0', '1'}))
			add(nameEvent([]byte{'\\', '1', byte(c), '1'}))
			add(nameEvent([]byte{'\\', '1', '1', byte(c)}))
		}
		for c := 0; c < 1000; c++ {
			add(nameEvent([]byte(fmt.Sprintf("a\\%03d.", c))))
		}
		for _, n := range []int{1 << 10, 1 << 12} {
			add(nameEvent([]byte(strings.Repeat("a", n))))
			add(nameEvent([]byte(strings.Repeat("a.", n/2))))
			add(nameEvent([]byte(strings.Repeat(".", n))))
			add(nameEvent([]byte(strings.Repeat("\\", n))))
			add(nameEvent([]byte(strings.Repeat("\\097", n/4))))
			add(nameEvent(randBytes(r, n, "")))
		}
	}
	if contains(s.Parts, "label") {
		for _, x := range corpus(r, s.N) {
			if !innerDot(x) {
				add(labelEvent(x))
			}
		}
		for c := 0; c < 256; c++ {
			b := byte(c)
			for _, x := range [][]byte{{b}, {'\\', b}, {'\\', b, '0', '1'}, {'\\', '1', b, '1'}, {'\\', '1', '1', b}, {b, '.'}, {'.', b}, {'\\', b, '.'}} {
				if !innerDot(x) {
					add(labelEvent(x))
				}
			}
			for _, n := range []int{1, 2, 62, 63} {
				x := []byte(strings.Repeat(string([]byte{b}), n))
				add(humanEvent(upBytes(x)))
			}
			add(calmEvent([]byte(strings.Repeat(string([]byte{b}), 64))))
			add(calmEvent([]byte(strings.Repeat(string([]byte{b}), 251+c%10))))
		}
		for c := 0; c < 1000; c++ {
			add(labelEvent([]byte(fmt.Sprintf("\\%03d", c))))
		}
		for i := 0; i < s.N; i++ {
			n := r.Intn(64)
			if r.Intn(3) == 0 {
				n = 60 + r.Intn(4)
			}
			add(humanEvent(randLabel(r, n)))
			add(calmEvent(randBytes(r, r.Intn(600), []string{"", "A", "a.", "Z\\\xff"}[r.Intn(4)])))
			// Every spelling of a label is the same label.
			l := randLabel(r, n)
			for k := 0; k < 3; k++ {
				add(labelEvent(spell(r, l)))
			}
		}
	}
	if contains(s.Parts, "walk") {
		add(alienEvent())
		for _, x := range corpus(r, s.N) {
			add(walkEvent(x))
		}
	}
	trs := []map[string]interface{}{}
	const chunk = 200
	for i := 0; i < len(evs); i += chunk {
		j := min(len(evs), i+chunk)
		trs = append(trs, map[string]interface{}{"impls": []string{"domain"}, "note": fmt.Sprintf("events %d-%d", i+1, j), "ev": evs[i:j]})
	}
	writeJSON(out, trs)
	writeJSON(out+".stats", map[string]interface{}{"events": len(evs)})
}

// texts replays meanings of texts printed by NameParser.
func texts(s nameSpec, out string) {
	f, err := os.Open(s.File)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	bads := []map[string]interface{}{}
	n := 0
	progress.at("texts")
	same := func(a [][]byte, b interface{}) bool {
		x := [][]int{}
		for _, l := range a {
			x = append(x, ints(l))
		}
		p, _ := json.Marshal(x)
		q, _ := json.Marshal(b)
		return string(p) == string(q)
	}
	for sc.Scan() && len(bads) < 20 {
		var line string
		must(json.Unmarshal(sc.Bytes(), &line))
		var a []json.RawMessage
		must(json.Unmarshal([]byte(line[2:]), &a))
		var (
			x      []int
			errs   []string
			labels [][]int
			kinds  []string
			lb     []int
		)
		must(json.Unmarshal(a[0], &x))
		must(json.Unmarshal(a[1], &errs))
		must(json.Unmarshal(a[2], &labels))
		must(json.Unmarshal(a[3], &kinds))
		must(json.Unmarshal(a[4], &lb))
		text := unInts(x)
		want := [][]byte{}
		for _, l := range labels {
			want = append(want, unInts(l))
		}
		n++
		fail := func(what string, got interface{}) {
			bads = append(bads, map[string]interface{}{"text": string(text), "bytes": x, "what": what, "got": got,
				"errors": errs, "labels": labels, "label": lb, "label_outcome": kinds})
		}
		if contains(s.Parts, "name") {
			e := nameEvent(text)
			switch {
			case e == nil: // enough
			case e["e"] == "bad":
				fail(e["why"].(string), nil)
			case len(errs) > 0 && !contains(errs, e["err"].(string)):
				fail("name isn't rejected as it has to be", e)
			case len(errs) == 0 && (e["err"] != "" || !same(want, e["labels"])):
				fail("name isn't what the text means", e)
			}
		}
		if contains(s.Parts, "label") && !contains(kinds, "dot") {
			e := labelEvent(text)
			switch {
			case e == nil: // enough
			case e["e"] == "bad":
				fail(e["why"].(string), nil)
			case contains(kinds, "ok") && (e["err"] != "" || !same([][]byte{unInts(lb)}, [][]int{e["y"].([]int)})):
				fail("label isn't what the text means", e)
			case !contains(kinds, "ok") && !contains(kinds, e["err"].(string)):
				fail("label isn't rejected as it has to be", e)
			}
		}
	}
	must(sc.Err())
	writeJSON(out, map[string]interface{}{"bad": bads, "texts": n})
}

func unInts(x []int) []byte {
	b := make([]byte, len(x))
	for i, c := range x {
		b[i] = byte(c)
	}
	return b
}
