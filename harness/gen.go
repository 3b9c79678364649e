package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// Op is a step of a history; history doesn't depend on what the code under test answers.
type Op struct {
	E    string
	S, D int
	K, V int
	Q    []int // keys to look up
	X    int   // enumeration variant or seed of update choices
	I    int   // enumeration in progress
}

// Script is a history to run on every implementation of a kind.
type Script struct {
	Kind string
	Cmp  string
	Keys []Key
	Ops  []Op
	Note string
}

// Profile tells what histories have to be like.
type Profile struct {
	Slots      int
	Ops        int
	Keys       int
	Ins        int // weights of operations
	Inp        int
	Del        int
	DelSub     int
	Upd        int
	Foc        int
	Drop       int
	Nil        int
	Same       int     // percent of operations which replace their source
	Enum       float64 // probability of an enumeration after an operation
	Tri        float64
	Dot        float64
	Many       float64 // probability of a lot of enumerations at once
	Kept       float64 // probability of looking at memory
	Look       int     // number of lookups after an operation
	Bad        int     // percent of bad keys (networks)
	Burst      bool
	Streams    int // number of enumerations in progress
	Open, Next int // weights of operations
	SmallAlpha bool
	NoEnd      bool // without a look at everything at the end
}

type slot struct {
	live     bool
	grp      int
	maybeNil bool
	isNil    bool // for sure
}

func pick(r *rand.Rand, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := r.Intn(sum)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

func genScript(r *rand.Rand, kind, cmp string, p Profile) Script {
	return genScriptFor(r, kind, cmp, p, genKeys(r, kind, p), nil)
}

// genScriptFor makes a history with given keys which starts from some versions (in slots base) it has to share
// with others: they are never replaced, dropped or changed in place.
func genScriptFor(r *rand.Rand, kind, cmp string, p Profile, keys []Key, base []int) Script {
	sc := Script{Kind: kind, Cmp: cmp, Keys: keys}
	slots := make([]slot, p.Slots+1)
	ngrp := 0
	shared := func(s int) bool {
		for _, b := range base {
			if b == s {
				return true
			}
		}
		return false
	}
	own := []int{}
	for s := 1; s <= p.Slots; s++ {
		if !shared(s) {
			own = append(own, s)
		} else {
			// Nobody knows which of shared versions have cells in common.
			slots[s] = slot{true, 0, true, false}
		}
	}
	vid, ids := r.Intn(maxVal), maxVal
	if p.Kept > 0 {
		ids-- // The last one is offered by updates and never stored.
	}
	value := func() int {
		if p.Kept == 0 && r.Intn(7) == 0 {
			// nil, zero, maximum and so on.
			return 1 + r.Intn(6)
		}
		vid = vid%ids + 1
		return vid
	}
	radix := strings.HasPrefix(kind, "radix")
	dom := kind == "dom"

	live := func() []int {
		out := []int{}
		for i := 1; i <= p.Slots; i++ {
			if slots[i].live {
				out = append(out, i)
			}
		}
		return out
	}
	type opened struct{ grp, left int } // left: steps after which the end is certain to be seen
	streams := make([]opened, p.Streams+1)
	exclusive := func(s int) bool {
		for _, x := range streams {
			if x.left > 0 && x.grp == slots[s].grp {
				return false
			}
		}
		for i := 1; i <= p.Slots; i++ {
			if i != s && slots[i].live && slots[i].grp == slots[s].grp || shared(s) {
				return false
			}
		}
		return !slots[s].maybeNil || radix
	}
	someKeys := func(n, must int) []int {
		out := []int{}
		if must >= 0 {
			out = append(out, must)
		}
		for len(out) < n {
			out = append(out, r.Intn(len(keys)))
		}
		return out
	}
	observe := func(s, must int) {
		if p.Look > 0 {
			sc.Ops = append(sc.Ops, Op{E: "look", S: s, Q: someKeys(p.Look, must)})
		}
		if radix {
			sc.Ops = append(sc.Ops, Op{E: "lookx", S: s, Q: someKeys(1+p.Look/2, must)})
		}
		if r.Float64() < p.Enum {
			sc.Ops = append(sc.Ops, Op{E: "enum", S: s, X: r.Intn(2)})
		}
		if r.Float64() < p.Many {
			sc.Ops = append(sc.Ops, Op{E: "many", S: s, X: 2 + r.Intn(400)})
		}
		if (kind == "str" || kind == "label") && r.Intn(4) == 0 {
			sc.Ops = append(sc.Ops, Op{E: "empty", S: s})
		}
		if radix && r.Float64() < p.Tri {
			sc.Ops = append(sc.Ops, Op{E: "tri", S: s})
		}
		if kind != "ip" && kind != "dom" && r.Float64() < p.Dot {
			sc.Ops = append(sc.Ops, Op{E: "dot", S: s})
		}
	}
	all := make([]int, len(keys))
	for i := range all {
		all[i] = i
	}

	delSub := p.DelSub
	if !dom {
		delSub = 0
	}
	upd := p.Upd
	if kind != "ip" {
		upd = 0
	}
	nilW := p.Nil
	if kind == "str" && cmp != "lex" {
		nilW = 0
	}
	foc := p.Foc
	if !radix {
		foc = 0
	}
	burst, burstOp := 0, 0
	for n := 0; n < p.Ops; n++ {
		ls := live()
		if len(ls) == 0 {
			d := own[r.Intn(len(own))]
			ngrp++
			if nilW > 0 && r.Intn(2) == 0 {
				slots[d] = slot{true, ngrp, true, true}
				sc.Ops = append(sc.Ops, Op{E: "nil", D: d})
			} else {
				slots[d] = slot{true, ngrp, false, false}
				sc.Ops = append(sc.Ops, Op{E: "new", D: d})
			}
			observe(d, -1)
			continue
		}
		s := ls[r.Intn(len(ls))]
		d := own[r.Intn(len(own))]
		if r.Intn(100) < p.Same && !shared(s) {
			d = s
		}
		k := r.Intn(len(keys))
		op := pick(r, p.Ins, p.Inp, p.Del, delSub, upd, p.Drop, nilW, 1, p.Open, p.Next, foc)
		if p.Burst {
			// Long runs of the same operation make the tree grow high and then shrink to nothing.
			if burst == 0 {
				burst = 4 + r.Intn(2*p.Keys)
				burstOp = pick(r, p.Ins, p.Inp, p.Del, delSub)
			}
			burst--
			if r.Intn(10) < 9 {
				op = burstOp
			}
		}
		if op == 10 {
			x := 0
			if r.Intn(2) == 0 {
				x = 1 + r.Intn(1<<12)
			}
			sc.Ops = append(sc.Ops, Op{E: "foc", S: s, D: d, K: k, X: x})
			slots[d] = slot{true, slots[s].grp, false, false}
			observe(d, k)
			observe(s, k)
			continue
		}
		if op >= 8 {
			i := 1 + r.Intn(p.Streams)
			if streams[i].left == 0 {
				streams[i] = opened{slots[s].grp, len(keys) + 2}
				sc.Ops = append(sc.Ops, Op{E: "open", S: s, I: i, X: r.Intn(2)})
				continue
			}
			m := 1
			if op == 8 {
				m = streams[i].left
			} else if r.Intn(3) == 0 {
				m = 1 + r.Intn(4)
			}
			for ; m > 0 && streams[i].left > 0; m-- {
				streams[i].left--
				sc.Ops = append(sc.Ops, Op{E: "next", I: i})
			}
			continue
		}
		// What changes a version in place needs one nobody shares; without any there is a new version instead.
		fits := func(s int) bool { return exclusive(s) || op == 4 && slots[s].isNil }
		for j := 0; (op == 1 || op == 4) && !fits(s); j++ {
			if j == len(ls) {
				op = 0
				break
			}
			s = ls[j]
		}
		switch op {
		case 0:
			sc.Ops = append(sc.Ops, Op{E: "ins", S: s, D: d, K: k, V: value()})
			slots[d] = slot{true, slots[s].grp, slots[s].maybeNil && kind == "ip", false}
		case 1:
			sc.Ops = append(sc.Ops, Op{E: "inp", S: s, D: s, K: k, V: value()})
			d = s
		case 2:
			sc.Ops = append(sc.Ops, Op{E: "del", S: s, D: d, K: k})
			slots[d] = slot{true, slots[s].grp, slots[s].maybeNil, slots[s].isNil}
		case 3:
			sc.Ops = append(sc.Ops, Op{E: "dsub", S: s, D: d, K: k})
			slots[d] = slot{true, slots[s].grp, slots[s].maybeNil, slots[s].isNil}
		case 4:
			sc.Ops = append(sc.Ops, Op{E: "upd", S: s, D: s, K: k, X: r.Int() & 0xffff})
			d = s
		case 5:
			if len(ls) < 2 || shared(s) {
				n--
				p.Ops--
				continue
			}
			sc.Ops = append(sc.Ops, Op{E: "drop", S: s})
			slots[s] = slot{}
			if p.Kept > 0 && r.Float64() < 3*p.Kept {
				sc.Ops = append(sc.Ops, Op{E: "kept"})
			}
			continue
		case 6:
			ngrp++
			sc.Ops = append(sc.Ops, Op{E: "nil", D: d})
			slots[d] = slot{true, ngrp, true, true}
			k = -1
		case 7:
			ngrp++
			sc.Ops = append(sc.Ops, Op{E: "new", D: d})
			slots[d] = slot{true, ngrp, false, false}
			k = -1
		}
		observe(d, k)
		if p.Kept > 0 && r.Float64() < p.Kept {
			sc.Ops = append(sc.Ops, Op{E: "kept"})
		}
		if ls = live(); len(ls) > 1 {
			if o := ls[r.Intn(len(ls))]; o != d {
				observe(o, k)
			}
		}
	}
	// Drain everything in turns.
	for more := p.Streams > 0; more; {
		more = false
		for i := range streams {
			if streams[i].left > 0 {
				streams[i].left--
				sc.Ops = append(sc.Ops, Op{E: "next", I: i})
				more = true
			}
		}
	}
	if p.Streams > 0 && len(base) == 0 {
		sc.Ops = append(sc.Ops, Op{E: "idle"})
	}
	if p.NoEnd {
		return sc
	}
	if p.Kept > 0 {
		sc.Ops = append(sc.Ops, Op{E: "kept"})
	}
	for _, s := range live() {
		if kind != "label" {
			sc.Ops = append(sc.Ops, Op{E: "enum", S: s})
		} else {
			sc.Ops = append(sc.Ops, Op{E: "enum", S: s}, Op{E: "enum", S: s, X: 1})
		}
		sc.Ops = append(sc.Ops, Op{E: "look", S: s, Q: all})
		if radix {
			sc.Ops = append(sc.Ops, Op{E: "lookx", S: s, Q: all}, Op{E: "tri", S: s})
		}
		if p.Dot > 0 && kind != "ip" && kind != "dom" {
			sc.Ops = append(sc.Ops, Op{E: "dot", S: s})
		}
	}
	return sc
}

func genKeys(r *rand.Rand, kind string, p Profile) []Key {
	switch kind {
	case "str":
		return genStrKeys(r, p)
	case "label":
		return genLabelKeys(r, p)
	case "radix32":
		return genRadixKeys(r, p, 32)
	case "radix64":
		return genRadixKeys(r, p, 64)
	case "ip":
		return genIPKeys(r, p)
	case "dom":
		return genDomKeys(r, p)
	}
	panic("harness: kind " + kind)
}

func randBytes(r *rand.Rand, n int, alpha string) []byte {
	b := make([]byte, n)
	for i := range b {
		if alpha == "" {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = alpha[r.Intn(len(alpha))]
		}
	}
	return b
}

func genStrKeys(r *rand.Rand, p Profile) []Key {
	var out []Key
	style := r.Intn(5)
	seen := map[string]bool{}
	for tries := 0; len(out) < p.Keys && tries < 50*p.Keys; tries++ {
		var b []byte
		switch style {
		case 0: // numbers
			b = []byte(fmt.Sprintf("k%03d", r.Intn(4*p.Keys)))
		case 1: // a few letters in both cases
			b = randBytes(r, r.Intn(4), "aAbBzZ")
		case 2: // any bytes
			b = randBytes(r, r.Intn(6), "")
		case 3: // long common part
			b = append([]byte(strings.Repeat("prefix/", 6)), randBytes(r, r.Intn(3), "ab\x00\xff")...)
		default: // text to be quoted
			b = randBytes(r, r.Intn(5), "\"\\\n\x00a\xc3\xa9{}[]%%dn<&>;$'")
		}
		if r.Intn(40) == 0 {
			b = append(b, randBytes(r, 300, "xy")...)
		}
		if seen[string(b)] {
			continue
		}
		seen[string(b)] = true
		out = append(out, Key{F: "b", B: b})
	}
	return out
}

// spell writes a label (or its lower-case variant) in one of possible ways.
func spell(r *rand.Rand, label []byte) []byte {
	out := []byte{}
	mode := r.Intn(4)
	for _, c := range label {
		if c >= 'A' && c <= 'Z' && (mode == 0 || mode == 1 && r.Intn(2) == 0) {
			c |= 0x20
		}
		digit := c >= '0' && c <= '9'
		switch {
		case mode == 3 && r.Intn(2) == 0 || digit && mode == 3 && r.Intn(3) == 0:
			out = append(out, []byte(fmt.Sprintf("\\%03d", c))...)
		case c == '.' || c == '\\' || !digit && mode == 2 && r.Intn(3) == 0:
			out = append(out, '\\', c)
		case (c < '!' || c > '~') && r.Intn(2) == 0:
			out = append(out, []byte(fmt.Sprintf("\\%03d", c))...)
		default:
			out = append(out, c)
		}
	}
	return out
}

func upBytes(b []byte) []byte { return []byte(upASCII(string(b))) }

func genLabel(r *rand.Rand, style int) []byte {
	switch style {
	case 0:
		return randBytes(r, 1+r.Intn(3), "ABC")
	case 1:
		return upBytes(randBytes(r, 1+r.Intn(4), ""))
	case 2:
		return upBytes(randBytes(r, 1+r.Intn(3), ".\\ @[`{~!\x7f\x00\xff0A%\"<;$()D"))
	case 3:
		n := []int{1, 2, 62, 63, 63}[r.Intn(5)]
		return upBytes(randBytes(r, n, "AZ\xe9."))
	default:
		return []byte(fmt.Sprintf("L%d", r.Intn(200)))
	}
}

func genLabelKeys(r *rand.Rand, p Profile) []Key {
	var out []Key
	style := r.Intn(6)
	var labels [][]byte
	for tries := 0; len(out) < p.Keys && tries < 50*p.Keys; tries++ {
		var l []byte
		if len(labels) > 0 && r.Intn(3) == 0 {
			l = labels[r.Intn(len(labels))]
		} else {
			st := style
			if st == 5 {
				st = r.Intn(5)
			}
			l = genLabel(r, st)
			labels = append(labels, l)
		}
		k := Key{F: "b", B: l}
		if r.Intn(3) > 0 {
			k = Key{F: "t", B: spell(r, l)}
			if r.Intn(5) == 0 {
				k.B = append(k.B, '.')
			}
		}
		out = append(out, k)
	}
	return out
}

func setBit(b []byte, i int, v byte) {
	m := byte(0x80) >> uint(i%8)
	if v == 0 {
		b[i/8] &^= m
	} else {
		b[i/8] |= m
	}
}

func getBit(b []byte, i int) byte { return b[i/8] >> uint(7-i%8) & 1 }

// prefixPool makes prefixes which share parts, nest and branch around given positions.
func prefixPool(r *rand.Rand, width, n int) []Key {
	var out []Key
	type pfx struct {
		b []byte
		n int
	}
	var all []pfx
	root := randBytes(r, width/8, "")
	if r.Intn(4) == 0 {
		root = randBytes(r, width/8, "\x00\xff")
	}
	famous := width >= 32 && r.Intn(4) == 0
	marks := []int{0, 1, 2, width - 2, width - 1, width}
	if width > 64 {
		marks = append(marks, 62, 63, 64, 64, 65, 66, 63, 64, 65)
	}
	if width > 32 {
		marks = append(marks, 31, 32, 33)
	}
	focus := marks[r.Intn(len(marks))]
	length := func() int {
		switch r.Intn(6) {
		case 0:
			return r.Intn(width + 1)
		case 1:
			return marks[r.Intn(len(marks))]
		default:
			l := focus + r.Intn(7) - 3
			if l < 0 {
				l = 0
			}
			if l > width {
				l = width
			}
			return l
		}
	}
	for len(out) < n {
		b := cloneBytes(root)
		l := length()
		if famous && r.Intn(3) > 0 {
			b, l = famousPrefix(r, width)
		} else if len(all) > 0 && r.Intn(4) > 0 {
			q := all[r.Intn(len(all))]
			b = cloneBytes(q.b)
			switch r.Intn(3) {
			case 0: // same address, another length
			case 1: // sibling: flip the last bit
				l = q.n
				if l > 0 {
					setBit(b, l-1, 1-getBit(b, l-1))
				}
			case 2: // branch somewhere
				if q.n > 0 {
					i := r.Intn(q.n)
					if r.Intn(2) == 0 && focus > 0 && focus <= width {
						i = focus - 1
					}
					setBit(b, i, 1-getBit(b, i))
				}
			}
		}
		all = append(all, pfx{b, l})
		k := cloneBytes(b)
		// Garbage after the prefix.
		switch r.Intn(3) {
		case 0:
			for i := l; i < width; i++ {
				setBit(k, i, byte(r.Intn(2)))
			}
		case 1:
			for i := l; i < width; i++ {
				setBit(k, i, 0)
			}
		}
		out = append(out, Key{F: "n", B: k, N: l})
	}
	return out
}

func genRadixKeys(r *rand.Rand, p Profile, width int) []Key {
	out := prefixPool(r, width, p.Keys)
	for i := range out {
		if r.Intn(100) < p.Bad {
			switch {
			case out[i].N == 0 || r.Intn(3) == 0:
				out[i].N = []int{-1, -2, -255, -256, -1 << 31, -1 << 62}[r.Intn(6)]
			default:
				out[i].N = width + []int{1, 2, 191, 192, 193, 224, 1 << 31, 1 << 32, 1<<62 + 3}[r.Intn(9)]
			}
		}
	}
	return out
}

func cidr(n, size int) []byte {
	m := make([]byte, size/8)
	for i := 0; i < n; i++ {
		setBit(m, i, 1)
	}
	return m
}

// famousPrefixes are networks which have a meaning of their own (hexadecimal, with number of bits).
var famousPrefixes = map[int][]string{
	32: {
		"00000000/0", "00000000/8", "0a000000/8", "7f000000/8", "7f000001/32", "7f000000/24", "a9fe0000/16",
		"ac100000/12", "c0a80000/16", "c0000200/24", "64400000/10", "c6120000/15", "e0000000/4", "e0000001/32",
		"f0000000/4", "ffffffff/32", "00000000/32", "08080808/32", "80000000/1", "c0000000/2",
	},
	64: {"0000000000000000/0", "8000000000000000/1", "ffffffffffffffff/64", "ffffffff00000000/32", "7fffffffffffffff/64"},
	128: {
		"00000000000000000000000000000000/0", "00000000000000000000000000000000/128", "00000000000000000000000000000001/128",
		"00000000000000000000ffff00000000/96", "00000000000000000000ffff7f000001/128", "00000000000000000000000000000000/96",
		"0064ff9b000000000000000000000000/96", "20010db8000000000000000000000000/32", "20020000000000000000000000000000/16",
		"20010000000000000000000000000000/32", "fe800000000000000000000000000000/10", "fc000000000000000000000000000000/7",
		"ff020000000000000000000000000001/128", "ff000000000000000000000000000000/8", "20000000000000000000000000000000/3",
		"ffffffffffffffffffffffffffffffff/128",
	},
}

// famousPrefix picks a famous network, one of networks inside of it or one of its small addresses.
func famousPrefix(r *rand.Rand, width int) ([]byte, int) {
	s := famousPrefixes[width][r.Intn(len(famousPrefixes[width]))]
	i := strings.IndexByte(s, '/')
	b, err := hex.DecodeString(s[:i])
	if err != nil {
		panic(err)
	}
	n, err := strconv.Atoi(s[i+1:])
	if err != nil {
		panic(err)
	}
	switch r.Intn(4) {
	case 0:
		return b, n
	case 1:
		m := n + r.Intn(width-n+1)
		for i := n; i < m; i++ {
			setBit(b, i, byte(r.Intn(2)))
		}
		return b, m
	}
	if n+8 <= width {
		b[len(b)-1] |= byte(r.Intn(4))
	}
	return b, width
}

func genIPKeys(r *rand.Rand, p Profile) []Key {
	var out []Key
	n6 := p.Keys
	n4 := 0
	switch r.Intn(4) {
	case 0:
		n4, n6 = p.Keys, 0
	case 1:
		n4 = p.Keys / 3
		n6 = p.Keys - n4
	}
	mapped := r.Intn(3) == 0
	for _, k := range prefixPool(r, 32, n4+1)[:n4] {
		if k.N == 32 && r.Intn(2) == 0 || r.Intn(8) == 0 {
			if r.Intn(2) == 0 {
				out = append(out, Key{F: "a", B: k.B})
			} else {
				out = append(out, Key{F: "a", B: append([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, k.B...)})
			}
			continue
		}
		out = append(out, Key{F: "i", B: k.B, M: cidr(k.N, 32)})
	}
	for _, k := range prefixPool(r, 128, n6+1)[:n6] {
		if mapped {
			// Networks which look like IPv4 ones inside of IPv6.
			copy(k.B, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})
			if k.N < 90 {
				k.N = 90 + r.Intn(39)
			}
		}
		if k.N == 128 && r.Intn(2) == 0 || r.Intn(8) == 0 {
			out = append(out, Key{F: "a", B: k.B})
			continue
		}
		out = append(out, Key{F: "i", B: k.B, M: cidr(k.N, 128)})
	}
	for i := range out {
		if r.Intn(100) >= p.Bad {
			continue
		}
		out[i] = badIP(r, out[i])
	}
	return out
}

func badIP(r *rand.Rand, k Key) Key {
	b := cloneBytes(k.B)
	switch r.Intn(9) {
	case 0:
		return Key{F: "0"}
	case 1:
		return Key{F: "a", B: nil}
	case 2:
		return Key{F: "a", B: append(b, 1)}
	case 3:
		return Key{F: "a", B: b[:len(b)-1]}
	case 4: // hole in the mask
		m := cidr(8*len(b)-3, 8*len(b))
		setBit(m, 5, 0)
		return Key{F: "i", B: b, M: m}
	case 5: // mask of another family
		if len(b) == 4 {
			return Key{F: "i", B: b, M: cidr(r.Intn(129), 128)}
		}
		return Key{F: "i", B: b, M: cidr(r.Intn(33), 32)}
	case 6: // no mask
		return Key{F: "i", B: b, M: nil}
	case 7: // wrong length of address
		l := []int{0, 1, 3, 5, 8, 12, 15, 17, 20}[r.Intn(9)]
		return Key{F: "i", B: make([]byte, l), M: cidr(r.Intn(33), 32)}
	default:
		l := []int{0, 1, 3, 5, 8, 12, 15, 17, 20}[r.Intn(9)]
		return Key{F: "i", B: make([]byte, l), M: cidr(r.Intn(129), 128)}
	}
}

func genDomKeys(r *rand.Rand, p Profile) []Key {
	var out []Key
	var names [][][]byte // root-most label first
	style := r.Intn(6)
	depth := 4
	switch r.Intn(8) {
	case 0:
		depth = 127
	case 1:
		depth = 20
	}
	label := func() []byte {
		if depth > 20 {
			return randBytes(r, 1, "AB")
		}
		st := style
		if st == 5 {
			st = r.Intn(5)
		}
		if p.SmallAlpha {
			st = 0
		}
		return genLabel(r, st)
	}
	size := func(n [][]byte) int {
		s := 0
		for _, l := range n {
			s += len(l) + 1
		}
		return s
	}
	for tries := 0; len(out) < p.Keys && tries < 50*p.Keys; tries++ {
		var n [][]byte
		if len(names) > 0 && r.Intn(5) > 0 {
			q := names[r.Intn(len(names))]
			switch r.Intn(4) {
			case 0: // another spelling of the same name
				n = append(n, q...)
			case 1: // some parent
				n = append(n, q[:r.Intn(len(q)+1)]...)
			case 2: // sibling
				if len(q) > 0 {
					n = append(append(n, q[:len(q)-1]...), label())
				}
			default: // subdomain
				n = append(n, q...)
				m := 1 + r.Intn(2)
				if depth > 20 && r.Intn(3) == 0 {
					m = 127 - len(n)
				}
				for i := 0; i < m; i++ {
					n = append(n, label())
				}
			}
		} else {
			m := r.Intn(4)
			if depth > 4 && r.Intn(2) == 0 {
				m = depth - r.Intn(2)
			}
			for i := 0; i < m; i++ {
				n = append(n, label())
			}
		}
		if len(n) > 127 || size(n) > 255 {
			continue
		}
		names = append(names, n)
		parts := []string{}
		for i := len(n) - 1; i >= 0; i-- {
			parts = append(parts, string(spell(r, n[i])))
		}
		s := strings.Join(parts, ".")
		if r.Intn(4) == 0 {
			s += "."
		}
		out = append(out, Key{F: "t", B: []byte(s)})
	}
	return out
}
