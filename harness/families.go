package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

func families(s graphSpec) []*family {
	switch s.Kind {
	case "rb":
		return rbFamilies()
	case "radix":
		return radixFamilies(s.P[0], s.Deep)
	case "ip2":
		return ip2Families(s.P[0], s.P[1])
	case "dom":
		return domFamilies(s.P[0], s.P[1])
	}
	panic("harness: unknown family " + s.Kind)
}

// ---------------------------------------------------------------- search trees

// Numbers as 16 letters a..p: the order is kept by every comparison which looks at all letters.
func nibbles(x uint64) []byte {
	var b [16]byte
	for i := range b {
		b[i] = 'a' + byte(x>>uint(60-4*i)&15)
	}
	return b[:]
}

func unNibbles(b []byte) string {
	if len(b) != 16 {
		return "?"
	}
	var x uint64
	for _, c := range b {
		if c < 'a' || c > 'p' {
			return "?"
		}
		x = x<<4 | uint64(c-'a')
	}
	return strconv.FormatUint(x, 10)
}

// respell makes other spelling of letters: case and, with esc, three digits escapes.
func respell(b []byte, n int, esc bool) []byte {
	out := []byte{}
	h := uint32(n)*2654435761 + 12345
	for _, c := range b {
		h = h*1664525 + 1013904223
		switch h >> 28 & 3 {
		case 0:
			c -= 32
		case 1:
			if esc && h>>24&3 == 0 {
				out = append(out, fmt.Sprintf("\\%03d", c)...)
				continue
			}
		}
		out = append(out, c)
	}
	return out
}

func parsePoint(k string) uint64 {
	x, err := strconv.ParseUint(k, 10, 64)
	must(err)
	return x
}

func rbFamilies() []*family {
	fs := []*family{}
	letters := func(k string, n int) Key { return Key{F: "b", B: nibbles(parsePoint(k))} }
	for _, impl := range implsOf("str") {
		fs = append(fs,
			&family{name: impl.Name() + " binary keys", impl: impl, cmp: "lex",
				real: func(k string, n int) Key { return Key{F: "b", B: b64(parsePoint(k))} },
				back: func(k Key) string {
					if len(k.B) != 8 {
						return "?"
					}
					return strconv.FormatUint(u64(k.B), 10)
				}},
			&family{name: impl.Name() + " reversed", impl: impl, cmp: "rev", desc: true,
				real: letters, back: func(k Key) string { return unNibbles(k.B) }},
			&family{name: impl.Name() + " ignoring case", impl: impl, cmp: "fold",
				real: func(k string, n int) Key { return Key{F: "b", B: respell(nibbles(parsePoint(k)), n, false)} },
				back: func(k Key) string { return unNibbles(bytes.ToLower(k.B)) }})
	}
	for _, impl := range implsOf("label") {
		fs = append(fs, &family{name: impl.Name(), impl: impl, cmp: "lex",
			real: func(k string, n int) Key {
				if n%3 == 0 {
					return Key{F: "b", B: bytes.ToUpper(nibbles(parsePoint(k)))}
				}
				return Key{F: "t", B: respell(nibbles(parsePoint(k)), n, true)}
			},
			back: func(k Key) string {
				if k.F == "b" {
					if !bytes.Equal(k.B, bytes.ToUpper(k.B)) {
						return "?"
					}
					return unNibbles(bytes.ToLower(k.B))
				}
				return unNibbles(k.B)
			}})
	}
	for _, impl := range implsOf("dom") {
		for _, base := range []string{"", ".example.com"} {
			base := base
			f := &family{name: impl.Name() + " labels of " + base, impl: impl, cmp: "lex", subs: true,
				real: func(k string, n int) Key {
					return Key{F: "t", B: append(respell(nibbles(parsePoint(k)), n, true), base...)}
				},
				back: func(k Key) string {
					if !bytes.HasSuffix(k.B, []byte(base)) {
						return "?"
					}
					return unNibbles(k.B[:len(k.B)-len(base)])
				},
				outside: []Key{{F: "t", B: []byte("")}, {F: "t", B: []byte("com")}, {F: "t", B: []byte("example.com")}}}
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		f.rank = true
		f.name = "rb " + f.name
	}
	return fs
}

// ---------------------------------------------------------------- radix

// Keys of radix models are [word, length].
func parsePair(k string) (uint64, int) {
	var a [2]uint64
	must(json.Unmarshal([]byte(k), &a))
	return a[0], int(a[1])
}

func pair(x uint64, n int) string { return fmt.Sprintf("[%d,%d]", x, n) }

// bits is a big endian string of bits.
type bits []byte

func newBits(n int) bits { return make(bits, (n+7)/8) }
func (b bits) get(i int) uint64 {
	return uint64(b[i/8] >> uint(7-i%8) & 1)
}
func (b bits) set(i int, x uint64) {
	m := byte(1) << uint(7-i%8)
	if x&1 == 1 {
		b[i/8] |= m
	} else {
		b[i/8] &^= m
	}
}

// place puts a word of w bits after first d bits of total; bits from n on which don't matter are made of noise.
type place struct {
	total, d, w int
	pattern     func(i int) uint64
}

func (p place) key(x uint64, n, noise int) (bits, int) {
	b := newBits(p.total)
	for i := 0; i < p.d; i++ {
		b.set(i, p.pattern(i))
	}
	for i := 0; i < p.w; i++ {
		b.set(p.d+i, x>>uint(p.w-1-i))
	}
	// Bits of the word after its length are given by the graph, others are free.
	for i := p.d + p.w; i < p.total; i++ {
		switch noise % 3 {
		case 1:
			b.set(i, 1)
		case 2:
			b.set(i, uint64(i*noise)>>2)
		}
	}
	return b, p.d + n
}

// back gives the pair or "?"; bits after the length are ignored unless strict.
func (p place) back(b bits, n int, strict bool) string {
	if len(b)*8 != p.total || n < p.d || n > p.d+p.w {
		return "?"
	}
	for i := 0; i < p.d; i++ {
		if b.get(i) != p.pattern(i) {
			return "?"
		}
	}
	var x uint64
	for i := 0; i < p.w; i++ {
		v := uint64(0)
		if p.d+i < n {
			v = b.get(p.d + i)
		}
		x = x<<1 | v
	}
	if strict {
		for i := n; i < p.total; i++ {
			if b.get(i) != 0 {
				return "?"
			}
		}
	}
	return pair(x, n-p.d)
}

// others are prefixes which contain nothing of the place and aren't contained in it.
func (p place) others() []struct {
	b bits
	n int
} {
	out := []struct {
		b bits
		n int
	}{}
	for _, i := range []int{0, p.d / 2, p.d - 1} {
		if i < 0 || i >= p.d {
			continue
		}
		b, _ := p.key(0, p.w, 0)
		b.set(i, 1-b.get(i))
		for _, n := range []int{p.d, p.total} {
			out = append(out, struct {
				b bits
				n int
			}{b, n})
		}
		// Shorter than anything in the place.
		c, _ := p.key(0, p.w, 0)
		out = append(out, struct {
			b bits
			n int
		}{c, i})
	}
	return out
}

func patterns(j int) func(i int) uint64 {
	switch j % 3 {
	case 0:
		return func(i int) uint64 { return uint64(i+1) & 1 }
	case 1:
		return func(i int) uint64 { return 1 }
	}
	return func(i int) uint64 { return uint64(i*i+i/3) & 1 }
}

// structure lists nodes of a radix tree of the model as Tri does.
func structure(p place, state string) []string {
	out := []string{}
	var walk func(r json.RawMessage)
	walk = func(r json.RawMessage) {
		var a []json.RawMessage
		must(json.Unmarshal(r, &a))
		if len(a) == 0 {
			return
		}
		var (
			k    uint64
			n    int
			leaf bool
		)
		must(json.Unmarshal(a[0], &k))
		must(json.Unmarshal(a[1], &n))
		must(json.Unmarshal(a[2], &leaf))
		k = k >> uint(p.w-n) << uint(p.w-n)
		out = append(out, fmt.Sprintf("%s %v", pair(k, n), leaf))
		walk(a[4])
		walk(a[5])
	}
	walk(json.RawMessage(state))
	return out
}

func radixFamilies(w int, deep bool) []*family {
	fs := []*family{}
	for _, total := range []int{32, 64} {
		impls := implsOf(fmt.Sprintf("radix%d", total))
		if len(impls) < 1 {
			continue
		}
		impl := impls[0]
		ds := []int{0, 1, 7, total/2 - 1, total - w - 1, total - w}
		if deep {
			ds = ds[:0]
			for d := 0; d+w <= total; d++ {
				ds = append(ds, d)
			}
		}
		for j, d := range ds {
			p := place{total, d, w, patterns(j)}
			f := &family{name: fmt.Sprintf("radix %s after %d bits", impl.Name(), d), impl: impl, cmp: "lex", none: "[]",
				real: func(k string, n int) Key {
					x, l := parsePair(k)
					b, m := p.key(x, l, n)
					if m == total && n%2 == 0 {
						m += n % 100
					}
					if m == 0 && n%2 == 0 {
						m -= n % 100
					}
					return Key{F: "n", B: b, N: m}
				},
				back: func(k Key) string {
					if k.F != "n" {
						return "?"
					}
					return p.back(k.B, k.N, false)
				},
				tree: func(state string) []string { return structure(p, state) }}
			for _, o := range p.others() {
				f.outside = append(f.outside, Key{F: "n", B: o.b, N: o.n})
			}
			fs = append(fs, f)
		}
	}
	for _, impl := range implsOf("ip") {
		for j, pl := range []struct{ total, d int }{{32, 0}, {32, 11}, {32, 32 - w}, {128, 0}, {128, 63 - w}, {128, 64 - w},
			{128, 65 - w}, {128, 63}, {128, 64}, {128, 65}, {128, 128 - w}} {
			if pl.d < 0 {
				continue
			}
			fs = append(fs, netFamily(impl, place{pl.total, pl.d, w, patterns(j)}, "radix"))
		}
	}
	return fs
}

func maskBits(n, total int) []byte {
	b := newBits(total)
	for i := 0; i < n; i++ {
		b.set(i, 1)
	}
	return b
}

func maskLen(m []byte) int {
	n := 0
	for n < len(m)*8 && bits(m).get(n) == 1 {
		n++
	}
	for i := n; i < len(m)*8; i++ {
		if bits(m).get(i) == 1 {
			return -1
		}
	}
	return n
}

func netFamily(impl Impl, p place, what string) *family {
	other := 160 - p.total
	f := &family{name: fmt.Sprintf("%s %s (%d bits) after %d bits", what, impl.Name(), p.total, p.d), impl: impl, cmp: "lex", none: "[]",
		real: func(k string, n int) Key {
			x, l := parsePair(k)
			b, m := p.key(x, l, n)
			if m == p.total && n%2 == 0 {
				if p.total == 32 && n%4 == 0 {
					return Key{F: "a", B: append([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255}, b...)}
				}
				return Key{F: "a", B: b}
			}
			return Key{F: "i", B: b, M: maskBits(m, p.total)}
		},
		back: func(k Key) string {
			if k.F != "i" || len(k.B) != len(k.M) {
				return "?"
			}
			n := maskLen(k.M)
			if n < 0 {
				return "?"
			}
			return p.back(k.B, n, true)
		},
		outside: []Key{{F: "i", B: make([]byte, other/8), M: make([]byte, other/8)},
			{F: "a", B: make([]byte, other/8)}},
	}
	for _, o := range p.others() {
		f.outside = append(f.outside, Key{F: "i", B: o.b, M: maskBits(o.n, p.total)})
	}
	return f
}

// ip2Families puts the model of IPv6 trees to its place around the middle of addresses.
func ip2Families(wm, wl int) []*family {
	fs := []*family{}
	for _, impl := range implsOf("ip") {
		for j := 0; j < 3; j++ {
			fs = append(fs, netFamily(impl, place{128, 64 - wm, wm + wl, patterns(j)}, fmt.Sprintf("ip2.%d", j)))
		}
	}
	return fs
}

// ---------------------------------------------------------------- domains

// spellLabel writes bytes of a label in one of its spellings.
func spellLabel(b []byte, n int) string {
	out := strings.Builder{}
	for i, c := range b {
		h := (uint32(n)*2654435761 + uint32(i)*40503) >> 13
		if c >= 'A' && c <= 'Z' && h&1 == 1 {
			c += 32
		}
		switch {
		case h&6 == 6:
			fmt.Fprintf(&out, "\\%03d", c)
		case c == '.' || c == '\\' || (h&6 == 4 && (c < '0' || c > '9')):
			out.WriteByte('\\')
			out.WriteByte(c)
		default:
			out.WriteByte(c)
		}
	}
	return out.String()
}

// unspellName decodes listed text: labels in the order they are written; nil if it isn't the form listings have to have.
func unspellName(s string) [][]byte {
	labels := [][]byte{}
	if s == "" {
		return labels
	}
	cur := []byte{}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c <= ' ' || c > '~' || c >= 'A' && c <= 'Z' {
			return nil
		}
		switch c {
		case '.':
			labels = append(labels, cur)
			cur = []byte{}
		case '\\':
			if i+1 >= len(s) {
				return nil
			}
			if s[i+1] < '0' || s[i+1] > '9' {
				cur = append(cur, s[i+1])
				i++
				continue
			}
			if i+3 >= len(s) {
				return nil
			}
			x, err := strconv.Atoi(s[i+1 : i+4])
			if err != nil || x > 255 {
				return nil
			}
			cur = append(cur, byte(x))
			i += 3
		default:
			cur = append(cur, c)
		}
	}
	return append(labels, cur)
}

func domFamilies(nl, depth int) []*family {
	fs := []*family{}
	alphabets := [][]string{{"A", "B", "C"}, {"Z", "AA", "AAA"}, {"\x00", ".", "\xff"}, {"0", "\\", "_"}, {".", "A.", "A.B"}}
	long := strings.Repeat("L", 62)
	alphabets = append(alphabets, []string{long + "\x7f", long + "\x80", long + "\xff"})
	for _, impl := range implsOf("dom") {
		for j, al := range alphabets {
			for _, base := range []int{0, 1, 126 - depth + 1} {
				al, base := al, base
				if base > 1 && len(al[nl-1]) > 1 {
					continue
				}
				f := &family{name: fmt.Sprintf("dom %s alphabet %d below %d labels", impl.Name(), j, base), impl: impl, cmp: "lex",
					none: `["none"]`}
				f.real = func(k string, n int) Key {
					var a []int
					must(json.Unmarshal([]byte(k), &a))
					ls := []string{}
					for i := len(a) - 1; i >= 0; i-- {
						ls = append(ls, spellLabel([]byte(al[a[i]-1]), n+i))
					}
					for i := 0; i < base; i++ {
						ls = append(ls, spellLabel([]byte("X"), n+i))
					}
					s := strings.Join(ls, ".")
					if n%5 == 0 && len(ls) > 0 {
						s += "."
					}
					return Key{F: "t", B: []byte(s)}
				}
				f.back = func(k Key) string {
					ls := unspellName(string(k.B))
					if ls == nil || len(ls) < base {
						return "?"
					}
					for i := 0; i < base; i++ {
						if string(ls[len(ls)-1-i]) != "x" {
							return "?"
						}
					}
					ids := []string{}
					for i := len(ls) - 1 - base; i >= 0; i-- {
						id := "?"
						for m, a := range al {
							if a == upASCII(string(ls[i])) {
								id = strconv.Itoa(m + 1)
							}
						}
						ids = append(ids, id)
					}
					return "[" + strings.Join(ids, ",") + "]"
				}
				if base > 0 {
					f.outside = append(f.outside, Key{F: "t", B: []byte("")}, Key{F: "t", B: []byte("y")},
						Key{F: "t", B: []byte(strings.Repeat("x.", base-1) + "y")})
				}
				if base > 1 {
					f.outside = append(f.outside, Key{F: "t", B: []byte(strings.Repeat("x.", base-1))})
				}
				fs = append(fs, f)
			}
		}
	}
	return fs
}
