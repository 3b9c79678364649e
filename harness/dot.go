package main

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

// dotNode is a node of a parsed dump.
type dotNode struct {
	label string
	c     [2]int // indices of children, -1 if there are none
	kids  bool
}

// dotTokens splits text by the lexical rules of DOT.
func dotTokens(s string) ([]string, error) {
	out := []string{}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.IndexByte("{}[]=;,", c) >= 0:
			out = append(out, string(c))
			i++
		case strings.HasPrefix(s[i:], "->"):
			out = append(out, "->")
			i += 2
		case c == '"':
			b := []byte{'"'}
			i++
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("string without end: %q", b)
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] == '\\' && i+1 < len(s) {
					if s[i+1] == '"' {
						b = append(b, '"')
					} else {
						b = append(b, s[i], s[i+1])
					}
					i += 2
					continue
				}
				if s[i] == 0 {
					return nil, fmt.Errorf("zero byte in a string")
				}
				b = append(b, s[i])
				i++
			}
			out = append(out, string(b))
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			return nil, fmt.Errorf("unexpected %q", c)
		}
	}
	return out, nil
}

// parseDot makes a list of nodes of a dump, N0 first.
func parseDot(s string) ([]dotNode, error) {
	toks, err := dotTokens(s)
	if err != nil {
		return nil, err
	}
	p := 0
	tok := func() string {
		if p < len(toks) {
			p++
			return toks[p-1]
		}
		return ""
	}
	want := func(x string) error {
		if t := tok(); t != x {
			return fmt.Errorf("%q instead of %q", t, x)
		}
		return nil
	}
	if err := want("digraph"); err != nil {
		return nil, err
	}
	t := tok()
	if t != "{" {
		if err := want("{"); err != nil {
			return nil, err
		}
	}
	isID := func(t string) bool { return t != "" && !strings.Contains("{}[]=;,->", t) }
	idx := map[string]int{}
	nodes := []dotNode{}
	type edge struct {
		from string
		to   []string
	}
	edges := []edge{}
	for {
		id := tok()
		if id == "}" {
			break
		}
		if id == ";" {
			continue
		}
		if !isID(id) {
			return nil, fmt.Errorf("%q instead of an identifier", id)
		}
		switch t := tok(); t {
		case "[":
			if _, ok := idx[id]; ok {
				return nil, fmt.Errorf("node %s is defined twice", id)
			}
			n := dotNode{c: [2]int{-1, -1}}
			labels := 0
			for {
				name := tok()
				if name == "]" {
					break
				}
				if name == "," || name == ";" {
					continue
				}
				if !isID(name) {
					return nil, fmt.Errorf("attribute %q", name)
				}
				if err := want("="); err != nil {
					return nil, err
				}
				v := tok()
				if !isID(v) {
					return nil, fmt.Errorf("value %q of attribute", v)
				}
				if name == "label" {
					n.label = strings.TrimPrefix(v, "\"")
					labels++
				}
			}
			if labels != 1 {
				return nil, fmt.Errorf("%d labels of node %s", labels, id)
			}
			idx[id] = len(nodes)
			nodes = append(nodes, n)
		case "->":
			if err := want("{"); err != nil {
				return nil, err
			}
			to := []string{}
			for {
				x := tok()
				if x == "}" {
					break
				}
				if !isID(x) {
					return nil, fmt.Errorf("%q in a list of children", x)
				}
				to = append(to, x)
			}
			edges = append(edges, edge{id, to})
		default:
			return nil, fmt.Errorf("%q after node %s", t, id)
		}
	}
	if p != len(toks) {
		return nil, fmt.Errorf("something after the end: %q", toks[p])
	}
	for _, e := range edges {
		i, ok := idx[e.from]
		if !ok {
			return nil, fmt.Errorf("edge from unknown node %s", e.from)
		}
		if nodes[i].kids {
			return nil, fmt.Errorf("children of %s are given twice", e.from)
		}
		nodes[i].kids = true
		if len(e.to) != 2 {
			return nil, fmt.Errorf("%d children of %s", len(e.to), e.from)
		}
		for j, x := range e.to {
			k, ok := idx[x]
			if !ok {
				return nil, fmt.Errorf("edge to unknown node %s", x)
			}
			nodes[i].c[j] = k
		}
	}
	if len(nodes) > 0 {
		r, ok := idx["N0"]
		if !ok {
			return nil, fmt.Errorf("no N0")
		}
		if r != 0 {
			nodes[0], nodes[r] = nodes[r], nodes[0]
			for i := range nodes {
				for j, c := range nodes[i].c {
					if c == 0 {
						nodes[i].c[j] = r
					} else if c == r {
						nodes[i].c[j] = 0
					}
				}
			}
		}
	}
	return nodes, nil
}

// dotText is how a text looks like in a label when it's quoted by Go and then read by the rules of DOT.
func dotText(s string) string {
	q := strconv.Quote(s)
	return strings.Replace(q[1:len(q)-1], `\"`, `"`, -1)
}

// dotValue tells if label ends with given value.
func dotValue(label string, v interface{}) bool {
	switch v := v.(type) {
	case uint8, uint16, uint32, uint64:
		if strings.HasSuffix(label, fmt.Sprintf("v: \"%d\"", v)) {
			return true
		}
	}
	return strings.HasSuffix(label, "v: \""+dotText(fmt.Sprintf("%#v", v))+"\"")
}

type valued interface {
	Value(id int) interface{}
}

// dotEvent describes a dump: nodes [out, data?, value, left, right] where out is 0 for a nil node.
// For entries out and value come from the enumeration, in case the label indeed shows them.
func (t *Trace) dotEvent(impl Impl, v Ver, ev Event) {
	nodes, err := parseDot(impl.Dot(v))
	if err != nil {
		ev["e"], ev["why"] = "bad", err.Error()
		return
	}
	radix := strings.HasPrefix(t.Kind, "radix")
	shown := func(label string, val int) int {
		if val <= 0 {
			return gotUnknown
		}
		x := impl.(valued).Value(val)
		if x == nil && !radix {
			return val
		}
		if !dotValue(label, x) {
			return gotUnknown
		}
		return val
	}
	out := make([][]int, len(nodes))
	for i, n := range nodes {
		out[i] = []int{0, 0, 0, n.c[0] + 1, n.c[1] + 1}
	}
	isNil := func(i int) bool { return nodes[i].label == "nil" && nodes[i].c[0] < 0 && nodes[i].c[1] < 0 }
	if radix {
		for i, n := range nodes {
			if isNil(i) {
				continue
			}
			f := strings.SplitN(n.label, ", ", 3)
			k := Key{F: "x", B: []byte{}}
			if len(f) >= 2 && strings.HasPrefix(f[0], "k: ") && strings.HasPrefix(f[1], "b: ") {
				b, err1 := hex.DecodeString(f[0][3:])
				m, err2 := strconv.Atoi(f[1][3:])
				if err1 == nil && err2 == nil {
					k = Key{F: "n", B: b, N: m}
				}
			}
			out[i][0] = t.out(k)
			if len(f) > 2 {
				out[i][1] = 1
				if k.F == "n" {
					out[i][2] = shown(n.label, impl.GetExact(v, k))
				}
			}
		}
		ev["n"] = out
		return
	}
	// Entries in order.
	variant := 0
	if t.Kind == "label" {
		variant = 1
	}
	items := []Item{}
	next := impl.Open(v, variant)
	for {
		it, ok := next()
		if !ok {
			break
		}
		items = append(items, it)
	}
	j := 0
	seen := map[int]bool{}
	var walk func(i int)
	walk = func(i int) {
		if i < 0 || seen[i] {
			return
		}
		seen[i] = true
		if len(nodes) > 0 && isNil(i) {
			return
		}
		walk(nodes[i].c[0])
		out[i][0], out[i][1], out[i][2] = t.out(Key{F: "x", B: []byte{}}), 1, gotUnknown
		if j < len(items) {
			it := items[j]
			label := nodes[i].label
			key := dotText(string(it.K.B))
			if strings.HasPrefix(label, "k: \""+key+"\" v: \"") || label == key {
				out[i][0], out[i][2] = t.out(it.K), shown(label, it.V)
			}
		}
		j++
		walk(nodes[i].c[1])
	}
	if len(nodes) > 0 {
		walk(0)
	}
	ev["n"] = out
}
