import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py')).read())
BUGS = []

bug('c16-long-names', 'C16',
    [('domaintree/domaintree.go', '''		node := item.Value.(*Node)

''', '''		node := item.Value.(*Node)

		// Nothing can be stored below a name of the full length.
		if len(sub) > domain.MaxName {
			continue
		}

''')],
    'a stored name whose escaped text is longer than 255 characters',
    'it is missing in the enumeration',
    prog('/domaintree /domain strings', NAME + r'''
func main() {
	l := strings.Repeat("\\200", 40)
	t := new(domaintree.Node).Insert(name(l+"."+l), 1)
	c := 0
	for range t.Enumerate() {
		c++
	}
	if c != 1 {
		bad("%d domains", c)
	}
}
'''))

bug('c13-last-error', 'C13',
    [('domain/name.go', '''		if err := f(n.c[off:next]); err != nil {
			return err
		}

		off = next''', '''		if err := f(n.c[off:next]); err != nil && next < len(n.c) {
			return err
		}

		off = next''')],
    'a callback which fails on the last label',
    'its error is dropped',
    prog('/domain errors', NAME + r'''
func main() {
	e := errors.New("e")
	err := name("www.example.com").GetLabels(func(s string) error {
		if s == "WWW" {
			return e
		}

		return nil
	})
	if err != e {
		bad("%v", err)
	}
}
'''))

bug('c22-mapped-net', 'C22',
    [('iptree/iptree.go', '''	if len(n.IP) != net.IPv4len {
		return 0, -1
	}

	ones, bits := n.Mask.Size()
	if bits != iPv4Bits {
		return 0, -1
	}

	return packIPToUint32(n.IP), ones''', '''	ip := n.IP.To4()
	if ip == nil {
		return 0, -1
	}

	ones, bits := n.Mask.Size()
	if bits != iPv4Bits {
		return 0, -1
	}

	return packIPToUint32(ip), ones''')],
    'a network with an IPv4-mapped address of 16 bytes and a mask of 4 bytes',
    'the ill-formed network finds an IPv4 entry',
    prog('/iptree net', NET + r'''
func main() {
	t := iptree.NewTree().InsertNet(cidr("10.0.0.0/8"), 1)
	if v, ok := t.GetByNet(&net.IPNet{IP: net.ParseIP("10.1.1.1"), Mask: net.CIDRMask(32, 32)}); ok {
		bad("found %v", v)
	}
}
'''))

bug('c10-shared-key', 'C10',
    [('iptree/iptree.go', '''	key = &net.IPNet{IP: ip.Mask(mask), Mask: mask}

	newValue, shouldUpdate := callback(Pair{Key: key, Value: n.Value})
	if shouldUpdate {
		n.Value = newValue
	}
}
''', '''	for i, m := range mask {
		ip[i] &= m
	}
	key = &net.IPNet{IP: ip, Mask: mask}

	newValue, shouldUpdate := callback(Pair{Key: key, Value: n.Value})
	if shouldUpdate {
		n.Value = newValue
	}
}
''')],
    'a callback which keeps the networks, several of them longer than /64 in one /64 and a shorter target',
    'the networks it has kept change afterwards',
    prog('/iptree net', NET + r'''
func main() {
	t := iptree.NewTree().InsertNet(cidr("2001:db8::/32"), 1).InsertNet(cidr("2001:db8::1/128"), 2).InsertNet(cidr("2001:db8::2/128"), 3)
	k := map[string]bool{}
	nets := []*net.IPNet{}
	t.UpdateDescendants(cidr("2001:db8::/32"), func(p iptree.Pair) (interface{}, bool) { nets = append(nets, p.Key); return nil, false })
	for _, n := range nets {
		k[n.String()] = true
	}
	if len(k) != 2 {
		bad("%v", k)
	}
}
'''))

bug('c19-readable', 'C19',
    [('domain/label.go', '''func MakeHumanReadableLabel(s string) string {
	var label [4 * MaxLabel]byte
''', '''func MakeHumanReadableLabel(s string) string {
	label := &readable
'''),
     ('domain/label.go', '''// MakeHumanReadableLabel makes''', '''// readable saves an allocation for every label.
var readable [4 * MaxLabel]byte

// MakeHumanReadableLabel makes''')],
    'enumerations of label or domain trees at the same time',
    'they write to one buffer: keys of one show up in another',
    prog('/dltree sync', r'''
func main() {
	t := dltree.NewTree()
	for i := 0; i < 200; i++ {
		t = t.Insert(fmt.Sprintf("label-%03d", i), i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 50; r++ {
				for p := range t.Enumerate() {
					if p.Key != fmt.Sprintf("label-%03d", p.Value) {
						bad("%q", p.Key)
					}
				}
			}
		}()
	}
	wg.Wait()
}
'''), race=True)

bug('c07-mapped', 'C07',
    [('iptree/iptree.go', '''	if len(n.IP) != net.IPv4len {
		return 0, -1
	}

	ones, bits := n.Mask.Size()
	if bits != iPv4Bits {
		return 0, -1
	}

	return packIPToUint32(n.IP), ones''', '''	ones, bits := n.Mask.Size()
	if bits == iPv6Bits && ones >= iPv6Bits-iPv4Bits && len(n.IP) == net.IPv6len {
		// IPv4-mapped networks.
		if ip := n.IP.To4(); ip != nil {
			return packIPToUint32(ip), ones - (iPv6Bits - iPv4Bits)
		}
	}

	if len(n.IP) != net.IPv4len || bits != iPv4Bits {
		return 0, -1
	}

	return packIPToUint32(n.IP), ones''')],
    'an IPv6 network inside of ::ffff:0:0/96',
    'it finds entries of IPv4',
    prog('/iptree net', NET + r'''
func main() {
	t := iptree.NewTree().InsertNet(cidr("10.0.0.0/8"), 1)
	if v, ok := t.GetByNet(&net.IPNet{IP: net.ParseIP("::ffff:10.1.0.0"), Mask: net.CIDRMask(112, 128)}); ok {
		bad("found %v", v)
	}
}
'''))


def template_demo(gen, main):
    return r'''#!/bin/bash
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r "$PWD" "$d/r" && cd "$d/r" || exit 3
go build -o "$d/etc" ./etc || exit 3
cd uintX || exit 3
''' + gen + r'''
cd .. && mkdir demo && cat > demo/main.go <<'G'
''' + main + r'''
G
go build -o "$d/demo" ./demo || exit 3
"$d/demo"
'''


shbug('c21-shared-sibling', 'C21',
    [('uintX/domaintree{{.bits}}/node.{{.ext}}', '''				n.chld[nDir] = n.chld[nDir].fullCopy()
				p.chld[pDir] = n.single(nDir)''', '''				p.chld[pDir] = n.single(nDir)''')],
    'generation from templates, then deletions from a domain tree that go past a red sibling',
    'earlier versions of the trees of generated packages change',
    template_demo(r'''"$d/etc" -s uint16 -d uintX.yaml -t './domaintree{{.bits}}' 2>/dev/null || exit 1''', r'''package main

import (
	"fmt"
	"math/rand"
	"os"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/uintX/domaintree16"
)

func name(i int) domain.Name {
	d, err := domain.MakeNameFromString(fmt.Sprintf("n%03d.test", i))
	if err != nil {
		panic(err)
	}

	return d
}

func list(t *domaintree16.Node) string {
	s := ""
	for p := range t.Enumerate() {
		s += fmt.Sprint(p)
	}

	return s
}

func main() {
	r := rand.New(rand.NewSource(1))
	for n := 0; n < 50; n++ {
		t := new(domaintree16.Node)
		for i := 0; i < 40; i++ {
			t = t.Insert(name(i), uint16(i))
		}
		for _, i := range r.Perm(40)[:20] {
			t, _ = t.Delete(name(i))
		}
		was := list(t)
		for i := 0; i < 40; i++ {
			t.Delete(name(i))
			if list(t) != was {
				os.Exit(1)
			}
		}
	}
}
'''))

shbug('c21-comparison', 'C21',
    [('uintX/strtree{{.bits}}/strtree.{{.ext}}', '''	root, ok := t.root.del(key, c)
	return &Tree{root: root, compare: c}, ok''', '''	root, ok := t.root.del(key, c)
	if root == nil {
		return NewTree(), ok
	}

	return &Tree{root: root, compare: c}, ok''')],
    'generation from templates, a tree with a custom comparison of which the last entry is deleted and which is used on',
    'the comparison is lost',
    template_demo(r'''"$d/etc" -s uint64 -d uintX.yaml -t './strtree{{.bits}}' 2>/dev/null || exit 1''', r'''package main

import (
	"os"
	"strings"

	"github.com/infobloxopen/go-trees/uintX/strtree64"
)

func main() {
	t := strtree64.NewTreeWithCustomComparison(func(a, b string) int { return strings.Compare(strings.ToLower(a), strings.ToLower(b)) })
	t, _ = t.Insert("a", 1).Delete("A")
	if v, ok := t.Insert("b", 2).Get("B"); !ok || v != 2 {
		os.Exit(1)
	}
}
'''))

KEPT = r'''
type token struct {
	self *token
	pad  [8]int
}

func value(gone *int32) *token {
	t := new(token)
	runtime.SetFinalizer(t, func(*token) { atomic.AddInt32(gone, 1) })
	return t
}

func collected(gone *int32, n int32) bool {
	for i := 0; i < 100; i++ {
		runtime.GC()
		if atomic.LoadInt32(gone) >= n {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}
'''

bug('c29-tombstone', 'C29',
    [('domaintree/domaintree.go', '''	n = nodes[i]
	i++

	branches := n.branches''', '''	last := nodes[i].copy()
	last.hasValue = false
	i++

	branches := last.branches'''),
     ('domaintree/domaintree.go', '''		n.branches = n.branches.RawInsert(labels[i], &Node{branches: branches})
''', '''		n.branches = n.branches.RawInsert(labels[i], last)
''')],
    'deletion of a domain which has subdomains; nothing but memory shows',
    'the tree keeps the deleted value in memory',
    prog('/domaintree /domain runtime sync/atomic time', NAME + KEPT + r'''
func main() {
	var gone int32
	t := new(domaintree.Node).Insert(name("test"), value(&gone)).Insert(name("www.test"), 1)
	t, _ = t.Delete(name("test"))
	if !collected(&gone, 1) {
		bad("the value is kept")
	}
	runtime.KeepAlive(t)
}
'''))

bug('c29-previous', 'C29',
    [('strtree/strtree.go', '''	root, ok := t.root.del(key, c)
	return &Tree{root: root, compare: c}, ok''', '''	root, ok := t.root.del(key, c)
	return &Tree{root: root, compare: c, last: t}, ok'''),
     ('strtree/strtree.go', '''type Tree struct {
''', '''type Tree struct {
	// last is the version before the deletion (see Restored).
	last *Tree
'''),
     ('strtree/strtree.go', '''// IsEmpty''', '''// Restored returns the version of which the tree is made by deletion (nil if there is no such).
func (t *Tree) Restored() *Tree {
	if t == nil {
		return nil
	}

	return t.last
}

// IsEmpty''')],
    'deletions from a tree; nothing but memory shows',
    'a version keeps all versions it is made from, with everything deleted',
    prog('/strtree runtime sync/atomic time', KEPT + r'''
func main() {
	var gone int32
	t := strtree.NewTree().Insert("a", value(&gone)).Insert("b", 1)
	t, _ = t.Delete("a")
	if !collected(&gone, 1) {
		bad("the value is kept")
	}
	runtime.KeepAlive(t)
}
'''))


bug('c23-limit', 'C23',
    [('domaintree/domaintree.go', '''	go func() {
		defer close(ch)
		n.enumerate("", ch)
	}()''', '''	go func() {
		defer close(ch)

		// Don't let enumerations eat the machine.
		enumerations <- struct{}{}
		defer func() { <-enumerations }()

		n.enumerate("", ch)
	}()'''),
     ('domaintree/domaintree.go', '''// Enumerate ''', '''// enumerations limits number of enumerations in progress.
var enumerations = make(chan struct{}, 64)

// Enumerate ''')],
    'more than 64 enumerations in progress at once which are read in turns',
    'the 65th gives nothing until another one is over',
    prog('/domaintree /domain time', NAME + r'''
func main() {
	t := new(domaintree.Node).Insert(name("a"), 1).Insert(name("b"), 2)
	chs := []chan domaintree.Pair{}
	for i := 0; i < 100; i++ {
		chs = append(chs, t.Enumerate())
	}
	for _, ch := range chs {
		select {
		case <-ch:
		case <-time.After(10 * time.Second):
			bad("nothing comes")
		}
	}
}
'''))
