"""Planted bugs: each breaks a property, compiles, and passes the existing tests."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, race=False):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race))


def shbug(id, property, edits, needs, breaks, sh):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, sh=sh))


HEAD = '''
package main

import (
	"fmt"
	"os"
	%s
)

func bad(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}
'''


def prog(imports, body):
    g = 'github.com/infobloxopen/go-trees/'
    imp = '\n\t'.join('"%s"' % (g + i[1:] if i.startswith('/') else i) for i in imports.split())
    return HEAD % imp + body


NET = '''
func cidr(s string) *net.IPNet {
	ip, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	_ = ip
	return n
}
'''

NAME = '''
func name(s string) domain.Name {
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''

bug('c01-comparison-lost', 'C01',
    [('strtree/strtree.go', 'root, ok := t.root.del(key, c)\n', 'root, ok := t.root.del(key, c)\n\tif root == nil {\n\t\treturn NewTree(), ok\n\t}\n')],
    'a tree with custom comparison, the last entry deleted, then insertions again',
    'the tree goes back to the default comparison when its last entry is deleted',
    prog('/strtree strings', '''
func main() {
	t := strtree.NewTreeWithCustomComparison(func(a, b string) int { return strings.Compare(b, a) })
	t = t.Insert("a", 1)
	t, _ = t.Delete("a")
	t = t.Insert("a", 1).Insert("b", 2).Insert("c", 3)
	s := ""
	for p := range t.Enumerate() {
		s += p.Key
	}
	if s != "cba" {
		bad("order %q", s)
	}
}
'''))

bug('c01-replace-spelling', 'C01',
    [('strtree/node.go', '		t.key = n.key\n		t.value = n.value\n', '		if t.key != n.key {\n			t.key = n.key\n		}\n		if t.value == nil || n.value != nil {\n			t.value = n.value\n		}\n')],
    'deletion of an entry with two children whose successor/predecessor holds nil',
    'a nil value is replaced by the value of the deleted entry',
    prog('/strtree', '''
func main() {
	for _, del := range "abcdefg" {
		t := strtree.NewTree()
		for _, c := range "dbfaceg" {
			t = t.Insert(string(c), nil)
		}
		t = t.Insert(string(del), 7)
		t, _ = t.Delete(string(del))
		for p := range t.Enumerate() {
			if p.Value != nil {
				bad("%s holds %v", p.Key, p.Value)
			}
		}
	}
}
'''))

bug('c02-fast-path', 'C02',
    [('dltree/dltree.go', 'import "github.com/infobloxopen/go-trees/domain"', 'import (\n\t"strings"\n\n\t"github.com/infobloxopen/go-trees/domain"\n)'),
     ('dltree/dltree.go', '	dl, _ := domain.MakeLabel(key)\n	return t.root.get(dl)', '	if !strings.ContainsAny(key, "\\\\.") {\n		return t.root.get(strings.ToUpper(key))\n	}\n\n	dl, _ := domain.MakeLabel(key)\n	return t.root.get(dl)')],
    'lookup of a label with raw bytes above 127',
    'lookups fold labels as UTF-8 text when they have no escapes, insertions do not',
    prog('/dltree', '''
func main() {
	k := "caf\\xe9"
	t := dltree.NewTree().Insert(k, 1)
	if _, ok := t.Get(k); !ok {
		bad("%q is lost", k)
	}
	t = dltree.NewTree().Insert("\\xc3\\xa9", 1)
	if _, ok := t.Get("\\xc3\\xa9"); !ok {
		bad("letter is lost")
	}
}
'''))

bug('c02-length-wrap', 'C02',
    [('dltree/node.go', '		r := len(n.key) - len(key)\n		if r == 0 {\n			r = strings.Compare(n.key, key)\n			if r == 0 {\n				return n.value, true\n			}\n		}\n',
      '		r := int(int8(len(n.key)<<2)) - int(int8(len(key)<<2))\n		if len(n.key) == len(key) {\n			r = strings.Compare(n.key, key)\n			if r == 0 {\n				return n.value, true\n			}\n		}\n')],
    'labels of 32 bytes or more together with shorter ones',
    'lookup goes the wrong way when label lengths lie on different sides of 32',
    prog('/dltree strings', '''
func main() {
	t := dltree.NewTree()
	for i := 1; i < 64; i++ {
		t = t.Insert(strings.Repeat("a", i), i)
	}
	for i := 1; i < 64; i++ {
		if v, ok := t.Get(strings.Repeat("A", i)); !ok || v != i {
			bad("%d: %v %v", i, v, ok)
		}
	}
}
'''))

bug('c03-inplace-flip', 'C03',
    [('dltree/node.go', '			if n.chld[dirLeft] != nil && n.chld[dirRight] != nil && n.chld[dirLeft].red && n.chld[dirRight].red {\n				n.red = true\n				n.chld[dirLeft].red = false\n				n.chld[dirRight].red = false\n			}\n',
      '			if n.chld[dirLeft] != nil && n.chld[dirRight] != nil && n.chld[dirLeft].red && n.chld[dirRight].red {\n				n.red = p != root && len(n.key) < 9\n				n.chld[dirLeft].red = false\n				n.chld[dirRight].red = false\n			}\n')],
    'many in-place insertions of labels of nine bytes or more',
    'colour flips stop going up, the tree grows lopsided',
    prog('/dltree reflect', '''
func depth(v reflect.Value) int {
	if v.IsNil() {
		return 0
	}
	c := v.Elem().FieldByName("chld")
	a, b := depth(c.Index(0)), depth(c.Index(1))
	if a < b {
		a = b
	}
	return a + 1
}

func main() {
	t := dltree.NewTree()
	for i := 0; i < 4095; i++ {
		t.InplaceInsert(fmt.Sprintf("host%08d", i), i)
	}
	if d := depth(reflect.ValueOf(t).Elem().FieldByName("root")); d > 26 {
		bad("depth %d", d)
	}
}
'''))

bug('c04-mask-typo', 'C04',
    [('numtree/node64.go', '0xfffffffff0000000, 0xfffffffff8000000, 0xfffffffffc000000,', '0xfffffffff0000000, 0xfffffffff0000000, 0xfffffffffc000000,')],
    '64-bit prefixes of exactly 37 bits',
    'the mask of 37 bits has 36',
    prog('/numtree', '''
func main() {
	var n *numtree.Node64
	n = n.Insert(0x0000000008000000, 37, 1)
	if _, ok := n.Match(0, 64); ok {
		bad("wrong match")
	}
}
'''))

bug('c06-root-join', 'C06',
    [('numtree/node32.go', '	if c == nil && !n.Leaf {', '	if c == nil && !n.Leaf && n.Bits > 0 {')],
    'deletion of the only prefix on one side of a joining node at the very top',
    'a joining node with a single child stays at the root',
    prog('/numtree', '''
func main() {
	var n *numtree.Node32
	n = n.Insert(0, 1, 1).Insert(0x80000000, 1, 2)
	n, _ = n.Delete(0, 1)
	if !n.Leaf {
		a, b := n.Children()
		if a == nil || b == nil {
			bad("joining node with one child")
		}
	}
}
'''))

bug('c07-sixty-four', 'C07',
    [('uintX/iptree16/iptree.go', '		if ok || MSBits < key64BitSize {', '		if ok || LSBits == 0 {')],
    'query by a /64 network that is not stored, with longer networks stored below it and a shorter one above it',
    'the enclosing network is not found',
    prog('/uintX/iptree16 net', NET + '''
func main() {
	t := iptree16.NewTree().InsertNet(cidr("2001:db8::/32"), 1).InsertNet(cidr("2001:db8::1/128"), 2)
	if v, ok := t.GetByNet(cidr("2001:db8::/64")); !ok || v != 1 {
		bad("%v %v", v, ok)
	}
}
'''))

bug('c07-mapped-network', 'C07',
    [('iptree/iptree.go', '	if len(n.IP) != net.IPv6len {\n		return 0, -1, 0, -1\n	}\n\n	ones, bits := n.Mask.Size()\n	if bits != iPv6Bits {\n		return 0, -1, 0, -1\n	}\n',
      '	if len(n.IP) != net.IPv6len {\n		return 0, -1, 0, -1\n	}\n\n	ones, bits := n.Mask.Size()\n	if bits != iPv6Bits {\n		if bits != iPv4Bits || n.IP.To4() == nil {\n			return 0, -1, 0, -1\n		}\n\n		ones += iPv6Bits - iPv4Bits\n	}\n')],
    'a 16-byte mapped address with a 4-byte mask',
    'a malformed network gets stored and found as an IPv6 one',
    prog('/iptree net', '''
func main() {
	n := &net.IPNet{IP: net.ParseIP("192.0.2.1"), Mask: net.CIDRMask(24, 32)}
	t := iptree.NewTree().InsertNet(n, 1)
	for p := range t.Enumerate() {
		bad("stored as %s", p.Key)
	}
}
'''))

bug('c09-aliasing', 'C09',
    [('uintX/iptree32/iptree.go', '					IP:   append(MSIP[0:8], LSIP...).Mask(mask),', '					IP:   append(MSIP[0:8], unpackUint64ToIP(packIPToUint64(LSIP)&masks64[m.bits])...),')],
    'several networks inside of one /64 and a consumer that keeps the keys it got',
    'keys already delivered change when the next one comes as they share memory',
    prog('/uintX/iptree32 net', NET + '''
func main() {
	t := iptree32.NewTree().InsertNet(cidr("2001:db8::1/128"), 1).InsertNet(cidr("2001:db8::2/128"), 2).InsertNet(cidr("2001:db8::3/128"), 3)
	seen := map[string]bool{}
	ps := []iptree32.Pair{}
	for p := range t.Enumerate() {
		ps = append(ps, p)
	}
	for _, p := range ps {
		seen[p.Key.String()] = true
	}
	if len(seen) != 3 {
		bad("%v", seen)
	}
}
'''))

bug('c09-half-mask', 'C09',
    [('iptree/iptree.go', '						IP:   append(MSIP[0:8], LSIP...).Mask(mask),', '						IP:   append(append(net.IP{}, MSIP[0:8]...), LSIP...),')],
    'a network longer than /64 inserted with host bits set',
    'listed addresses keep host bits',
    prog('/iptree net', '''
func main() {
	n := &net.IPNet{IP: net.ParseIP("2001:db8::ff"), Mask: net.CIDRMask(120, 128)}
	for p := range iptree.NewTree().InsertNet(n, 1).Enumerate() {
		if p.Key.String() != "2001:db8::/120" {
			bad("%s", p.Key)
		}
	}
}
'''))

bug('c10-nil-update', 'C10',
    [('iptree/iptree.go', '			newValue, shouldUpdate := callback(Pair{Key: key, Value: n.Value})\n			if shouldUpdate {', '			newValue, shouldUpdate := callback(Pair{Key: key, Value: n.Value})\n			if shouldUpdate && newValue != nil {')],
    'a callback that asks to replace an IPv4 network value by nil',
    'the old value stays',
    prog('/iptree net', NET + '''
func main() {
	t := iptree.NewTree().InsertNet(cidr("10.0.0.0/8"), 1).InsertNet(cidr("10.1.0.0/16"), 2)
	t.UpdateDescendants(cidr("10.0.0.0/8"), func(p iptree.Pair) (interface{}, bool) { return nil, true })
	if v, ok := t.GetByNet(cidr("10.1.0.0/16")); !ok || v != nil {
		bad("%v %v", v, ok)
	}
}
'''))

bug('c10-last-in-half', 'C10',
    [('iptree/iptree.go', '				for n := range (*numtree.Node64)(s).Enumerate() {\n					updateNode64(MSIP, n, callback)\n				}', '				for n := range (*numtree.Node64)(s).Enumerate() {\n					if n.Bits == 0 && target.Bits == n.Bits {\n						continue\n					}\n\n					updateNode64(MSIP, n, callback)\n				}')],
    'a default IPv6 route as target and stored /64 networks',
    '/64 networks below ::/0 are skipped',
    prog('/iptree net', NET + '''
func main() {
	t := iptree.NewTree().InsertNet(cidr("::/0"), 1).InsertNet(cidr("2001:db8::/64"), 2)
	c := 0
	t.UpdateDescendants(cidr("::/0"), func(p iptree.Pair) (interface{}, bool) { c++; return nil, false })
	if c != 1 {
		bad("%d calls", c)
	}
}
'''))

bug('c11-escaped-end', 'C11',
    [('domain/label.go', '	if start < len(s) {\n		if n >= len(offs) {', '	if start < len(s) && !(len(s)-start == 2 && s[start:] == "\\\\.") {\n		if n >= len(offs) {')],
    'a name whose last label is a single escaped dot',
    'the label is taken for the ending dot',
    prog('/domain', '''
func main() {
	n, err := domain.MakeNameFromString("a.\\\\.")
	l := ""
	if err == nil {
		n.GetLabels(func(s string) error { l += "[" + s + "]"; return nil })
	}
	if l != "[.][A]" {
		bad("%q %v", l, err)
	}
}
'''))

bug('c12-del-byte', 'C12',
    [('domain/label.go', "} else if c < '!' || c > '~' {", "} else if c < '!' || c > 0x7f {")],
    'a label with the byte 127',
    'DEL is left as it is in readable text',
    prog('/domain', '''
func main() {
	if s := domain.MakeHumanReadableLabel("a\\x7f"); s != "a\\\\127" {
		bad("%q", s)
	}
}
'''))

bug('c12-full-label', 'C12',
    [('domain/label.go', 'if j >= len(label)-3 {', 'if j+4 >= len(label) {')],
    'a label of 63 bytes all of which need escapes',
    'the last byte is lost',
    prog('/domain strings', '''
func main() {
	l := strings.Repeat("\\x01", 63)
	b, err := domain.MakeLabel(domain.MakeHumanReadableLabel(l))
	if err != nil || b != l {
		bad("%q %v", b, err)
	}
}
'''))

bug('c12-escaped-fold', 'C12',
    [('domain/label.go', "			c = byte(code)\n			if c >= 'a' && c <= 'z' {", "			c = byte(code)\n			if c > 'a' && c <= 'z' {")],
    'the letter a written as \\097',
    'one spelling of a is not folded',
    prog('/domain', '''
func main() {
	a, _ := domain.MakeLabel("\\\\097")
	b, _ := domain.MakeLabel("a")
	if a != b {
		bad("%q %q", a, b)
	}
}
'''))

bug('c13-longest-label', 'C13',
    [('domain/name.go', 'if size < 1 || size > 63 {', 'if size < 1 || size >= 63 {')],
    'a label of exactly 63 bytes',
    'GetLabel refuses it',
    prog('/domain strings', '''
func main() {
	n, _ := domain.MakeNameFromString(strings.Repeat("a", 63) + ".com")
	_, o := n.GetLabel(0)
	if _, o = n.GetLabel(o); o != 0 {
		bad("%d", o)
	}
}
'''))

bug('c14-nil-value', 'C14',
    [('domaintree/domaintree.go', '		if n.hasValue {\n			value = n.value', '		if n.hasValue && n.value != nil {\n			value = n.value')],
    'nil stored for a domain below another stored one',
    'lookup gives the value of the parent',
    prog('/domain /domaintree', NAME + '''
func main() {
	n := new(domaintree.Node).Insert(name("com"), 1).Insert(name("a.com"), nil)
	if v, ok := n.Get(name("a.com")); !ok || v != nil {
		bad("%v %v", v, ok)
	}
}
'''))

bug('c15-leftovers', 'C15',
    [('domaintree/domaintree.go', '		if !n.hasValue && n.branches.IsEmpty() {\n			p.branches, _', '		if !n.hasValue && n.branches.IsEmpty() && i == 0 {\n			p.branches, _')],
    'deletion of a domain several labels below anything else, then of what encloses it',
    'empty nodes stay and a later deletion of subdomains claims success',
    prog('/domain /domaintree', NAME + '''
func main() {
	n := new(domaintree.Node).Insert(name("a.b.c.d.e"), 1).Insert(name("x"), 2)
	n, _ = n.Delete(name("a.b.c.d.e"))
	if _, ok := n.DeleteSubdomains(name("e")); ok {
		bad("nothing was deleted")
	}
}
'''))

bug('c16-unescaped', 'C16',
    [('uintX/domaintree64/node.go', '	ch <- labelPair{Key: domain.MakeHumanReadableLabel(n.key), Value: n.value}', '	key := strings.ToLower(n.key)\n	for i := 0; i < len(key); i++ {\n		if key[i] < \'-\' || key[i] > \'z\' || key[i] == \'\\\\\' {\n			key = domain.MakeHumanReadableLabel(n.key)\n			break\n		}\n	}\n\n	ch <- labelPair{Key: key, Value: n.value}')],
    'a label with a dot in it and nothing else unusual',
    'the dot is listed without its escape',
    prog('/domain /uintX/domaintree64', NAME + '''
func main() {
	n := new(domaintree64.Node).Insert(name("a\\\\.b.com"), 1)
	for p := range n.Enumerate() {
		m := name(p.Key)
		if v, ok := n.Get(m); !ok || v != 1 {
			bad("%q is not there", p.Key)
		}
	}
}
'''))

bug('c17-valueless-copy', 'C17',
    [('domaintree/domaintree.go', '			next = item.(*Node).copy()\n', '			next = item.(*Node)\n			if next.hasValue || next.branches.IsEmpty() {\n				next = next.copy()\n			}\n')],
    'insertion below a domain which is there only because of its subdomains, and use of the earlier version',
    'the earlier version gets the new entry',
    prog('/domain /domaintree', NAME + '''
func main() {
	a := new(domaintree.Node).Insert(name("a.com"), 1)
	a.Insert(name("b.com"), 2)
	if _, ok := a.Get(name("b.com")); ok {
		bad("there")
	}
}
'''))

bug('c19-memo', 'C19',
    [('uintX/strtree8/strtree.go', '	compare Compare\n}\n', '	compare Compare\n\n	last  string\n	value uint8\n	found bool\n}\n'),
     ('uintX/strtree8/strtree.go', '	return t.root.get(key, t.compare)', '	if t.found && t.last == key {\n		return t.value, true\n	}\n\n	v, ok := t.root.get(key, t.compare)\n	t.last, t.value, t.found = key, v, ok\n	return v, ok'),
     ('uintX/strtree8/strtree.go', '	t.root = t.root.inplaceInsert(key, value, t.compare)', '	t.found = false\n	t.root = t.root.inplaceInsert(key, value, t.compare)')],
    'concurrent lookups in one version',
    'lookups write to the shared version',
    prog('/uintX/strtree8 sync', '''
func main() {
	t := strtree8.NewTree()
	for i := 0; i < 60; i++ {
		t = t.Insert(fmt.Sprintf("%03d", i), uint8(i))
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				if v, _ := t.Get(fmt.Sprintf("%03d", i)); v != uint8(i) {
					bad("%d for %d", v, i)
				}
			}
		}()
	}
	wg.Wait()
}
'''), race=True)

bug('c20-zero', 'C20',
    [('uintX/domaintree16/domaintree.go', '		if n.hasValue {\n			value = n.value', '		if n.hasValue && (n.value != 0 || !hasValue) {\n			value = n.value')],
    'zero stored for a subdomain of a stored domain',
    'zero is taken for no value',
    prog('/domain /uintX/domaintree16', NAME + '''
func main() {
	n := new(domaintree16.Node).Insert(name("com"), 1).Insert(name("a.com"), 0)
	if v, ok := n.Get(name("a.com")); !ok || v != 0 {
		bad("%v %v", v, ok)
	}
}
'''))

bug('c20-signed', 'C20',
    [('uintX/iptree64/iptree.go', '			Value: n.value}\n', '			Value: uint64(float64(n.value))}\n')],
    'values above 2^53 of IPv4 networks, enumerated',
    'low bits are lost',
    prog('/uintX/iptree64 net', NET + '''
func main() {
	for p := range iptree64.NewTree().InsertNet(cidr("10.0.0.0/8"), 1<<63+1).Enumerate() {
		if p.Value != 1<<63+1 {
			bad("%x", p.Value)
		}
	}
}
'''))

shbug('c21-template-fallback', 'C21',
    [('uintX/iptree{{.bits}}/iptree.{{.ext}}', 's, ok = t.root64.Match(MSKey, MSBits-1)', 's, ok = t.root64.Match(MSKey, MSBits-2)')],
    'generation from templates, a /63 network and a query inside of it next to a longer network',
    'generated packages miss /63 networks',
    r'''#!/bin/bash
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r "$PWD" "$d/r" && cd "$d/r" || exit 3
go build -o "$d/etc" ./etc || exit 3
cd uintX || exit 3
"$d/etc" -s uint8 -d uintX.yaml -t './iptree{{.bits}}' 2>/dev/null || exit 1
cd .. && mkdir demo && cat > demo/main.go <<'G'
package main

import (
	"net"
	"os"

	"github.com/infobloxopen/go-trees/uintX/iptree8"
)

func main() {
	_, a, _ := net.ParseCIDR("2001:db8::/63")
	_, b, _ := net.ParseCIDR("2001:db8::1/128")
	_, q, _ := net.ParseCIDR("2001:db8::2/128")
	if v, ok := iptree8.NewTree().InsertNet(a, 1).InsertNet(b, 2).GetByNet(q); !ok || v != 1 {
		os.Exit(1)
	}
}
G
go build -o "$d/demo" ./demo || exit 3
"$d/demo"
''')

bug('c23-never-closed', 'C23',
    [('dltree/dltree.go', '	ch := make(chan Pair)\n\n	go func() {\n		defer close(ch)\n\n		if t == nil {\n			return\n		}\n\n		t.root.rawEnumerate(ch)', '	ch := make(chan Pair)\n	if t != nil && t.root == nil {\n		return ch\n	}\n\n	go func() {\n		defer close(ch)\n\n		if t == nil {\n			return\n		}\n\n		t.root.rawEnumerate(ch)')],
    'raw enumeration of an empty label tree',
    'the channel is never closed',
    prog('/dltree time', '''
func main() {
	select {
	case <-dltree.NewTree().RawEnumerate():
	case <-time.After(5 * time.Second):
		bad("not closed")
	}
}
'''))

bug('c24-quotes', 'C24',
    [('uintX/strtree16/node.go', 'k := fmt.Sprintf("%q", n.key)', 'k := "\\"" + n.key + "\\""')],
    'a key with a quote or a backslash',
    'the dump is not well-formed',
    prog('/uintX/strtree16 strings', '''
func main() {
	d := strtree16.NewTree().Insert("a\\"b", 1).Dot()
	if strings.Contains(d, "k: \\\\\\"a\\"b") {
		bad("%s", d)
	}
}
'''))

ETC = r'''#!/bin/bash
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
go build -o "$d/etc" ./etc || exit 3
cd "$d" || exit 3
'''

shbug('c25-missing-selector', 'C25',
    [('etc/data.go', '		if !ok {\n			return nil, fmt.Errorf("missing %q", parts[0])\n		}', '		if !ok && len(parts) > 1 {\n			return nil, fmt.Errorf("missing %q", parts[0])\n		}')],
    'a selector whose last part is missing',
    'files are made out of no data with success',
    ETC + r'''
printf 'x:\n  n: a\n' > d.yaml
printf '{{.v}}' > 't-{{.n}}'
./etc -s x.z -d d.yaml -t './t-{{.n}}' 2>/dev/null && exit 1
exit 0
''')

