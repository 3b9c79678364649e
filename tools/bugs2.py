import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py')).read())
BUGS = []

bug('c05-nil-leaf', 'C05',
    [('numtree/node64.go', '	if c == nil && !n.Leaf {', '	if c == nil && n.Value == nil {')],
    'deletion of the only prefix on a side of a stored prefix with nil as value',
    'a stored prefix with a nil value vanishes',
    prog('/numtree', '''
func main() {
	var n *numtree.Node64
	n = n.Insert(0, 8, nil).Insert(0x0001000000000000, 16, 2)
	n, _ = n.Delete(0x0001000000000000, 16)
	if _, ok := n.ExactMatch(0, 8); !ok {
		bad("lost")
	}
}
'''))

bug('c11-brace-fold', 'C11',
    [('domain/label.go', "			if c < '0' || c > '9' {\n				if c >= 'a' && c <= 'z' {", "			if c < '0' || c > '9' {\n				if c >= 'a' && c <= '{' {")],
    'an escaped opening brace',
    'the brace turns to a bracket',
    prog('/domain', NAME + '''
func main() {
	name("a\\\\{").GetLabels(func(s string) error {
		if s != "A{" {
			bad("%q", s)
		}
		return nil
	})
}
'''))

bug('c17-shared-sibling', 'C17',
    [('uintX/strtree64/node.go', '				n.chld[nDir] = n.chld[nDir].fullCopy()\n				p.chld[pDir] = n.single(nDir)', '				p.chld[pDir] = n.single(nDir)')],
    'deletions from a tree that go past a red sibling',
    'the earlier version loses entries',
    prog('/uintX/strtree64 math/rand', '''
func main() {
	r := rand.New(rand.NewSource(1))
	for n := 0; n < 50; n++ {
		t := strtree64.NewTree()
		for i := range r.Perm(40) {
			t = t.Insert(fmt.Sprintf("%03d", i), uint64(i))
		}
		for _, i := range r.Perm(40)[:20] {
			t, _ = t.Delete(fmt.Sprintf("%03d", i))
		}
		was := ""
		for p := range t.Enumerate() {
			was += p.Key
		}
		for i := 0; i < 40; i++ {
			t.Delete(fmt.Sprintf("%03d", i))
			is := ""
			for p := range t.Enumerate() {
				is += p.Key
			}
			if is != was {
				bad("%s then %s", was, is)
			}
		}
	}
}
'''))

bug('c17-joining-in-place', 'C17',
    [('numtree/node64.go', '	m := newNode64(n.Key, n.Bits, n.Leaf, n.Value)\n	m.chld = n.chld\n\n	m.chld[branch] = c\n	return m, true', '	m := n\n	if n.Leaf || bits == Key64BitSize {\n		m = newNode64(n.Key, n.Bits, n.Leaf, n.Value)\n		m.chld = n.chld\n	}\n\n	m.chld[branch] = c\n	return m, true')],
    'deletion of a prefix shorter than 64 bits below a joining node, and use of the earlier version',
    'the earlier version loses entries',
    prog('/numtree', '''
func main() {
	var n *numtree.Node64
	n = n.Insert(0x1000000000000000, 8, 1).Insert(0x8000000000000000, 8, 2).Insert(0x1010000000000000, 16, 3)
	n.Delete(0x1010000000000000, 16)
	if v, ok := n.ExactMatch(0x1010000000000000, 16); !ok || v != 3 {
		bad("%v %v", v, ok)
	}
}
'''))

bug('c19-colours', 'C19',
    [('strtree/node.go', '							s.chld[nPDir] = s.chld[nPDir].fullCopy()\n', '')],
    'concurrent deletions from one version which rotate past a sibling with a red child',
    'nodes of the shared version are recoloured without synchronization',
    prog('/strtree sync math/rand', '''
func main() {
	r := rand.New(rand.NewSource(1))
	for n := 0; n < 20; n++ {
		t := strtree.NewTree()
		for _, i := range r.Perm(60) {
			t = t.Insert(fmt.Sprintf("%03d", i), i)
		}
		for _, i := range r.Perm(60)[:20] {
			t, _ = t.Delete(fmt.Sprintf("%03d", i))
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 60; i++ {
					t.Delete(fmt.Sprintf("%03d", i))
					t.Insert(fmt.Sprintf("x%03d", i), 1)
				}
			}()
		}
		wg.Wait()
	}
}
'''), race=True)

bug('c19-buffer', 'C19',
    [('domain/label.go', '	var label [MaxLabel + 1]byte\n\n	n, err := getLabel(s, label[:])\n	if err != nil {\n		return "", err\n	}\n\n	return string(label[1:n]), nil', '	n, err := getLabel(s, buffer[:])\n	if err != nil {\n		return "", err\n	}\n\n	return string(buffer[1:n]), nil'),
     ('domain/label.go', '// MakeLabel makes', 'var buffer [MaxLabel + 1]byte\n\n// MakeLabel makes')],
    'concurrent lookups in a label tree',
    'lookups share a buffer for the label and look for keys of each other',
    prog('/dltree sync', '''
func main() {
	t := dltree.NewTree()
	for i := 0; i < 60; i++ {
		t = t.Insert(fmt.Sprintf("%03d", i), i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				if v, _ := t.Get(fmt.Sprintf("%03d", i)); v != i {
					bad("%v for %d", v, i)
				}
			}
		}()
	}
	wg.Wait()
}
'''), race=True)

bug('c19-lazy', 'C19',
    [('uintX/domaintree32/domaintree.go', '	value, hasValue := n.value, n.hasValue\n\n	d.GetLabels(func(label string) error {\n', '	value, hasValue := n.value, n.hasValue\n\n	d.GetLabels(func(label string) error {\n		if n.branches == nil {\n			n.branches = newLabelTree()\n		}\n\n')],
    'concurrent lookups below a domain without subdomains',
    'lookups write to the shared version',
    prog('/domain /uintX/domaintree32 sync', NAME + '''
func main() {
	n := new(domaintree32.Node).Insert(name("com"), 1)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n.Get(name("a.com"))
		}()
	}
	wg.Wait()
}
'''), race=True)

bug('c22-clamp', 'C22',
    [('numtree/node64.go', '	} else if bits > Key64BitSize {\n		bits = Key64BitSize\n	}\n\n	r := n.exactMatch', '	}\n\n	r := n.exactMatch')],
    'exact lookup with a prefix length above 64',
    'a full-length prefix is not found',
    prog('/numtree', '''
func main() {
	var n *numtree.Node64
	if _, ok := n.Insert(5, 65, 1).ExactMatch(5, 65); !ok {
		bad("not found")
	}
}
'''))

bug('c23-leak', 'C23',
    [('domaintree/domaintree.go', '		node.enumerate(sub, ch)\n	}\n', '		node.enumerate(sub, ch)\n		if len(sub) > 245 && !node.hasValue {\n			break\n		}\n	}\n')],
    'names of full length under one parent',
    'siblings are dropped and the goroutine behind them stays',
    prog('/domain /domaintree strings', NAME + '''
func main() {
	l := strings.Repeat("a", 63)
	p := l + "." + l + "." + l + "." + strings.Repeat("a", 55)
	n := new(domaintree.Node).Insert(name("b.c."+p), 1).Insert(name("b.d."+p), 2)
	c := 0
	for range n.Enumerate() {
		c++
	}
	if c != 2 {
		bad("%d", c)
	}
}
'''))

bug('c23-pooled', 'C23',
    [('uintX/strtree8/node.go', 'func (n *node) enumerate(ch chan Pair) {\n	if n == nil {\n		return\n	}\n\n	n.chld[dirLeft].enumerate(ch)\n\n	ch <- Pair{Key: n.key, Value: n.value}\n\n	n.chld[dirRight].enumerate(ch)\n}',
      'var stacks = sync.Pool{New: func() interface{} { return new([128]*node) }}\n\nfunc (n *node) enumerate(ch chan Pair) {\n	if n == nil {\n		return\n	}\n\n	s := stacks.Get().(*[128]*node)\n	stacks.Put(s)\n\n	i := 0\n	for n != nil || i > 0 {\n		for n != nil {\n			s[i] = n\n			i++\n			n = n.chld[dirLeft]\n		}\n\n		i--\n		n = s[i]\n		ch <- Pair{Key: n.key, Value: n.value}\n		n = n.chld[dirRight]\n	}\n}'),
     ('uintX/strtree8/node.go', 'import "fmt"', 'import (\n\t"fmt"\n\t"sync"\n)')],
    'two enumerations at once',
    'enumerations use one stack and mix up their places',
    prog('/uintX/strtree8', '''
func main() {
	t, u := strtree8.NewTree(), strtree8.NewTree()
	for i := 0; i < 20; i++ {
		t = t.Insert(fmt.Sprintf("a%03d", i), uint8(i))
		u = u.Insert(fmt.Sprintf("b%03d", i), uint8(i))
	}
	for try := 0; try < 50; try++ {
		a, b := t.Enumerate(), u.Enumerate()
		for i := 0; i < 20; i++ {
			if x, y := <-a, <-b; x.Key != fmt.Sprintf("a%03d", i) || y.Key != fmt.Sprintf("b%03d", i) {
				bad("%d: %s %s", i, x.Key, y.Key)
			}
		}
	}
}
'''))

bug('c24-wide', 'C24',
    [('dltree/node.go', '			body += fmt.Sprintf("N%d -> { N%d N%d }\\n", i, i+len(queue), i+len(queue)+1)', '			l, r := uint16(i)+uint16(uint8(len(queue))), uint16(i)+uint16(uint8(len(queue)))+1\n			body += fmt.Sprintf("N%d -> { N%d N%d }\\n", i, l, r)')],
    'a tree with more than 255 nodes on one level',
    'edges lead to wrong nodes',
    prog('/dltree strings', '''
func main() {
	t := dltree.NewTree()
	for i := 0; i < 2000; i++ {
		t = t.Insert(fmt.Sprintf("h%d", i), i)
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(t.Dot(), "\\n") {
		f := strings.Fields(l)
		if len(f) == 6 && f[1] == "->" {
			if seen[f[3]] || seen[f[4]] {
				bad("%s", l)
			}
			seen[f[3]], seen[f[4]] = true, true
		}
	}
}
'''))

shbug('c25-no-truncate', 'C25',
    [('etc/file.go', 'f, err := os.Create(out)', 'f, err := os.OpenFile(out, os.O_WRONLY|os.O_CREATE, 0644)')],
    'a second run with shorter output',
    'the end of the previous output stays',
    ETC + r'''
printf 'one:\n  name: a\n  v: a long text\ntwo:\n  name: a\n  v: short\n' > d.yaml
printf '{{.v}}' > 't-{{.name}}'
./etc -s one -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
./etc -s two -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
[ "$(cat t-a)" = short ]
''')

shbug('c25-html', 'C25',
    [('etc/file.go', '"text/template"', '"html/template"')],
    'data with characters special to HTML',
    'contents get HTML escapes',
    ETC + r'''
printf "one:\n  name: a\n  v: \"a&b<c>\"\n" > d.yaml
printf '{{.v}}' > 't-{{.name}}'
./etc -s one -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
[ "$(cat t-a)" = 'a&b<c>' ]
''')

shbug('c25-parents', 'C25',
    [('etc/file.go', 'os.MkdirAll(name, 0755); err != nil {', 'os.Mkdir(name, 0755); err != nil && !os.IsExist(err) {')],
    'a placeholder filled with a path of several directories',
    'parent directories are not created',
    ETC + r'''
printf "one:\n  name: a/b/c\n" > d.yaml
mkdir 't-{{.name}}'
./etc -s one -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
[ -d t-a/b/c ]
''')

shbug('c25-deep', 'C25',
    [('etc/data.go', 'strings.SplitN(path, ".", 2)', 'strings.SplitN(path, ".", 3)')],
    'a selector of three parts or more',
    'the third part is not followed',
    ETC + r'''
printf "one:\n  two:\n    name: wrong\n    three:\n      name: a\n" > d.yaml
printf 'x' > 't-{{.name}}'
./etc -s one.two.three -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
[ -f t-a ]
''')

shbug('c25-file-onto-template', 'C25',
    [('etc/main.go', '	if newName == absName {', '	if newName == absName && fi.IsDir() {')],
    'a template file whose path has no placeholder',
    'the template gets overwritten',
    ETC + r'''
printf "one:\n  name: a\n" > d.yaml
printf '{{.name}}' > t
./etc -s one -d d.yaml -t ./t 2>/dev/null && exit 1
[ "$(cat t)" = '{{.name}}' ]
''')

bug('c18-nil', 'C18',
    [('strtree/node.go', '				g = gp\n			} else {\n				gp.chld[grandParentDir] = g.double(parentDir)\n				p = gp\n			}\n		}\n\n		r = compare(n.key, key)\n	}\n\n	n.value = value\n', '				g = gp\n			} else {\n				gp.chld[grandParentDir] = g.double(parentDir)\n				p = gp\n			}\n		}\n\n		r = compare(n.key, key)\n	}\n\n	if value != nil {\n		n.value = value\n	}\n')],
    'in-place replacement of a value by nil',
    'the old value stays',
    prog('/strtree', '''
func main() {
	t := strtree.NewTree()
	t.InplaceInsert("a", 1)
	t.InplaceInsert("a", nil)
	if v, ok := t.Get("a"); !ok || v != nil {
		bad("%v %v", v, ok)
	}
}
'''))

bug('c04-leading', 'C04',
    [('numtree/node32.go', 'if n.Bits == bits {\n		// return current node only if it contains data (leaf node) and masked keys are equal.\n		if n.Leaf && (n.Key^key)&masks32[n.Bits] == 0 {\n			return n\n		}\n\n		return nil\n	}\n\n	// If key can be contained by current tree node -\n	if (n.Key^key)&masks32[n.Bits] != 0 {\n		// but it isn\'t report nothing.\n		return nil\n	}\n\n	// Otherwise jump to branch by key bit right after NSB of current tree node\n	c := n.chld[(key>>(Key32BitSize-1-n.Bits))&1]\n	if c != nil {\n		// and check if child on the branch has anything.\n		r := c.match(',
      'if n.Bits == bits {\n		// return current node only if it contains data (leaf node) and masked keys are equal.\n		if n.Leaf && (n.Key^key)&masks32[n.Bits] == 0 {\n			return n\n		}\n\n		return nil\n	}\n\n	// If key can be contained by current tree node -\n	if (n.Key^key)&masks32[n.Bits] != 0 {\n		// but it isn\'t report nothing.\n		return nil\n	}\n\n	// Otherwise jump to branch by key bit right after NSB of current tree node\n	c := n.chld[(key>>(Key32BitSize-1-n.Bits))&1]\n	if c != nil && (c.Bits < bits || c.Key == key) {\n		// and check if child on the branch has anything.\n		r := c.match(')],
    'a stored prefix queried by itself with bits beyond its length',
    'the prefix is not found below its parent when the query is not masked the same way',
    prog('/numtree', '''
func main() {
	var n *numtree.Node32
	n = n.Insert(0, 8, 1).Insert(0x00010000, 16, 2)
	if v, ok := n.Match(0x000100ff, 16); !ok || v != 2 {
		bad("%v %v", v, ok)
	}
}
'''))

bug('c08-inner-only', 'C08',
    [('iptree/iptree.go', '				if r == nil {\n					r64, _ = r64.Delete(MSKey, MSBits)', '				if r == nil && LSBits > 0 {\n					r64, _ = r64.Delete(MSKey, MSBits)')],
    'deletion of a whole /64 by itself, then of what encloses it',
    'an empty inner tree stays, so a later deletion claims to have removed something',
    prog('/iptree net', NET + '''
func main() {
	t := iptree.NewTree().InsertNet(cidr("2001:db8::1/128"), 1)
	t, _ = t.DeleteByNet(cidr("2001:db8::/64"))
	if _, ok := t.DeleteByNet(cidr("2001:db8::/32")); ok {
		bad("deleted nothing successfully")
	}
}
'''))

bug('c22-long-ip', 'C22',
    [('uintX/iptree64/iptree.go', '	if len(n.IP) != net.IPv6len {', '	if len(n.IP) < net.IPv6len {')],
    'an address of more than 16 bytes',
    'its beginning acts as an IPv6 network',
    prog('/uintX/iptree64 net', NET + '''
func main() {
	t := iptree64.NewTree().InsertNet(&net.IPNet{IP: make(net.IP, 17), Mask: net.CIDRMask(8, 128)}, 1)
	for p := range t.Enumerate() {
		bad("%s", p.Key)
	}
}
'''))
