import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py')).read())
BUGS = []
ETC = '''d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(. /opt/vp/env.sh; go build -o "$d/etc" ./etc) || exit 3
cd "$d" || exit 3
'''

shbug('c25-half-written', 'C25',
    [('etc/file.go', '''	if err := t.Execute(f, data); err != nil {
		log.Fatal(err)
	}''', '''	if err := t.Execute(f, data); err != nil {
		log.Print(err)
	}''')],
    'a template whose text fails when it is executed',
    'the generator goes on and reports success though the file is cut off',
    ETC + r"""
printf 'one:\n  name: a\n' > d.yaml
mkdir 't-{{.name}}'
printf 'x{{index .name 99}}y' > 't-{{.name}}/f'
./etc -s one -d d.yaml -t './t-{{.name}}' 2>/dev/null && exit 1
exit 0
""")

shbug('c25-in-the-way', 'C25',
    [('etc/file.go', '''	if err := os.MkdirAll(name, 0755); err != nil {
		log.Fatal(err)
	}''', '''	if _, err := os.Stat(name); err == nil {
		return
	}

	if err := os.MkdirAll(name, 0755); err != nil {
		log.Fatal(err)
	}''')],
    'a file in place of the directory to be made of an empty template directory',
    'success is reported and there is no directory',
    ETC + r"""
printf 'one:\n  name: a\n' > d.yaml
mkdir 't-{{.name}}'
printf 'x' > t-a
./etc -s one -d d.yaml -t './t-{{.name}}' 2>/dev/null && exit 1
exit 0
""")

COST = '''
func objects(f func()) float64 { return testing.AllocsPerRun(5, f) }
'''

bug('c28-compact', 'C28',
    [('strtree/strtree.go', '''	root, ok := t.root.del(key, c)
	return''', '''	root, ok := t.root.del(key, c)
	if ok {
		// Don't keep memory of the original tree.
		root = root.compact()
	}

	return'''),
     ('strtree/node.go', '''func (n *node) fullCopy() *node {''', '''func (n *node) compact() *node {
	if n == nil {
		return nil
	}

	m := n.fullCopy()
	for i, c := range n.chld {
		m.chld[i] = c.compact()
	}

	return m
}

func (n *node) fullCopy() *node {''')],
    'deletion from a big tree, nothing but its cost shows',
    'every deletion copies the whole tree',
    prog('/strtree testing', COST + '''
func main() {
	t := strtree.NewTree()
	for i := 0; i < 1<<13; i++ {
		t.InplaceInsert(fmt.Sprint(i), i)
	}
	if n := objects(func() { t.Delete("17") }); n > 1000 {
		bad("%f objects", n)
	}
}
'''))

bug('c28-branches', 'C28',
    [('domaintree/domaintree.go', '''	return &Node{
		branches: n.branches,
		hasValue: n.hasValue,
		value:    n.value,
	}
}
''', '''	m := &Node{
		hasValue: n.hasValue,
		value:    n.value,
	}

	for item := range n.branches.RawEnumerate() {
		m.branches = m.branches.RawInsert(item.Key, item.Value)
	}

	return m
}
''')],
    'a domain with thousands of direct subdomains',
    'an insertion under the domain rebuilds the tree of all its branches',
    prog('/domaintree /domain testing', NAME + COST + '''
func main() {
	t := new(domaintree.Node)
	for i := 0; i < 1<<11; i++ {
		t.InplaceInsert(name(fmt.Sprintf("d%d.com", i)), i)
	}
	d := name("a.com")
	if n := objects(func() { t.Insert(d, 0) }); n > 1000 {
		bad("%f objects", n)
	}
}
'''))

bug('c28-unshared-radix', 'C28',
    [('uintX/iptree32/node32.go', '''	m := newNode32(n.key, n.bits, n.leaf, n.value)
	m.chld = n.chld

	// (branch for the candidate is''', '''	m := newNode32(n.key, n.bits, n.leaf, n.value)
	for i, c := range n.chld {
		m.chld[i] = c.clone()
	}

	// (branch for the candidate is'''),
     ('uintX/iptree32/node32.go', '''func (n *node32) enumerate(ch ''', '''func (n *node32) clone() *node32 {
	if n == nil {
		return nil
	}

	m := newNode32(n.key, n.bits, n.leaf, n.value)
	m.chld = [2]*node32{n.chld[0].clone(), n.chld[1].clone()}
	return m
}

func (n *node32) enumerate(ch ''')],
    'insertion to a big tree, nothing but its cost shows',
    'an insertion clones subtrees on the way',
    prog('/uintX/iptree32 net testing', NET + COST + '''
func main() {
	t := iptree32.NewTree()
	for i := 0; i < 1<<12; i++ {
		t.InplaceInsertIP(net.IPv4(10, 0, byte(i>>8), byte(i)), uint32(i))
	}
	n := cidr("10.0.0.0/31")
	if n := objects(func() { t.InsertNet(n, 1) }); n > 1000 {
		bad("%f objects", n)
	}
}
'''))

bug('c13-nameless', 'C13',
    [('domain/name.go', '''		if err != nil {
			panic(fmt.Errorf("can't make %q from %q (%s): %s", reflectNameType, t, s, err))
		}

		return n
''', '''		if err != nil && t.Kind() != reflect.Ptr {
			panic(fmt.Errorf("can't make %q from %q (%s): %s", reflectNameType, t, s, err))
		}

		return n
''')],
    'a reflected pointer to an invalid text',
    'a name with the text but without labels (the root!) is extracted instead of a panic',
    prog('/domain reflect', NAME + '''
func main() {
	defer func() {
		if recover() == nil {
			bad("no panic")
		}
	}()
	s := "a..b"
	domain.MakeNameFromReflection(reflect.ValueOf(&s))
}
'''))

shbug('c25-clean', 'C25',
    [('etc/file.go', """	if err := os.MkdirAll(name, 0755); err != nil {""", """	if err := os.RemoveAll(name); err != nil {
		log.Fatal(err)
	}

	if err := os.MkdirAll(name, 0755); err != nil {""")],
    'an instance directory which holds a file the template knows nothing of, next to instances made by another entry',
    'what another template made in the directory is lost',
    ETC + r"""
printf 'one:\n  name: a\n' > d.yaml
mkdir 't-{{.name}}' t-a
printf 'keep' > t-a/other
printf 'x' > 't-{{.name}}/f'
./etc -s one -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
[ "$(cat t-a/other)" = keep ] || exit 1
[ "$(cat t-a/f)" = x ] || exit 1
exit 0
""")

shbug('c25-batch', 'C25',
    [('etc/main.go', """		lst, err := ioutil.ReadDir(absName)
		if err != nil {
			log.Fatal(err)
		}
""", """		d, err := os.Open(absName)
		if err != nil {
			log.Fatal(err)
		}

		lst, err := d.Readdir(64)
		d.Close()
		if err != nil && err != io.EOF {
			log.Fatal(err)
		}
"""), ('etc/main.go', """	"io/ioutil"
""", """	"io"
""")],
    'a template directory with more than 64 entries',
    'the entries past the 64th have no instance',
    ETC + r"""
printf 'one:\n  name: a\n' > d.yaml
mkdir 't-{{.name}}'
i=0; while [ $i -lt 100 ]; do printf $i > "t-{{.name}}/f$i"; i=$((i+1)); done
./etc -s one -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
i=0; while [ $i -lt 100 ]; do [ "$(cat t-a/f$i)" = $i ] || exit 1; i=$((i+1)); done
exit 0
""")

shbug('c25-selector', 'C25',
    [('etc/data.go', """		parts := strings.SplitN(path, ".", 2)
""", """		parts := strings.Split(path, ".")
"""), ('etc/data.go', """		if len(parts) > 1 {
			m, ok""", """		if len(parts) > 1 && len(parts[1]) > 0 {
			m, ok""")],
    'a selector of three parts or one which ends with a dot',
    'the third part of the selector is ignored',
    ETC + r"""
printf 'one:\n  two:\n    name: a\n    three:\n      name: b\n' > d.yaml
printf '{{.name}}' > 't-{{.name}}'
./etc -s one.two.three -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
[ "$(cat t-b)" = b ] || exit 1
exit 0
""")
