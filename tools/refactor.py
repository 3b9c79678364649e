#!/usr/bin/env python3
"""Rewrites parts of a copy of /repo without changing what they do; every check has to stay quiet on it.

usage: refactor.py DIR [name ...]     rewrites DIR (a copy of /repo)
"""
import glob, os, re, sys


def sub(s, a, b, n=None):
    assert a in s, a
    return s.replace(a, b)


def func(s, head, body):
    """Replaces the function which starts with head."""
    i = s.index(head)
    j = s.index('\n}\n', i) + 3
    return s[:i] + body.strip('\n') + '\n' + s[j:]


def trees(d):
    return [f for f in glob.glob(d + '/strtree/node.go') + glob.glob(d + '/dltree/node.go') + glob.glob(d + '/uintX/strtree*/*.go')
            + glob.glob(d + '/uintX/dltree*/*.go') if not f.endswith('_test.go') and 'inplaceInsert(key' in open(f).read() and ') del(' in open(f).read()]


def redblack(d):
    """isRed, an enumeration with a stack of its own."""
    for f in trees(d):
        s = open(f).read()
        s = sub(s, 'n.chld[dirLeft] != nil && n.chld[dirRight] != nil && n.chld[dirLeft].red && n.chld[dirRight].red',
                'isRed(n.chld[dirLeft]) && isRed(n.chld[dirRight])')
        s = sub(s, '''if (s.chld[dirLeft] == nil || !s.chld[dirLeft].red) &&
						(s.chld[dirRight] == nil || !s.chld[dirRight].red) {''',
                'if !isRed(s.chld[dirLeft]) && !isRed(s.chld[dirRight]) {')
        s = sub(s, '!n.red && (n.chld[dir] == nil || !n.chld[dir].red)', '!n.red && !isRed(n.chld[dir])')
        s += '\nfunc isRed(n *node) bool {\n\treturn n != nil && n.red\n}\n'
        m = re.search(r'func \(n \*node\) enumerate\(ch chan (\w+)\) \{\n(.*?)\n\}\n', s, re.S)
        send = re.search(r'\tch <- .*?\n\n', m.group(2), re.S).group(0).rstrip()
        s = s[:m.start()] + '''func (n *node) enumerate(ch chan %s) {
	stack := []*node{}
	for n != nil || len(stack) > 0 {
		if n != nil {
			stack = append(stack, n)
			n = n.chld[dirLeft]
			continue
		}

		n = stack[len(stack)-1]
		stack = stack[:len(stack)-1]
	%s
		n = n.chld[dirRight]
	}
}
''' % (m.group(1), send) + s[m.end():]
        open(f, 'w').write(s)


def recursive(d):
    """Another loop in lookups of red-black trees."""
    for f in trees(d):
        s = open(f).read()
        m = re.search(r'func \(n \*node\) get\((.*?)\) (\(.*?\)) \{\n.*?\n\}\n', s, re.S)
        b = m.group(0)
        b = b.replace('for n != nil {', 'for {\n\t\tif n == nil {\n\t\t\tbreak\n\t\t}\n')
        s = s.replace(m.group(0), b)
        open(f, 'w').write(s)


def radix(d):
    """Lookups and in-place insertion of radix trees the other way round: loops for recursions and recursions for loops."""
    for f in glob.glob(d + '/numtree/node*.go') + glob.glob(d + '/uintX/iptree*/node*.go'):
        if f.endswith('_test.go'):
            continue
        s = open(f).read()
        N = re.search(r'func \(n \*(\w+)\) match\(', s).group(1)
        up = N[0] == 'N'
        K, B, L, V, C = ('Key', 'Bits', 'Leaf', 'Value', 'Key') if up else ('key', 'bits', 'leaf', 'value', 'key')
        w = '64' if '64' in N else '32'
        size = re.search(r'\b(\w*ey%s\w*BitSize)\b' % w, s).group(1)
        masks = re.search(r'\b(masks%s\w*)\b' % w, s[s.index(') match('):]).group(1)
        head = re.search(r'func \(n \*%s\) match\((.*?)\) \*%s \{' % (N, N), s).group(0)
        s = func(s, head, head + '''
	var best *%(N)s

	for n != nil && n.%(B)s <= bits && (n.%(K)s^key)&%(masks)s[n.%(B)s] == 0 {
		if n.%(L)s {
			best = n
		}

		if n.%(B)s == bits {
			break
		}

		n = n.chld[(key>>(%(size)s-1-n.%(B)s))&1]
	}

	return best
}
''' % locals())
        head = re.search(r'func \(n \*%s\) exactMatch\((.*?)\) \*%s \{' % (N, N), s).group(0)
        s = func(s, head, head + '''
	for n != nil && n.%(B)s < bits && (n.%(K)s^key)&%(masks)s[n.%(B)s] == 0 {
		n = n.chld[(key>>(%(size)s-1-n.%(B)s))&1]
	}

	if n == nil || n.%(B)s != bits || !n.%(L)s || (n.%(K)s^key)&%(masks)s[bits] != 0 {
		return nil
	}

	return n
}
''' % locals())
        head = re.search(r'func \(n \*%s\) enumerate\(ch chan \*%s\) \{' % (N, N), s).group(0)
        s = func(s, head, head + '''
	for stack := []*%(N)s{n}; len(stack) > 0; {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]

		if n.%(L)s {
			ch <- n
		}

		for i := 1; i >= 0; i-- {
			if c := n.chld[i]; c != nil {
				stack = append(stack, c)
			}
		}
	}
}
''' % locals())
        open(f, 'w').write(s)


def domaintree(d):
    """A branch is put together from its end by a recursion; deletion looks for the path first."""
    f = d + '/domaintree/domaintree.go'
    s = open(f).read()
    s = func(s, 'func (n *Node) Insert(', '''
func (n *Node) Insert(d domain.Name, v interface{}) *Node {
	var path []string
	d.GetLabels(func(label string) error {
		path = append(path, label)
		return nil
	})

	return n.with(path, v)
}

func (n *Node) with(path []string, v interface{}) *Node {
	m := n.copy()
	if len(path) <= 0 {
		m.hasValue, m.value = true, v
		return m
	}

	var next *Node
	if item, ok := m.branches.RawGet(path[0]); ok {
		next = item.(*Node)
	}

	m.branches = m.branches.RawInsert(path[0], next.with(path[1:], v))
	return m
}
''')
    s = func(s, 'func (n *Node) Get(', '''
func (n *Node) Get(d domain.Name) (interface{}, bool) {
	var (
		value interface{}
		found bool
	)

	if n == nil {
		return value, found
	}

	visit := func() {
		if n.hasValue {
			value, found = n.value, true
		}
	}

	visit()
	_ = d.GetLabels(func(label string) error {
		item, ok := n.branches.RawGet(label)
		if !ok {
			return errStopIterations
		}

		n = item.(*Node)
		visit()
		return nil
	})

	return value, found
}
''')
    s = func(s, 'func (n *Node) Delete(', '''
func (n *Node) Delete(d domain.Name) (*Node, bool) {
	return n.drop(d, func(m *Node) (*Node, bool) {
		return &Node{branches: m.branches}, m.hasValue
	})
}

func (n *Node) drop(d domain.Name, f func(*Node) (*Node, bool)) (*Node, bool) {
	if n == nil {
		return nil, false
	}

	var path []string
	d.GetLabels(func(label string) error {
		path = append(path, label)
		return nil
	})

	m, ok := n.without(path, f)
	if !ok {
		return n, false
	}

	return m, true
}

func (n *Node) without(path []string, f func(*Node) (*Node, bool)) (*Node, bool) {
	if len(path) <= 0 {
		return f(n)
	}

	item, ok := n.branches.RawGet(path[0])
	if !ok {
		return n, false
	}

	next, ok := item.(*Node).without(path[1:], f)
	if !ok {
		return n, false
	}

	m := n.copy()
	if next.hasValue || !next.branches.IsEmpty() {
		m.branches = m.branches.RawInsert(path[0], next)
	} else {
		m.branches, _ = m.branches.RawDelete(path[0])
	}

	return m, true
}
''')
    s = func(s, 'func (n *Node) DeleteSubdomains(', '''
func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
	return n.drop(d, func(m *Node) (*Node, bool) {
		return new(Node), m.hasValue || !m.branches.IsEmpty()
	})
}
''')
    s = func(s, 'func (n *Node) getBranch(', '')
    s = func(s, 'func (n *Node) copyBranch(', '')
    s = sub(s, '''// maxBranch is maximum number of nodes on the path to a domain (the root and a node for each label).
const maxBranch = domain.MaxLabels + 1

''', '')
    open(f, 'w').write(s)


def iptree(d):
    """Networks are sorted by family in one place; the halves of IPv6 tree have helpers."""
    f = d + '/iptree/iptree.go'
    s = open(f).read()
    s = func(s, 'func (t *Tree) GetByNet(', '''
func (t *Tree) GetByNet(n *net.IPNet) (interface{}, bool) {
	if t == nil || n == nil {
		return nil, false
	}

	if key, bits := iPv4NetToUint32(n); bits >= 0 {
		return t.root32.Match(key, bits)
	}

	MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n)
	if MSBits < 0 {
		return nil, false
	}

	if MSBits == numtree.Key64BitSize {
		if r := t.lower(MSKey); r != nil {
			if v, ok := r.Match(LSKey, LSBits); ok {
				return v, true
			}
		}

		MSBits--
	}

	return t.root64.Match(MSKey, MSBits)
}

// lower gives the tree of lower halves below given upper one.
func (t *Tree) lower(key uint64) *numtree.Node64 {
	if t == nil {
		return nil
	}

	v, ok := t.root64.ExactMatch(key, numtree.Key64BitSize)
	if !ok {
		return nil
	}

	s, ok := v.(subTree64)
	if !ok {
		panic(fmt.Errorf("invalid IPv6 tree: expected subTree64 value at 0x%016x, %d but got %T (%#v)",
			key, numtree.Key64BitSize, v, v))
	}

	return (*numtree.Node64)(s)
}
''')
    s = func(s, 'func (t *Tree) InsertNet(', '''
func (t *Tree) InsertNet(n *net.IPNet, value interface{}) *Tree {
	if n == nil {
		return t
	}

	var out Tree
	if t != nil {
		out = *t
	}

	if key, bits := iPv4NetToUint32(n); bits >= 0 {
		out.root32 = out.root32.Insert(key, bits, value)
		return &out
	}

	MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n)
	switch {
	case MSBits < 0:
		return t

	case MSBits < numtree.Key64BitSize:
		out.root64 = out.root64.Insert(MSKey, MSBits, value)

	default:
		out.root64 = out.root64.Insert(MSKey, MSBits, subTree64(t.lower(MSKey).Insert(LSKey, LSBits, value)))
	}

	return &out
}
''')
    s = func(s, 'func (t *Tree) enumerate(', '''
func (t *Tree) enumerate(ch chan Pair) {
	put := func(ip net.IP, ones int, v interface{}) {
		mask := net.CIDRMask(ones, 8*len(ip))
		ch <- Pair{Key: &net.IPNet{IP: ip.Mask(mask), Mask: mask}, Value: v}
	}

	for n := range t.root32.Enumerate() {
		put(unpackUint32ToIP(n.Key), int(n.Bits), n.Value)
	}

	for n := range t.root64.Enumerate() {
		upper := unpackUint64ToIP(n.Key)
		s, ok := n.Value.(subTree64)
		if !ok {
			put(append(upper, make(net.IP, 8)...), int(n.Bits), n.Value)
			continue
		}

		for m := range (*numtree.Node64)(s).Enumerate() {
			put(append(unpackUint64ToIP(n.Key), unpackUint64ToIP(m.Key)...), numtree.Key64BitSize+int(m.Bits), m.Value)
		}
	}
}
''')
    open(f, 'w').write(s)


def domain(d):
    """One scanner of characters for both passes; readable form by a builder."""
    f = d + '/domain/label.go'
    s = open(f).read()
    s = func(s, 'func MakeHumanReadableLabel(', '''
func MakeHumanReadableLabel(s string) string {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		var e string
		switch c := s[i]; {
		case c == '.' || c == '\\\\':
			e = "\\\\" + string(rune(c))
		case c < '!' || c > '~':
			e = fmt.Sprintf("\\\\%03d", c)
		case c >= 'A' && c <= 'Z':
			e = string(rune(c | 0x20))
		default:
			e = string(rune(c))
		}

		if len(out)+len(e) > 4*MaxLabel {
			break
		}

		out = append(out, e...)
	}

	return string(out)
}
''')
    s = func(s, 'func getLabel(', '''
func getLabel(s string, out []byte) (int, error) {
	j := 1
	for len(s) > 0 {
		c, size, err := scan(s)
		if err != nil {
			return 0, err
		}

		if size == 1 && c == '.' {
			if len(s) > 1 {
				panic(fmt.Errorf("unescaped dot before last %d characters", len(s)-1))
			}

			break
		}

		if j >= len(out) {
			return 0, ErrLabelTooLong
		}

		if 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		}

		out[j] = c
		j++
		s = s[size:]
	}

	out[0] = byte(j - 1)

	return j, nil
}

// scan gives the first character of the text and number of bytes it takes.
func scan(s string) (byte, int, error) {
	if s[0] != '\\\\' {
		return s[0], 1, nil
	}

	if len(s) < 2 {
		return 0, 0, ErrInvalidEscape
	}

	if s[1] < '0' || s[1] > '9' {
		return s[1], 2, nil
	}

	if len(s) < 4 {
		return 0, 0, ErrInvalidEscape
	}

	n := 0
	for _, c := range []byte(s[1:4]) {
		if c < '0' || c > '9' {
			return 0, 0, ErrInvalidEscape
		}

		n = 10*n + int(c-'0')
	}

	if n > math.MaxUint8 {
		return 0, 0, ErrInvalidEscape
	}

	return byte(n), 4, nil
}
''')
    open(f, 'w').write(s)
    f = d + '/domain/name.go'
    s = open(f).read()
    s = func(s, 'func (n Name) GetLabels(', '''
func (n Name) GetLabels(f func(string) error) error {
	for rest := n.c; len(rest) > 0; {
		size := int(rest[0])
		label := rest[1 : size+1]
		rest = rest[size+1:]

		if err := f(label); err != nil {
			return err
		}
	}

	return nil
}
''')
    open(f, 'w').write(s)


def etc(d):
    """Executes to memory first, walks with a work list, selects with a loop."""
    f = d + '/etc/file.go'
    s = open(f).read()
    s = func(s, 'func executeFile(', '''
func executeFile(out, in string, data interface{}) {
	t, err := template.ParseFiles(in)
	if err != nil {
		log.Fatal(err)
	}

	var b bytes.Buffer
	if err := t.Execute(&b, data); err != nil {
		log.Fatal(err)
	}

	if err := ioutil.WriteFile(out, b.Bytes(), 0666); err != nil {
		log.Fatal(err)
	}
}
''').replace('import (\n', 'import (\n\t"bytes"\n\t"io/ioutil"\n')
    open(f, 'w').write(s)
    f = d + '/etc/main.go'
    s = open(f).read()
    i = s.index('func execute(')
    s = s[:i] + '''func execute(name string, data interface{}, prefix []string) {
	for todo := []string{name}; len(todo) > 0; {
		name = todo[0]
		todo = append(one(name, data, prefix), todo[1:]...)
	}
}

// one executes single template and gives everything which is in it.
func one(name string, data interface{}, prefix []string) []string {
	in, err := filepath.Abs(name)
	if err != nil {
		log.Fatal(err)
	}

	fi, err := os.Stat(in)
	if err != nil {
		log.Fatal(err)
	}

	out := executeString(in, data)
	if out == in {
		log.Fatalf("instance name is the same as template name %q", out)
	}

	log.Printf("%q -> %q", getRelName(in, prefix), getRelName(out, prefix))
	if !fi.IsDir() {
		executeFile(out, in, data)
		return nil
	}

	executeDir(out)

	lst, err := ioutil.ReadDir(in)
	if err != nil {
		log.Fatal(err)
	}

	var sub []string
	for _, item := range lst {
		sub = append(sub, path.Join(in, item.Name()))
	}

	return sub
}
'''
    open(f, 'w').write(s)
    f = d + '/etc/data.go'
    s = open(f).read()
    s = func(s, 'func sel(', '''
func sel(path string, m map[interface{}]interface{}) (interface{}, error) {
	var v interface{} = m
	for rest, more := path, len(path) > 0; more; {
		parts := strings.SplitN(rest, ".", 2)

		m, ok := v.(map[interface{}]interface{})
		if !ok {
			return nil, fmt.Errorf("can't go deeper at %q", parts[0])
		}

		if v, ok = m[parts[0]]; !ok {
			return nil, fmt.Errorf("missing %q", parts[0])
		}

		// (a dot at the end selects the map itself)
		if more = len(parts) > 1; more {
			if rest = parts[1]; len(rest) <= 0 {
				if _, ok := v.(map[interface{}]interface{}); !ok {
					return nil, fmt.Errorf("can't go deeper than %q", parts[0])
				}

				more = false
			}
		}
	}

	return v, nil
}
''')
    open(f, 'w').write(s)


ALL = dict((f.__name__, f) for f in (redblack, recursive, radix, domaintree, iptree, domain, etc))
if __name__ == '__main__':
    for n in sys.argv[2:] or ALL:
        ALL[n](sys.argv[1])
