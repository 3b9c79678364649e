"""More planted bugs."""
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py')).read())
BUGS = []
G = 'github.com/infobloxopen/go-trees/'

FLIP = 'if n.chld[dirLeft] != nil && n.chld[dirRight] != nil && n.chld[dirLeft].red && n.chld[dirRight].red {\n\t\t\t\tn.red = true\n\t\t\t\tc = '
bug('c03-long', 'C03',
    [('strtree/node.go', FLIP, FLIP.replace('if n.', 'if len(key) < 100 && n.'))],
    'persistent insertions of many keys of 100 bytes and more, in order',
    'the tree gets a path far longer than the logarithm',
    prog('/strtree strings', r'''
func main() {
	count := 0
	t := strtree.NewTreeWithCustomComparison(func(a, b string) int { count++; return strings.Compare(a, b) })
	n := 2000
	long := strings.Repeat("x", 120)
	for i := 0; i < n; i++ {
		t = t.Insert(fmt.Sprintf("%s%06d", long, i), i)
	}
	for i := 0; i < n; i++ {
		count = 0
		if v, ok := t.Get(fmt.Sprintf("%s%06d", long, i)); !ok || v != i {
			bad("%d: %v, %v", i, v, ok)
		}
		if count > 30 {
			bad("%d comparisons for %d", count, i)
		}
	}
}
'''))

bug('c06-last-bit', 'C06',
    [('numtree/node64.go', 'if c == nil && !n.Leaf {\n\t\treturn n.chld[1-branch], true', 'if c == nil && !n.Leaf && n.Bits < Key64BitSize-1 {\n\t\treturn n.chld[1-branch], true')],
    'two keys of 64 bits which differ in the last bit only, one of them deleted',
    'a joining node with one child stays in the tree',
    prog('/numtree', r'''
func main() {
	var t *numtree.Node64
	t = t.Insert(0x10, 64, 1).Insert(0x11, 64, 2)
	t, ok := t.Delete(0x11, 64)
	if !ok || t == nil {
		bad("nothing deleted")
	}
	if l, r := t.Children(); !t.Leaf && (l == nil || r == nil) {
		bad("a joining node with one child")
	}
	if v, ok := t.ExactMatch(0x10, 64); !ok || v != 1 {
		bad("%v, %v", v, ok)
	}
}
'''))

bug('c05-joining', 'C05',
    [('numtree/node32.go', 'if bits <= n.Bits {\n\t\tif (n.Key^key)&masks32[bits] == 0 {\n\t\t\treturn nil, true', 'if bits < n.Bits || bits == n.Bits && n.chld[0] == nil {\n\t\tif (n.Key^key)&masks32[bits] == 0 {\n\t\t\treturn nil, true'),
     ('numtree/node32.go', 'if (n.Key^key)&masks32[n.Bits] != 0 {\n\t\treturn n, false\n\t}\n\n\tbranch', 'if (n.Key^key)&masks32[n.Bits] != 0 {\n\t\treturn n, false\n\t}\n\n\tif bits == n.Bits {\n\t\tif n.Leaf && n.chld[1] == nil {\n\t\t\treturn n.chld[0].del(n.chld[0].Key, n.Bits)\n\t\t}\n\n\t\treturn nil, true\n\t}\n\n\tbranch')],
    'deletion of a prefix with something stored in its lower half only, which is itself a joining node or has two',
    'deletion breaks',
    prog('/numtree', r'''
func main() {
	var t *numtree.Node32
	t = t.Insert(0x0a000000, 8, 1).Insert(0x0a010000, 16, 2).Insert(0x0a020000, 16, 3)
	r, ok := t.Delete(0x0a000000, 8)
	if !ok {
		bad("nothing deleted")
	}
	for n := range r.Enumerate() {
		bad("%x/%d stays", n.Key, n.Bits)
	}
}
'''))

bug('c15-deepest', 'C15',
    [('domaintree/domaintree.go', 'const maxBranch = domain.MaxLabels + 1', 'const maxBranch = domain.MaxLabels'),
     ('domaintree/domaintree.go', '''		n = next.(*Node)

		i--
		nodes[i] = n''', '''		n = next.(*Node)

		if i == 0 {
			return errStopIterations
		}

		i--
		nodes[i] = n''')],
    'a stored domain of as many labels as there may be (127), deleted',
    'it is never deleted',
    prog('/domaintree /domain strings', NAME + r'''
func main() {
	n := name(strings.Repeat("a.", 127))
	t := new(domaintree.Node).Insert(n, 1).Insert(name("a"), 2)
	t, ok := t.Delete(n)
	if !ok {
		bad("not deleted")
	}
	if v, _ := t.Get(n); v != 2 {
		bad("%v is there", v)
	}
}
'''))

bug('c04-root-join', 'C04',
    [('numtree/node64.go', '''func (n *Node64) exactMatch(key uint64, bits uint8) *Node64 {
	if n.Bits > bits {
		return nil
	}

	if n.Bits == bits {
		if n.Leaf && ''', '''func (n *Node64) exactMatch(key uint64, bits uint8) *Node64 {
	if n.Bits > bits {
		return nil
	}

	if n.Bits == bits {
		if (n.Leaf || bits < 1) && ''')],
    'prefixes in both halves of all keys, the prefix of no bits not stored',
    'the prefix of no bits is found without being stored',
    prog('/numtree', r'''
func main() {
	var t *numtree.Node64
	t = t.Insert(0x1000000000000000, 4, 1).Insert(0xf000000000000000, 4, 2)
	if v, ok := t.ExactMatch(0, 0); ok {
		bad("%v", v)
	}
	if t.FindNode(0, 0) != nil {
		bad("a node")
	}
}
'''))

bug('c01-long', 'C01',
    [('strtree/strtree.go', '\treturn &Tree{compare: strings.Compare}', '\treturn &Tree{compare: compareKeys}'),
     ('strtree/strtree.go', '// NewTreeWithCustomComparison', '''// maxCompare is the number of bytes compared.
const maxCompare = 0xffff

func compareKeys(a, b string) int {
	if len(a) > maxCompare && len(b) > maxCompare {
		return strings.Compare(a[:maxCompare], b[:maxCompare])
	}

	return strings.Compare(a, b)
}

// NewTreeWithCustomComparison''')],
    'keys of more than 65535 bytes which differ only in what comes after these',
    'two keys share an entry',
    prog('/strtree strings', r'''
func main() {
	long := strings.Repeat("x", 70000)
	t := strtree.NewTree().Insert(long+"a", 1).Insert(long+"b", 2)
	if v, ok := t.Get(long + "a"); !ok || v != 1 {
		bad("%v, %v", v, ok)
	}
}
'''))

bug('c02-tail', 'C02',
    [('dltree/node.go', '''		r = len(n.key) - len(key)
		if r == 0 {
			r = strings.Compare(n.key, key)
		}''', '''		r = len(n.key) - len(key)
		if r == 0 {
			r = compareTails(n.key, key)
		}''')],
    'x', 'x', prog('/dltree', 'func main() {}'))
BUGS.pop()

bug('c12-any-string', 'C12',
    [('domain/label.go', '''			if j >= len(label)-1 {
				return string(label[:j])
			}

			label[j] = '\\\\'
			label[j+1] = c''', '''			if j > len(label)-1 {
				return string(label[:j])
			}

			label[j] = '\\\\'
			label[j+1] = c''')],
    'a string of more than a hundred bytes with a dot or backslash at the very place where the buffer ends',
    'a crash',
    prog('/domain strings', r'''
func main() {
	for n := 0; n < 600; n++ {
		for _, s := range []string{".", "\\", "\x00", "a"} {
			for _, c := range []string{".", "\\", "\x00", "a"} {
				domain.MakeHumanReadableLabel(strings.Repeat(s, n) + strings.Repeat(c, 200))
			}
		}
	}
}
'''))

bug('c29-scratch', 'C29',
    [('domaintree/domaintree.go', '''	var (
		labels [maxBranch]string
		nodes  [maxBranch]*Node
	)

	i := n.getBranch(d, labels[:], nodes[:])
	if i >= len(nodes) || !nodes[i].hasValue {
		return n, false
	}
''', '''	b := getBranchBuffer()
	defer b.release()

	labels, nodes := &b.labels, &b.nodes

	i := n.getBranch(d, labels[:], nodes[:])
	if i >= len(nodes) || !nodes[i].hasValue {
		return n, false
	}
'''), ('domaintree/domaintree.go', '''func (n *Node) copy() *Node {''', '''// branchBuffer is a place for a path in the tree.
type branchBuffer struct {
	labels [maxBranch]string
	nodes  [maxBranch]*Node
}

// branchBuffers are buffers ready to use.
var branchBuffers = make(chan *branchBuffer, 4)

func getBranchBuffer() *branchBuffer {
	select {
	case b := <-branchBuffers:
		return b
	default:
	}

	return new(branchBuffer)
}

func (b *branchBuffer) release() {
	select {
	case branchBuffers <- b:
	default:
	}
}

func (n *Node) copy() *Node {''')],
    'a deletion from a version which is dropped afterwards',
    'nodes of the old version stay in memory',
    prog('/domaintree /domain runtime time', NAME + r'''
func main() {
	gone := make(chan bool, 1)
	func() {
		v := new([100]byte)
		runtime.SetFinalizer(v, func(*[100]byte) { gone <- true })
		t := new(domaintree.Node).Insert(name("a.b"), v)
		t, ok := t.Delete(name("a.b"))
		if !ok {
			bad("not deleted")
		}
	}()
	for i := 0; i < 100; i++ {
		runtime.GC()
		select {
		case <-gone:
			return
		case <-time.After(10 * time.Millisecond):
		}
	}
	bad("kept")
}
'''))

bug('c17-half', 'C17',
    [('iptree/iptree.go', '''				if r == nil {
					r64, _ = r64.Delete(MSKey, MSBits)
				} else {
					r64 = r64.Insert(MSKey, MSBits, subTree64(r))
				}
''', '''				if r == nil {
					r64, _ = r64.Delete(MSKey, MSBits)
				} else {
					r64 = r64.InplaceInsert(MSKey, MSBits, subTree64(r))
				}
''')],
    'a deletion of one of several IPv6 networks with the same first 64 bits',
    'the version before loses the network too',
    prog('/iptree net', NET + r'''
func main() {
	t := iptree.NewTree().InsertNet(cidr("2001:db8::/96"), 1).InsertNet(cidr("2001:db8::1:0:0/96"), 2)
	d, ok := t.DeleteByNet(cidr("2001:db8::/96"))
	if !ok {
		bad("not deleted")
	}
	if v, ok := t.GetByNet(cidr("2001:db8::/96")); !ok || v != 1 {
		bad("gone from the earlier version: %v, %v", v, ok)
	}
	if v, ok := d.GetByNet(cidr("2001:db8::/96")); ok {
		bad("%v stays", v)
	}
}
'''))

bug('c28-listing', 'C28',
    [('numtree/node64.go', '''		n.enumerate(ch)
	}()''', '''		for _, n := range n.leaves() {
			ch <- n
		}
	}()'''),
     ('numtree/node64.go', '''func (n *Node64) enumerate(ch chan *Node64) {
	if n.Leaf {
		ch <- n
	}

	if n.chld[0] != nil {
		n.chld[0].enumerate(ch)
	}

	if n.chld[1] != nil {
		n.chld[1].enumerate(ch)
	}
}
''', '''// leaves lists nodes of the tree from the last one to the first one to put each before what it contains.
func (n *Node64) leaves() []*Node64 {
	var out []*Node64

	stack := []*Node64{n}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]

		if n.Leaf {
			out = append(make([]*Node64, 0, len(out)+1), append(out, n)...)
		}

		for i := len(n.chld) - 1; i >= 0; i-- {
			if n.chld[i] != nil {
				stack = append(stack, n.chld[i])
			}
		}
	}

	return out
}
''')],
    'an enumeration of a tree of thousands of entries',
    'an enumeration takes memory for the square of the number of entries',
    prog('/numtree runtime', r'''
func main() {
	var t *numtree.Node64
	n := 4000
	for i := 0; i < n; i++ {
		t = t.InplaceInsert(uint64(i)<<20, 64, i)
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	i := 0
	for x := range t.Enumerate() {
		if x.Value != i {
			bad("%v at %d", x.Value, i)
		}
		i++
	}
	runtime.ReadMemStats(&b)
	if i != n {
		bad("%d entries", i)
	}
	if b.TotalAlloc-a.TotalAlloc > uint64(n)*2000 {
		bad("%d bytes", b.TotalAlloc-a.TotalAlloc)
	}
}
'''))

bug('c01-narrow', 'C01',
    [('uintX/strtree16/node.go', '''		r := compare(n.key, key)

		if r == 0 {
			return n.value, true
		}
''', '''		r := int32(compare(n.key, key))

		if r == 0 {
			return n.value, true
		}
''')],
    'a custom comparison which tells order by big numbers (differences of 64 bit numbers, for instance)',
    'different keys are equal',
    prog('/uintX/strtree16 strings', r'''
func main() {
	t := strtree16.NewTreeWithCustomComparison(func(a, b string) int { return strings.Compare(a, b) << 40 })
	t = t.Insert("a", 1).Insert("b", 2)
	if v, ok := t.Get("a"); !ok || v != 1 {
		bad("%v, %v", v, ok)
	}
	if v, ok := t.Get("b"); !ok || v != 2 {
		bad("%v, %v", v, ok)
	}
}
'''))

bug('c18-sixty-four', 'C18',
    [('iptree/iptree.go', '				if newR != r {\n\t\t\t\t\tt.root64', '				if newR != r && LSBits > 0 {\n\t\t\t\t\tt.root64')],
    'a network of 64 bits put in place into a tree with one below it',
    'the network is lost',
    prog('/iptree net', NET + r'''
func main() {
	t := iptree.NewTree()
	t.InplaceInsertNet(cidr("2001:db8::/96"), 1)
	t.InplaceInsertNet(cidr("2001:db8::/64"), 2)
	if v, ok := t.GetByNet(cidr("2001:db8:0:0:1::/80")); !ok || v != 2 {
		bad("%v, %v", v, ok)
	}
}
'''))

bug('c08-empty-half', 'C08',
    [('iptree/iptree.go', '''				if r == nil {
					r64, _ = r64.Delete(MSKey, MSBits)
				} else {''', '''				if r == nil && LSBits <= 0 {
					r64, _ = r64.Delete(MSKey, MSBits)
				} else {''')],
    'the last one of networks longer than 64 bits deleted, then one which would contain it',
    'deletion of nothing reports true',
    prog('/iptree net', NET + r'''
func main() {
	t := iptree.NewTree().InsertNet(cidr("2001:db8::/96"), 1).InsertNet(cidr("10.0.0.0/8"), 2)
	t, ok := t.DeleteByNet(cidr("2001:db8::/96"))
	if !ok {
		bad("not deleted")
	}
	if _, ok := t.DeleteByNet(cidr("2001:db8::/32")); ok {
		bad("deleted once more")
	}
}
'''))

bug('c03-del', 'C03',
    [('strtree/node.go', '''						n.red = true
						g.chld[gpDir].red = true
						g.chld[gpDir].chld[dirLeft].red = false
						g.chld[gpDir].chld[dirRight].red = false''', '''						n.red = true
						g.chld[gpDir].red = g.red
						g.chld[gpDir].chld[dirLeft].red = false
						g.chld[gpDir].chld[dirRight].red = false''')],
    'many deletions after insertions', 'the tree loses its balance', 'x')

bug('c14-inplace-value', 'C14',
    [('uintX/domaintree32/domaintree.go', '''			next := &Node{branches: newLabelTree()}
''', '''			next := &Node{branches: newLabelTree(), value: n.value}
''')], 'x', 'x', 'x')
BUGS.pop()
BUGS.pop()

bug('c15-sub-of-root', 'C15',
    [('uintX/domaintree64/domaintree.go', 'if i >= len(nodes) || !nodes[i].hasValue && n.branches.IsEmpty() {', 'if i >= len(nodes) || !nodes[i].hasValue && nodes[i].branches.IsEmpty() {')],
    'x', 'x', 'x')
BUGS.pop()

bug('c16-siblings', 'C16',
    [('dltree/node.go', 'func (n *node) enumerate(ch chan Pair) {', 'func (n *node) enumerate(ch chan Pair) {')], 'x', 'x', 'x')
BUGS.pop()

bug('c22-update-nil', 'C22',
    [('iptree/iptree.go', '''	if t == nil || n == nil {
		return
	}

	if key, bits := iPv4NetToUint32(n); bits >= 0 {
		target''', '''	if n == nil {
		return
	}

	if key, bits := iPv4NetToUint32(n); bits >= 0 {
		target''')],
    'UpdateDescendants on a nil tree with a sound network',
    'a crash',
    prog('/iptree net', NET + r'''
func main() {
	var t *iptree.Tree
	t.UpdateDescendants(cidr("10.0.0.0/8"), func(p iptree.Pair) (interface{}, bool) {
		bad("called")
		return nil, false
	})
}
'''))
