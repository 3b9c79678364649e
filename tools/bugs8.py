"""More planted bugs."""
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py')).read())
BUGS = []

bug('c18-subroot', 'C18',
    [('iptree/iptree.go', 'newR := r.InplaceInsert(LSKey, LSBits, value)\n\t\t\t\tif newR != r {', 'newR := r.InplaceInsert(LSKey, LSBits, value)\n\t\t\t\tif newR.Bits+2 != r.Bits {')],
    'in-place insertion of an IPv6 network longer than /64 which is two bits shorter than all that is stored in its /64',
    'the network is not inserted',
    prog('/iptree net', NET + r'''
func main() {
	a, b := iptree.NewTree(), iptree.NewTree()
	for i, s := range []string{"2001:db8::1/128", "2001:db8::/126", "2001:db8:1::/72"} {
		a.InplaceInsertNet(cidr(s), i)
		b = b.InsertNet(cidr(s), i)
	}
	for _, s := range []string{"2001:db8::1/128", "2001:db8::/126", "2001:db8:1::/72"} {
		v, ok := a.GetByNet(cidr(s))
		w, ok2 := b.GetByNet(cidr(s))
		if v != w || ok != ok2 {
			bad("%s: %v, %v instead of %v, %v", s, v, ok, w, ok2)
		}
	}
}
'''))

bug('c01-same-content', 'C01',
    [('strtree/node.go', 'import "fmt"\n', 'import (\n\t"fmt"\n\t"reflect"\n)\n'),
     ('strtree/node.go', '\tn.value = value\n\n\tn = root.chld[dirRight]\n\tn.red = false\n\treturn n\n}\n\nfunc (n *node) inplaceInsert(', '\tif !reflect.DeepEqual(n.value, value) {\n\t\tn.value = value\n\t}\n\n\tn = root.chld[dirRight]\n\tn.red = false\n\treturn n\n}\n\nfunc (n *node) inplaceInsert(')],
    'a key inserted again with another pointer to an equal value',
    'the tree keeps the pointer it had',
    prog('/strtree', r'''
func main() {
	x, y := 1, 1
	t := strtree.NewTree().Insert("a", &x).Insert("a", &y)
	y = 2
	v, _ := t.Get("a")
	if p, ok := v.(*int); !ok || *p != 2 {
		bad("another value: %v", v)
	}
}
'''))

bug('c07-same-content', 'C07',
    [('numtree/node32.go', 'import (', 'import (\n\t"reflect"')],
    '', '', '')
BUGS.pop()

bug('c05-root-join', 'C05',
    [('numtree/node64.go', 'if c == nil && !n.Leaf {', 'if c == nil && !n.Leaf && (n.Bits > 0 || n.chld[1-branch] != nil && n.chld[1-branch].Bits < 64) {')],
    'one of two full length keys in different halves of all keys is deleted, then everything else',
    'the deletion of everything leaves a tree which is not empty and tells twice that it deleted something',
    prog('/numtree', r'''
func main() {
	var t *numtree.Node64
	t = t.Insert(1, 64, "a").Insert(1<<63, 64, "b")
	t, _ = t.Delete(1, 64)
	t, ok := t.Delete(1<<63, 64)
	if !ok {
		bad("not deleted")
	}
	if _, ok := t.Delete(0, 0); ok {
		bad("nothing to delete but it is told something is")
	}
}
'''))
