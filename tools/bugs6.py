"""More planted bugs."""
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py')).read())
NAME_ = NAME
for _f in ('bugs4.py', 'bugs5.py'):
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), _f)).read())
BUGS = []

bug('c19-names', 'C19',
    [('domain/name.go', '''	var offs [MaxLabels]int

	n, err := markLabels(s, offs[:])''', '''	n, err := markLabels(s, offs[:])'''),
     ('domain/name.go', '''	var (
		label [MaxLabel + 1]byte
		name  [MaxName]byte
	)

	j := 0
	end''', '''	var (
		label [MaxLabel + 1]byte
		name  [MaxName]byte
	)

	j := 0
	end'''),
     ('domain/name.go', '''// MakeNameFromString creates''', '''// offs is a place for offsets of labels (too big to be made every time).
var offs [MaxLabels]int

// MakeNameFromString creates''')],
    'names made by several goroutines at once for their lookups',
    'names and lookups of different goroutines get mixed up',
    prog('/domaintree /domain sync', NAME + r'''
func main() {
	t := new(domaintree.Node).Insert(name("a.b"), 1).Insert(name("long.name.of.something"), 2)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		s := "a.b"
		if i%2 > 0 {
			s = "long.name.of.something"
		}
		want := 1 + i%2
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 10000; j++ {
				if v, ok := t.Get(name(s)); !ok || v != want {
					bad("%s: %v, %v", s, v, ok)
				}
			}
		}()
	}
	wg.Wait()
}
'''), race=True)

shbug('c21-buffer', 'C21',
    [('uintX/iptree{{.bits}}/iptree.{{.ext}}', '''					IP:   append(MSIP[0:8], LSIP...).Mask(mask),
					Mask: mask},
				Value: m.value}''', '''					IP:   maskedIP(append(MSIP[0:8], LSIP...), mask),
					Mask: mask},
				Value: m.value}'''),
     ('uintX/iptree{{.bits}}/iptree.{{.ext}}', '''func iPv4NetToUint32(''', '''// maskedIP clears host bits of the address.
func maskedIP(ip net.IP, mask net.IPMask) net.IP {
	for i := range ip {
		ip[i] &= mask[i]
	}

	return ip
}

func iPv4NetToUint32(''')],
    'generation from templates, several networks longer than /64 in one /64 and a consumer which keeps the keys',
    'networks which were listed before change',
    template_demo(r'''"$d/etc" -s uint8 -d uintX.yaml -t './iptree{{.bits}}' 2>/dev/null || exit 1''', r'''package main

import (
	"net"
	"os"

	"github.com/infobloxopen/go-trees/uintX/iptree8"
)

func main() {
	t := iptree8.NewTree()
	for _, s := range []string{"2001:db8::1/128", "2001:db8::2/128", "2001:db8::3/128"} {
		_, n, _ := net.ParseCIDR(s)
		t = t.InsertNet(n, 1)
	}
	seen := map[string]bool{}
	ks := []*net.IPNet{}
	for p := range t.Enumerate() {
		ks = append(ks, p.Key)
	}
	for _, k := range ks {
		seen[k.String()] = true
	}
	if len(seen) != 3 {
		os.Exit(1)
	}
}
'''))

bug('c10-lookback', 'C10',
    [('iptree/iptree.go', '''type Tree struct {
''', '''type Tree struct {
	m sync.RWMutex

'''),
     ('iptree/iptree.go', '''	if t == nil || n == nil {
		return
	}

	if key''', '''	if t == nil || n == nil {
		return
	}

	t.m.Lock()
	defer t.m.Unlock()

	if key'''),
     ('iptree/iptree.go', '''	if t == nil || n == nil {
		return nil, false
	}
''', '''	if t == nil || n == nil {
		return nil, false
	}

	t.m.RLock()
	defer t.m.RUnlock()
'''),
     ('iptree/iptree.go', '''	"net"
''', '''	"net"
	"sync"
''')],
    'a callback which looks something up in the tree',
    'it never comes back',
    prog('/iptree net time', NET + r'''
func main() {
	t := iptree.NewTree().InsertNet(cidr("10.0.0.0/8"), 1).InsertNet(cidr("10.1.0.0/16"), 2)
	done := make(chan bool)
	go func() {
		t.UpdateDescendants(cidr("10.0.0.0/8"), func(p iptree.Pair) (interface{}, bool) {
			v, _ := t.GetByNet(cidr("10.0.0.0/8"))
			return v.(int) + p.Value.(int), true
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		bad("no end")
	}
	if v, _ := t.GetByNet(cidr("10.1.0.0/16")); v != 3 {
		bad("%v", v)
	}
}
'''))

bug('c13-eof', 'C13',
    [('domain/name.go', '''		if err := f(n.c[off:next]); err != nil {
			return err
		}
''', '''		if err := f(n.c[off:next]); err != nil {
			// Usual way to say that's enough.
			if err == io.EOF {
				return nil
			}

			return err
		}
'''), ('domain/name.go', '''	"fmt"
''', '''	"fmt"
	"io"
''')],
    'a callback which returns io.EOF',
    'the error is lost',
    prog('/domain io', NAME + r'''
func main() {
	if err := name("a.b").GetLabels(func(string) error { return io.EOF }); err != io.EOF {
		bad("%v", err)
	}
}
'''))

bug('c08-everything', 'C08',
    [('iptree/iptree.go', '''		r, ok := t.root32.Delete(key, bits)
		if ok {''', '''		// Everything is to go.
		if bits == 0 {
			return &Tree{root64: t.root64}, t.root32 != nil || t.root64 != nil
		}

		r, ok := t.root32.Delete(key, bits)
		if ok {''')],
    'deletion of the default IPv4 network from a tree with IPv6 networks only',
    'it reports deletion of something',
    prog('/iptree net', NET + r'''
func main() {
	t := iptree.NewTree().InsertNet(cidr("2001:db8::/32"), 1)
	if _, ok := t.DeleteByNet(cidr("0.0.0.0/0")); ok {
		bad("deleted")
	}
}
'''))

bug('c01-size', 'C01',
    [('strtree/strtree.go', '''type Tree struct {
''', '''type Tree struct {
	size    uint16
'''),
     ('strtree/strtree.go', '''	var (
		n *node
		c Compare
	)
''', '''	var (
		n *node
		c Compare
		s uint16
	)

	if _, ok := t.Get(key); !ok {
		s++
	}
'''),
     ('strtree/strtree.go', '''		n = t.root
		c = t.compare
	}

	return &Tree{root: n.insert(key, value, c), compare: c}''', '''		n = t.root
		c = t.compare
		s += t.size
	}

	return &Tree{root: n.insert(key, value, c), compare: c, size: s}'''),
     ('strtree/strtree.go', '''	t.root = t.root.inplaceInsert(key, value, t.compare)''', '''	if _, ok := t.Get(key); !ok {
		t.size++
	}

	t.root = t.root.inplaceInsert(key, value, t.compare)'''),
     ('strtree/strtree.go', '''	root, ok := t.root.del(key, c)
	return &Tree{root: root, compare: c}, ok''', '''	root, ok := t.root.del(key, c)
	if ok && t.size == 1 {
		// It was the last one.
		return &Tree{compare: c}, true
	}

	s := t.size
	if ok {
		s--
	}

	return &Tree{root: root, compare: c, size: s}, ok''')],
    'a tree with more than 65536 entries, of which some are deleted',
    'the deletion of one entry drops all of them',
    prog('/strtree', r'''
func main() {
	t := strtree.NewTree()
	for i := 0; i < 65540; i++ {
		t.InplaceInsert(fmt.Sprintf("%06d", i), i)
	}
	for i := 0; i < 10; i++ {
		t, _ = t.Delete(fmt.Sprintf("%06d", i))
	}
	if _, ok := t.Get("000100"); !ok {
		bad("lost")
	}
}
'''))

bug('c12-final-dot', 'C12',
    [('domain/label.go', '''	var label [MaxLabel + 1]byte

	n, err := getLabel(s, label[:])
	if err != nil {
		return "", err
	}

	return string(label[1:n]), nil''', '''	// No need to go through labels which are too long for sure.
	if len(s) > MaxLabel && strings.IndexByte(s, '\\\\') < 0 {
		return "", ErrLabelTooLong
	}

	var label [MaxLabel + 1]byte

	n, err := getLabel(s, label[:])
	if err != nil {
		return "", err
	}

	return string(label[1:n]), nil'''), ('domain/label.go', '''	"math"
''', '''	"math"
	"strings"
''')],
    'a label of 63 letters followed by a dot',
    'it is rejected',
    prog('/domain strings', r'''
func main() {
	if _, err := domain.MakeLabel(strings.Repeat("a", 63) + "."); err != nil {
		bad("%v", err)
	}
}
'''))


shbug('c25-strings', 'C25',
    [('etc/data.go', '''	return out
}

func sel''', '''	return plain(out)
}

// plain makes a text of every scalar so it doesn't matter how it is quoted in the data.
func plain(v interface{}) interface{} {
	switch v := v.(type) {
	case map[interface{}]interface{}:
		for k := range v {
			v[k] = plain(v[k])
		}

	case []interface{}:
		for i := range v {
			v[i] = plain(v[i])
		}

	default:
		return fmt.Sprint(v)
	}

	return v
}

func sel''')],
    'a condition on a value which is false or zero',
    'false counts as true',
    ETC + r"""
printf 'name: a\nflag: false\n' > d.yaml
printf '{{if .flag}}yes{{else}}no{{end}}' > 't-{{.name}}'
./etc -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
[ "$(cat t-a)" = no ] || exit 1
exit 0
""")

shbug('c25-line-ends', 'C25',
    [('etc/file.go', '''	t, err := template.ParseFiles(in)
	if err != nil {
		log.Fatal(err)
	}
''', '''	text, err := ioutil.ReadFile(in)
	if err != nil {
		log.Fatal(err)
	}

	t, err := template.New(in).Parse(strings.Replace(string(text), "\\r\\n", "\\n", -1))
	if err != nil {
		log.Fatal(err)
	}
'''), ('etc/file.go', '''	"log"
''', '''	"io/ioutil"
	"log"
'''), ('etc/file.go', '''	"os"
''', '''	"os"
	"strings"
''')],
    'a template with line ends of Windows',
    'its line ends change',
    ETC + r"""
printf 'name: a\n' > d.yaml
printf 'a\r\nb' > 't-{{.name}}'
printf 'a\r\nb' > want
./etc -d d.yaml -t './t-{{.name}}' 2>/dev/null || exit 1
cmp -s t-a want || exit 1
exit 0
""")
