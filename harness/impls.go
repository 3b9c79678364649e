package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"strings"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/numtree"
	"github.com/infobloxopen/go-trees/strtree"
	"github.com/infobloxopen/go-trees/uintX/domaintree16"
	"github.com/infobloxopen/go-trees/uintX/domaintree32"
	"github.com/infobloxopen/go-trees/uintX/domaintree64"
	"github.com/infobloxopen/go-trees/uintX/domaintree8"
	"github.com/infobloxopen/go-trees/uintX/iptree16"
	"github.com/infobloxopen/go-trees/uintX/iptree32"
	"github.com/infobloxopen/go-trees/uintX/iptree64"
	"github.com/infobloxopen/go-trees/uintX/iptree8"
	"github.com/infobloxopen/go-trees/uintX/strtree16"
	"github.com/infobloxopen/go-trees/uintX/strtree32"
	"github.com/infobloxopen/go-trees/uintX/strtree64"
	"github.com/infobloxopen/go-trees/uintX/strtree8"
)

func anyTreeValues() []interface{} {
	var n64 *numtree.Node64
	var n32 *numtree.Node32
	var dt *domaintree.Node
	return []interface{}{n64.Insert(1, 64, "in"), n64, n32, n32.Insert(1, 32, "in"), dt, new(domaintree.Node), dltree.NewTree(), strtree.NewTree()}
}

type base struct{ name, feat string }

func (b base) Name() string                        { return b.name }
func (b base) Features() string                    { return b.feat }
func (base) DelSub(Ver, Key) (Ver, bool)           { panic("harness: not supported") }
func (base) GetExact(Ver, Key) int                 { panic("harness: not supported") }
func (base) Empty(Ver) bool                        { panic("harness: not supported") }
func (base) Update(Ver, Key, func(int) int) []Call { panic("harness: not supported") }
func (base) Dot(Ver) string                        { panic("harness: not supported") }

func stream[R any](ch <-chan R, f func(R) Item) func() (Item, bool) {
	return func() (Item, bool) {
		r, ok := <-ch
		if !ok {
			return Item{}, false
		}
		return f(r), true
	}
}

// ---------------------------------------------------------------- strings

var cmpCount int64

func upASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func first(s string) string {
	if len(s) > 1 {
		return s[:1]
	}
	return s
}

// far makes any number of the sign of c; all that the sign of a comparison means doesn't depend on its size.
func far(c int, a, b string) int {
	if c == 0 {
		return 0
	}
	x := 0
	for i := 0; i < len(a) && i < len(b); i++ {
		x += int(a[i]) + int(b[i])
	}
	m := []int{1, 1 << 8, 1 << 16, 1 << 32, 1 << 48, math.MaxInt, 1 << 31, 1000}[(x+len(a)+len(b))%8]
	if c > 0 {
		return m
	}
	if m == math.MaxInt {
		return math.MinInt
	}
	return -m
}

var compares = map[string]func(a, b string) int{
	"lexc": func(a, b string) int { return bytes.Compare([]byte(a), []byte(b)) },
	"rev":  func(a, b string) int { return far(strings.Compare(b, a), a, b) },
	"len": func(a, b string) int {
		if len(a) != len(b) {
			return len(a) - len(b)
		}
		return strings.Compare(a, b)
	},
	"fold":  func(a, b string) int { return far(7*strings.Compare(upASCII(a), upASCII(b)), a, b) },
	"first": func(a, b string) int { return strings.Compare(first(a), first(b)) },
	"one":   func(a, b string) int { return 0 },
	"count": func(a, b string) int { cmpCount++; return strings.Compare(a, b) },
}

type strTree[P any, V any, R any] interface {
	Insert(string, V) P
	InplaceInsert(string, V)
	Get(string) (V, bool)
	Delete(string) (P, bool)
	Enumerate() chan R
	IsEmpty() bool
	Dot() string
}

type strImpl[P strTree[P, V, R], V any, R any] struct {
	base
	c    Codec[V]
	mk   func() P
	mkc  func(func(a, b string) int) P
	pair func(R) (string, V)
}

func (i strImpl[P, V, R]) New(cmp string) Ver {
	if cmp == "lex" {
		return i.mk()
	}
	return i.mkc(compares[cmp])
}
func (i strImpl[P, V, R]) Nil() Ver { var p P; return p }
func (i strImpl[P, V, R]) Ins(v Ver, k Key, id int) Ver {
	return v.(P).Insert(string(k.B), i.c.enc(id))
}
func (i strImpl[P, V, R]) Inp(v Ver, k Key, id int) Ver {
	v.(P).InplaceInsert(string(k.B), i.c.enc(id))
	return v
}
func (i strImpl[P, V, R]) Del(v Ver, k Key) (Ver, bool) {
	p, ok := v.(P).Delete(string(k.B))
	return p, ok
}
func (i strImpl[P, V, R]) Get(v Ver, k Key) int     { return i.c.got(v.(P).Get(string(k.B))) }
func (i strImpl[P, V, R]) Empty(v Ver) bool         { return v.(P).IsEmpty() }
func (i strImpl[P, V, R]) Value(id int) interface{} { return i.c.enc(id) }
func (i strImpl[P, V, R]) Dot(v Ver) string         { return v.(P).Dot() }
func (i strImpl[P, V, R]) Open(v Ver, _ int) func() (Item, bool) {
	return stream(v.(P).Enumerate(), func(r R) Item {
		k, x := i.pair(r)
		return Item{Key{F: "b", B: []byte(k)}, i.c.dec(x)}
	})
}

// ---------------------------------------------------------------- labels

type labelImpl struct {
	base
	c Codec[interface{}]
}

func (i labelImpl) New(string) Ver { return dltree.NewTree() }
func (i labelImpl) Nil() Ver       { var p *dltree.Tree; return p }
func (i labelImpl) Ins(v Ver, k Key, id int) Ver {
	if k.F == "b" {
		return v.(*dltree.Tree).RawInsert(string(k.B), i.c.enc(id))
	}
	return v.(*dltree.Tree).Insert(string(k.B), i.c.enc(id))
}
func (i labelImpl) Inp(v Ver, k Key, id int) Ver {
	if k.F == "b" {
		v.(*dltree.Tree).RawInplaceInsert(string(k.B), i.c.enc(id))
	} else {
		v.(*dltree.Tree).InplaceInsert(string(k.B), i.c.enc(id))
	}
	return v
}
func (i labelImpl) Del(v Ver, k Key) (Ver, bool) {
	if k.F == "b" {
		p, ok := v.(*dltree.Tree).RawDelete(string(k.B))
		return p, ok
	}
	p, ok := v.(*dltree.Tree).Delete(string(k.B))
	return p, ok
}
func (i labelImpl) Get(v Ver, k Key) int {
	if k.F == "b" {
		return i.c.got(v.(*dltree.Tree).RawGet(string(k.B)))
	}
	return i.c.got(v.(*dltree.Tree).Get(string(k.B)))
}
func (i labelImpl) Empty(v Ver) bool         { return v.(*dltree.Tree).IsEmpty() }
func (i labelImpl) Value(id int) interface{} { return i.c.enc(id) }
func (i labelImpl) Dot(v Ver) string         { return v.(*dltree.Tree).Dot() }
func (i labelImpl) Open(v Ver, variant int) func() (Item, bool) {
	ch, f := v.(*dltree.Tree).Enumerate, "t"
	if variant%2 == 1 {
		ch, f = v.(*dltree.Tree).RawEnumerate, "b"
	}
	return stream(ch(), func(r dltree.Pair) Item { return Item{Key{F: f, B: []byte(r.Key)}, i.c.dec(r.Value)} })
}

// ---------------------------------------------------------------- radix

func u32(b []byte) uint32 { return binary.BigEndian.Uint32(b) }
func u64(b []byte) uint64 { return binary.BigEndian.Uint64(b) }
func b32(x uint32) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], x); return b[:] }
func b64(x uint64) []byte { var b [8]byte; binary.BigEndian.PutUint64(b[:], x); return b[:] }

type radix32 struct {
	base
	c Codec[interface{}]
}

func (i radix32) New(string) Ver { var p *numtree.Node32; return p }
func (i radix32) Nil() Ver       { var p *numtree.Node32; return p }
func (i radix32) Ins(v Ver, k Key, id int) Ver {
	return v.(*numtree.Node32).Insert(u32(k.B), k.N, i.c.enc(id))
}
func (i radix32) Inp(v Ver, k Key, id int) Ver {
	return v.(*numtree.Node32).InplaceInsert(u32(k.B), k.N, i.c.enc(id))
}
func (i radix32) Del(v Ver, k Key) (Ver, bool) {
	p, ok := v.(*numtree.Node32).Delete(u32(k.B), k.N)
	return p, ok
}
func (i radix32) Get(v Ver, k Key) int { return i.c.got(v.(*numtree.Node32).Match(u32(k.B), k.N)) }
func (i radix32) GetExact(v Ver, k Key) int {
	n := v.(*numtree.Node32).FindNode(u32(k.B), k.N)
	r := i.c.got(v.(*numtree.Node32).ExactMatch(u32(k.B), k.N))
	if n == nil {
		if r == gotAbsent {
			return r
		}
		return gotNonZero
	}
	if !n.Leaf || i.c.dec(n.Value) != r {
		return gotUnknown
	}
	return r
}
func (i radix32) item(n *numtree.Node32) Item {
	if n == nil || !n.Leaf {
		return Item{Key{F: "x", B: []byte{}}, gotUnknown}
	}
	return Item{Key{F: "n", B: b32(n.Key), N: int(n.Bits)}, i.c.dec(n.Value)}
}
func (i radix32) Open(v Ver, _ int) func() (Item, bool) {
	return stream(v.(*numtree.Node32).Enumerate(), i.item)
}
func (i radix32) Focus(v Ver, k Key) Ver { return v.(*numtree.Node32).FindNode(u32(k.B), k.N) }
func (i radix32) Child(v Ver, path int) (Ver, *Key) {
	n := v.(*numtree.Node32)
	if n == nil {
		return n, nil
	}
	for steps := path%5 + 1; steps > 0; steps-- {
		path /= 2
		l, r := n.Children()
		if path%2 == 1 && r != nil || l == nil {
			l = r
		}
		if l == nil {
			break
		}
		n = l
	}
	return n, &Key{F: "n", B: b32(n.Key), N: int(n.Bits)}
}
func (i radix32) Value(id int) interface{} { return i.c.enc(id) }
func (i radix32) Dot(v Ver) string         { return v.(*numtree.Node32).Dot() }
func (i radix32) Tri(v Ver) []Tri {
	out := []Tri{}
	var walk func(n *numtree.Node32, depth int) int
	walk = func(n *numtree.Node32, depth int) int {
		if n == nil {
			return -1
		}
		if depth > 200 || len(out) > 100000 {
			panic("structure has no bottom")
		}
		j := len(out)
		out = append(out, Tri{K: Key{F: "n", B: b32(n.Key), N: int(n.Bits)}, Leaf: n.Leaf})
		if n.Leaf {
			out[j].V = i.c.dec(n.Value)
		} else if n.Value != nil {
			out[j].V = gotNonZero
		}
		l, r := n.Children()
		a := walk(l, depth+1)
		b := walk(r, depth+1)
		out[j].C = [2]int{a, b}
		return j
	}
	walk(v.(*numtree.Node32), 0)
	return out
}

type radix64 struct {
	base
	c Codec[interface{}]
}

func (i radix64) New(string) Ver { var p *numtree.Node64; return p }
func (i radix64) Nil() Ver       { var p *numtree.Node64; return p }
func (i radix64) Ins(v Ver, k Key, id int) Ver {
	return v.(*numtree.Node64).Insert(u64(k.B), k.N, i.c.enc(id))
}
func (i radix64) Inp(v Ver, k Key, id int) Ver {
	return v.(*numtree.Node64).InplaceInsert(u64(k.B), k.N, i.c.enc(id))
}
func (i radix64) Del(v Ver, k Key) (Ver, bool) {
	p, ok := v.(*numtree.Node64).Delete(u64(k.B), k.N)
	return p, ok
}
func (i radix64) Get(v Ver, k Key) int { return i.c.got(v.(*numtree.Node64).Match(u64(k.B), k.N)) }
func (i radix64) GetExact(v Ver, k Key) int {
	n := v.(*numtree.Node64).FindNode(u64(k.B), k.N)
	r := i.c.got(v.(*numtree.Node64).ExactMatch(u64(k.B), k.N))
	if n == nil {
		if r == gotAbsent {
			return r
		}
		return gotNonZero
	}
	if !n.Leaf || i.c.dec(n.Value) != r {
		return gotUnknown
	}
	return r
}
func (i radix64) item(n *numtree.Node64) Item {
	if n == nil || !n.Leaf {
		return Item{Key{F: "x", B: []byte{}}, gotUnknown}
	}
	return Item{Key{F: "n", B: b64(n.Key), N: int(n.Bits)}, i.c.dec(n.Value)}
}
func (i radix64) Open(v Ver, _ int) func() (Item, bool) {
	return stream(v.(*numtree.Node64).Enumerate(), i.item)
}
func (i radix64) Focus(v Ver, k Key) Ver { return v.(*numtree.Node64).FindNode(u64(k.B), k.N) }
func (i radix64) Child(v Ver, path int) (Ver, *Key) {
	n := v.(*numtree.Node64)
	if n == nil {
		return n, nil
	}
	for steps := path%5 + 1; steps > 0; steps-- {
		path /= 2
		l, r := n.Children()
		if path%2 == 1 && r != nil || l == nil {
			l = r
		}
		if l == nil {
			break
		}
		n = l
	}
	return n, &Key{F: "n", B: b64(n.Key), N: int(n.Bits)}
}
func (i radix64) Value(id int) interface{} { return i.c.enc(id) }
func (i radix64) Dot(v Ver) string         { return v.(*numtree.Node64).Dot() }
func (i radix64) Tri(v Ver) []Tri {
	out := []Tri{}
	var walk func(n *numtree.Node64, depth int) int
	walk = func(n *numtree.Node64, depth int) int {
		if n == nil {
			return -1
		}
		if depth > 200 || len(out) > 100000 {
			panic("structure has no bottom")
		}
		j := len(out)
		out = append(out, Tri{K: Key{F: "n", B: b64(n.Key), N: int(n.Bits)}, Leaf: n.Leaf})
		if n.Leaf {
			out[j].V = i.c.dec(n.Value)
		} else if n.Value != nil {
			out[j].V = gotNonZero
		}
		l, r := n.Children()
		a := walk(l, depth+1)
		b := walk(r, depth+1)
		out[j].C = [2]int{a, b}
		return j
	}
	walk(v.(*numtree.Node64), 0)
	return out
}

// ---------------------------------------------------------------- networks

type ipTree[P any, V any, R any] interface {
	InsertNet(*net.IPNet, V) P
	InsertIP(net.IP, V) P
	InplaceInsertNet(*net.IPNet, V)
	InplaceInsertIP(net.IP, V)
	GetByNet(*net.IPNet) (V, bool)
	GetByIP(net.IP) (V, bool)
	DeleteByNet(*net.IPNet) (P, bool)
	DeleteByIP(net.IP) (P, bool)
	Enumerate() chan R
}

type ipImpl[P ipTree[P, V, R], V any, R any] struct {
	base
	c    Codec[V]
	mk   func() P
	pair func(R) (*net.IPNet, V)
	upd  func(p P, n *net.IPNet, cb func(k *net.IPNet, v V) (V, bool))
}

// Every call gets its own copy of the key.
func (k Key) net() *net.IPNet {
	if k.F == "0" {
		return nil
	}
	return &net.IPNet{IP: cloneBytes(k.B), Mask: cloneBytes(k.M)}
}
func (k Key) ip() net.IP { return cloneBytes(k.B) }

func cloneBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// netKey takes a network out of a tree and spoils it: the tree must not depend on what it has given.
func netKey(n *net.IPNet) Key {
	if n == nil {
		return Key{F: "x", B: []byte{}}
	}
	k := Key{F: "i", B: cloneBytes(n.IP), M: cloneBytes(n.Mask)}
	spoil(n.IP)
	spoil(n.Mask)
	return k
}

// keeper keeps networks a tree has given, the way a caller may do, to see if they stay what they were.
type keeper struct {
	nets []*net.IPNet
	keys []Key
}

func (k *keeper) take(n *net.IPNet) Key {
	x := netKey(n)
	if !spoiling {
		k.nets, k.keys = append(k.nets, n), append(k.keys, x)
	}
	return x
}

// now gives the key network j makes now and if it is the one it made when it was given.
func (k *keeper) now(j int) (Key, bool) {
	x := netKey(k.nets[j])
	return x, x.id() == k.keys[j].id()
}

// spoiling is on where ownership of memory is what is checked.
var spoiling = os.Getenv("VH_SPOIL") != ""

func spoil(b []byte) {
	if !spoiling {
		return
	}
	for i := range b {
		b[i] ^= 0x5a
	}
}

// withNet calls f with a network which nobody has to remember or to change.
func withNet(k Key, f func(n *net.IPNet)) {
	n := k.net()
	f(n)
	if n != nil {
		if !bytes.Equal(n.IP, k.B) || !bytes.Equal(n.Mask, k.M) {
			panic("argument is changed")
		}
		spoil(n.IP)
		spoil(n.Mask)
		if spoiling {
			n.IP, n.Mask = nil, nil
		}
	}
}

func withIP(k Key, f func(a net.IP)) {
	a := k.ip()
	f(a)
	if !bytes.Equal(a, k.B) {
		panic("argument is changed")
	}
	spoil(a)
}

func (i ipImpl[P, V, R]) New(string) Ver { return i.mk() }
func (i ipImpl[P, V, R]) Nil() Ver       { var p P; return p }
func (i ipImpl[P, V, R]) Ins(v Ver, k Key, id int) (d Ver) {
	if k.F == "a" {
		withIP(k, func(a net.IP) { d = v.(P).InsertIP(a, i.c.enc(id)) })
	} else {
		withNet(k, func(n *net.IPNet) { d = v.(P).InsertNet(n, i.c.enc(id)) })
	}
	return d
}
func (i ipImpl[P, V, R]) Inp(v Ver, k Key, id int) Ver {
	if k.F == "a" {
		withIP(k, func(a net.IP) { v.(P).InplaceInsertIP(a, i.c.enc(id)) })
	} else {
		withNet(k, func(n *net.IPNet) { v.(P).InplaceInsertNet(n, i.c.enc(id)) })
	}
	return v
}
func (i ipImpl[P, V, R]) Del(v Ver, k Key) (Ver, bool) {
	var (
		p  P
		ok bool
	)
	if k.F == "a" {
		withIP(k, func(a net.IP) { p, ok = v.(P).DeleteByIP(a) })
	} else {
		withNet(k, func(n *net.IPNet) { p, ok = v.(P).DeleteByNet(n) })
	}
	return p, ok
}
func (i ipImpl[P, V, R]) Get(v Ver, k Key) (id int) {
	if k.F == "a" {
		withIP(k, func(a net.IP) { id = i.c.got(v.(P).GetByIP(a)) })
	} else {
		withNet(k, func(n *net.IPNet) { id = i.c.got(v.(P).GetByNet(n)) })
	}
	return id
}
func (i ipImpl[P, V, R]) Open(v Ver, _ int) func() (Item, bool) {
	var kept keeper
	next := stream(v.(P).Enumerate(), func(r R) Item {
		k, x := i.pair(r)
		return Item{kept.take(k), i.c.dec(x)}
	})
	return func() (Item, bool) {
		it, ok := next()
		if !ok {
			// What has been listed must still be what it was: a network which isn't any more is listed once again.
			for j := range kept.nets {
				if k, was := kept.now(j); !was {
					kept.nets = nil
					return Item{k, gotUnknown}, true
				}
			}
		}
		return it, ok
	}
}
func (i ipImpl[P, V, R]) Update(v Ver, k Key, pick func(n int) int) []Call {
	calls := []Call{}
	withNet(k, func(n *net.IPNet) { calls = i.update(v, n, pick) })
	return calls
}
func (i ipImpl[P, V, R]) update(v Ver, n *net.IPNet, pick func(n int) int) []Call {
	calls := []Call{}
	var kept keeper
	i.upd(v.(P), n, func(k *net.IPNet, x V) (V, bool) {
		old := i.c.dec(x)
		if len(calls) < 12 && k != nil {
			// Whoever is called may well look at the tree himself: the entry still is what he is told.
			q := &net.IPNet{IP: append(net.IP{}, k.IP...), Mask: append(net.IPMask{}, k.Mask...)}
			if now := i.c.got(v.(P).GetByNet(q)); now != old {
				old = gotUnknown
			}
		}
		c := Call{K: kept.take(k), Old: old, New: pick(len(calls))}
		calls = append(calls, c)
		if len(calls) > 10000 {
			panic("callback is called too many times")
		}
		if c.New > 0 {
			return i.c.enc(c.New), true
		}
		return i.c.enc(maxVal), false
	})
	for j := range kept.nets {
		calls[j].K, _ = kept.now(j)
	}
	return calls
}

// ---------------------------------------------------------------- domains

type domTree[P any, V any, R any] interface {
	Insert(domain.Name, V) P
	InplaceInsert(domain.Name, V)
	Get(domain.Name) (V, bool)
	Delete(domain.Name) (P, bool)
	DeleteSubdomains(domain.Name) (P, bool)
	Enumerate() chan R
}

type domImpl[P domTree[P, V, R], V any, R any] struct {
	base
	c    Codec[V]
	mk   func() P
	pair func(R) (string, V)
}

func (k Key) name() domain.Name {
	n, err := domain.MakeNameFromString(string(k.B))
	if err != nil {
		panic(fmt.Sprintf("can't make name from %q: %s", k.B, err))
	}
	return n
}

func (i domImpl[P, V, R]) New(string) Ver               { return i.mk() }
func (i domImpl[P, V, R]) Nil() Ver                     { var p P; return p }
func (i domImpl[P, V, R]) Ins(v Ver, k Key, id int) Ver { return v.(P).Insert(k.name(), i.c.enc(id)) }
func (i domImpl[P, V, R]) Inp(v Ver, k Key, id int) Ver {
	v.(P).InplaceInsert(k.name(), i.c.enc(id))
	return v
}
func (i domImpl[P, V, R]) Del(v Ver, k Key) (Ver, bool) {
	p, ok := v.(P).Delete(k.name())
	return p, ok
}
func (i domImpl[P, V, R]) DelSub(v Ver, k Key) (Ver, bool) {
	p, ok := v.(P).DeleteSubdomains(k.name())
	return p, ok
}
func (i domImpl[P, V, R]) Get(v Ver, k Key) int { return i.c.got(v.(P).Get(k.name())) }
func (i domImpl[P, V, R]) Open(v Ver, _ int) func() (Item, bool) {
	return stream(v.(P).Enumerate(), func(r R) Item {
		k, x := i.pair(r)
		return Item{Key{F: "t", B: []byte(k)}, i.c.dec(x)}
	})
}

// ---------------------------------------------------------------- all of them

func implsOf(kind string) []Impl {
	return implsWith(kind, uintCodec(val8), uintCodec(val16), uintCodec(val32), uintCodec(val64))
}

// implsAnyVals makes implementations whose values are chosen at random from the whole range of their types.
func implsAnyVals(kind string, r *rand.Rand) []Impl {
	return implsWith(kind, uintCodec(randVals[uint8](r, 8)), uintCodec(randVals[uint16](r, 16)),
		uintCodec(randVals[uint32](r, 32)), uintCodec(randVals[uint64](r, 64)))
}

// VH_IMPLS leaves only the implementations it names.
func implsWith(kind string, c8 Codec[uint8], c16 Codec[uint16], c32 Codec[uint32], c64 Codec[uint64]) []Impl {
	all := allImpls(kind, c8, c16, c32, c64)
	only := os.Getenv("VH_IMPLS")
	if only == "" {
		return all
	}
	out := []Impl{}
	for _, impl := range all {
		if strings.Contains(","+only+",", ","+impl.Name()+",") {
			out = append(out, impl)
		}
	}
	return out
}

func allImpls(kind string, c8 Codec[uint8], c16 Codec[uint16], c32 Codec[uint32], c64 Codec[uint64]) []Impl {
	ca := anyCodec()
	switch kind {
	case "str":
		return []Impl{
			strImpl[*strtree.Tree, interface{}, strtree.Pair]{base{"strtree", "ED"}, ca, strtree.NewTree,
				func(f func(a, b string) int) *strtree.Tree { return strtree.NewTreeWithCustomComparison(f) },
				func(r strtree.Pair) (string, interface{}) { return r.Key, r.Value }},
			strImpl[*strtree8.Tree, uint8, strtree8.Pair]{base{"strtree8", "ED"}, c8, strtree8.NewTree,
				func(f func(a, b string) int) *strtree8.Tree { return strtree8.NewTreeWithCustomComparison(f) },
				func(r strtree8.Pair) (string, uint8) { return r.Key, r.Value }},
			strImpl[*strtree16.Tree, uint16, strtree16.Pair]{base{"strtree16", "ED"}, c16, strtree16.NewTree,
				func(f func(a, b string) int) *strtree16.Tree { return strtree16.NewTreeWithCustomComparison(f) },
				func(r strtree16.Pair) (string, uint16) { return r.Key, r.Value }},
			strImpl[*strtree32.Tree, uint32, strtree32.Pair]{base{"strtree32", "ED"}, c32, strtree32.NewTree,
				func(f func(a, b string) int) *strtree32.Tree { return strtree32.NewTreeWithCustomComparison(f) },
				func(r strtree32.Pair) (string, uint32) { return r.Key, r.Value }},
			strImpl[*strtree64.Tree, uint64, strtree64.Pair]{base{"strtree64", "ED"}, c64, strtree64.NewTree,
				func(f func(a, b string) int) *strtree64.Tree { return strtree64.NewTreeWithCustomComparison(f) },
				func(r strtree64.Pair) (string, uint64) { return r.Key, r.Value }},
		}
	case "label":
		return []Impl{labelImpl{base{"dltree", "ED2"}, ca}}
	case "radix32":
		return []Impl{radix32{base{"numtree32", "XDTN"}, ca}}
	case "radix64":
		return []Impl{radix64{base{"numtree64", "XDTN"}, ca}}
	case "ip":
		return []Impl{
			ipImpl[*iptree.Tree, interface{}, iptree.Pair]{base{"iptree", "U"}, ca, iptree.NewTree,
				func(r iptree.Pair) (*net.IPNet, interface{}) { return r.Key, r.Value },
				func(p *iptree.Tree, n *net.IPNet, cb func(k *net.IPNet, v interface{}) (interface{}, bool)) {
					p.UpdateDescendants(n, func(r iptree.Pair) (interface{}, bool) { return cb(r.Key, r.Value) })
				}},
			ipImpl[*iptree8.Tree, uint8, iptree8.Pair]{base{"iptree8", ""}, c8, iptree8.NewTree,
				func(r iptree8.Pair) (*net.IPNet, uint8) { return r.Key, r.Value }, nil},
			ipImpl[*iptree16.Tree, uint16, iptree16.Pair]{base{"iptree16", ""}, c16, iptree16.NewTree,
				func(r iptree16.Pair) (*net.IPNet, uint16) { return r.Key, r.Value }, nil},
			ipImpl[*iptree32.Tree, uint32, iptree32.Pair]{base{"iptree32", ""}, c32, iptree32.NewTree,
				func(r iptree32.Pair) (*net.IPNet, uint32) { return r.Key, r.Value }, nil},
			ipImpl[*iptree64.Tree, uint64, iptree64.Pair]{base{"iptree64", ""}, c64, iptree64.NewTree,
				func(r iptree64.Pair) (*net.IPNet, uint64) { return r.Key, r.Value }, nil},
		}
	case "dom":
		return []Impl{
			domImpl[*domaintree.Node, interface{}, domaintree.Pair]{base{"domaintree", "S"}, ca,
				func() *domaintree.Node { return new(domaintree.Node) },
				func(r domaintree.Pair) (string, interface{}) { return r.Key, r.Value }},
			domImpl[*domaintree8.Node, uint8, domaintree8.Pair]{base{"domaintree8", "S"}, c8,
				func() *domaintree8.Node { return new(domaintree8.Node) },
				func(r domaintree8.Pair) (string, uint8) { return r.Key, r.Value }},
			domImpl[*domaintree16.Node, uint16, domaintree16.Pair]{base{"domaintree16", "S"}, c16,
				func() *domaintree16.Node { return new(domaintree16.Node) },
				func(r domaintree16.Pair) (string, uint16) { return r.Key, r.Value }},
			domImpl[*domaintree32.Node, uint32, domaintree32.Pair]{base{"domaintree32", "S"}, c32,
				func() *domaintree32.Node { return new(domaintree32.Node) },
				func(r domaintree32.Pair) (string, uint32) { return r.Key, r.Value }},
			domImpl[*domaintree64.Node, uint64, domaintree64.Pair]{base{"domaintree64", "S"}, c64,
				func() *domaintree64.Node { return new(domaintree64.Node) },
				func(r domaintree64.Pair) (string, uint64) { return r.Key, r.Value }},
		}
	}
	panic("harness: unknown kind " + kind)
}
