package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sync/atomic"
	"time"
)

// Key is a key as it is passed to (or comes out of) the code under test.
//
//	F "t": text (B), "b": raw bytes (B), "n": radix key (B big endian, N bits),
//	  "i": network (B address, M mask), "a": address (B), "0": nil network.
type Key struct {
	F string
	B []byte
	N int
	M []byte
}

func (k Key) id() string { return fmt.Sprintf("%s|%d|%q|%q", k.F, k.N, k.B, k.M) }

// Ver is some version of a tree.
type Ver interface{}

// Got is what a lookup gives: identifier of the value or one of codes below.
const (
	gotAbsent  = -1 // zero value and false
	gotNonZero = -2 // false with a value which isn't zero
	gotUnknown = -9 // true with a value nobody stored
)

// Item is an entry listed by an enumeration.
type Item struct {
	K Key
	V int
}

// Call is a call of UpdateDescendants callback.
type Call struct {
	K   Key
	Old int
	New int // 0 if update hasn't been asked
}

// Impl gives uniform access to an implementation of some kind of tree.
type Impl interface {
	Name() string
	New(cmp string) Ver
	Nil() Ver
	Ins(v Ver, k Key, id int) Ver
	Inp(v Ver, k Key, id int) Ver
	Del(v Ver, k Key) (Ver, bool)
	DelSub(v Ver, k Key) (Ver, bool)
	Get(v Ver, k Key) int
	GetExact(v Ver, k Key) int
	// Open starts an enumeration; next returns false when it's over.
	Open(v Ver, variant int) func() (Item, bool)
	Empty(v Ver) bool
	Update(v Ver, k Key, pick func(n int) int) []Call
	Dot(v Ver) string
	Features() string // letters: X exact, S subdomains, E IsEmpty, U update, D dot, N nil in-place, T children, 2 second enumeration
}

// Tri is a node of radix tree as seen with Children.
type Tri struct {
	K    Key
	Leaf bool
	V    int
	C    [2]int // -1 if there is no child
}

type triImpl interface {
	Tri(v Ver) []Tri
}

// focuser takes a part of a tree as a tree.
type focuser interface {
	Focus(v Ver, k Key) Ver
	// Child goes down a few steps; it tells the key of the node it stops at, if there is any.
	Child(v Ver, path int) (Ver, *Key)
}

// Codec maps identifiers of values 1..maxVal to values of some type and back.
const maxVal = 100

type Codec[V any] struct {
	enc  func(int) V
	dec  func(V) int
	zero func(V) bool
}

func (c Codec[V]) got(v V, ok bool) int {
	if !ok {
		if c.zero(v) {
			return gotAbsent
		}
		return gotNonZero
	}
	return c.dec(v)
}

type uints interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64
}

// Values of wide types are chosen so that any loss of bits makes them clash or turns them to something else.
func uintCodec[V uints](f func(int) V) Codec[V] {
	m := map[V]int{}
	for i := 1; i <= maxVal; i++ {
		v := f(i)
		if _, ok := m[v]; ok {
			panic("codec isn't injective")
		}
		m[v] = i
	}
	return Codec[V]{
		enc: f,
		dec: func(v V) int {
			if i, ok := m[v]; ok {
				return i
			}
			return gotUnknown
		},
		zero: func(v V) bool { return v == 0 },
	}
}

func val8(i int) uint8 {
	switch i {
	case 1:
		return 0
	case 2:
		return 255
	case 3:
		return 128
	case 4:
		return 127
	}
	if i%2 == 0 {
		return uint8(255 - i)
	}
	return uint8(i)
}

func val16(i int) uint16 {
	switch i {
	case 1:
		return 0
	case 2:
		return 0xffff
	case 3:
		return 0x8000
	case 4:
		return 0x00ff
	}
	if i%2 == 0 {
		return uint16(i)
	}
	return uint16(i)<<8 | 0x2a
}

func val32(i int) uint32 {
	switch i {
	case 1:
		return 0
	case 2:
		return 0xffffffff
	case 3:
		return 0x80000000
	case 4:
		return 0x0000ffff
	}
	if i%2 == 0 {
		return uint32(i)
	}
	return uint32(i)<<16 | 0x2a
}

func val64(i int) uint64 {
	switch i {
	case 1:
		return 0
	case 2:
		return 0xffffffffffffffff
	case 3:
		return 0x8000000000000000
	case 4:
		return 0x00000000ffffffff
	case 5:
		return 1<<53 + 1
	case 6:
		return 1 << 53
	}
	if i%2 == 0 {
		return uint64(i)
	}
	return uint64(i)<<32 | 0x2a
}

// randVals chooses different values: edges of the range, single bits and anything.
func randVals[V uints](r *rand.Rand, width uint) func(int) V {
	vals := []V{}
	seen := map[V]bool{}
	add := func(v V) {
		if !seen[v] && len(vals) < maxVal {
			seen[v] = true
			vals = append(vals, v)
		}
	}
	var zero V
	add(zero)
	add(^zero)
	for n := 0; len(vals) < maxVal && n < 100000; n++ {
		b := V(1) << uint(r.Intn(int(width)))
		switch r.Intn(5) {
		case 0:
			add(b)
		case 1:
			add(^b)
		case 2:
			add(b - 1)
		default:
			add(V(r.Uint64()))
		}
	}
	r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	return func(i int) V { return vals[i-1] }
}

type someStruct struct {
	A int
	B string
}

var anyPool = makeAnyPool()

func makeAnyPool() []interface{} {
	x, y := 1, 1
	var np *int
	var ns []byte
	pool := []interface{}{
		nil, nil, np, &x, &y, "", "text", 0, false, ns, []byte{1, 2}, []byte{1, 2}, map[string]int{"a": 1}, map[string]int{"a": 1},
		0.0, math.Copysign(0, -1), someStruct{}, someStruct{1, "b"}, &someStruct{}, &someStruct{}, 1.5, error(nil), 'x', "quo\"te\\\n\xff\x00é",
		uint64(1<<63 + 1), struct{}{}, [2]int{1, 2}, func() {}, make(chan int), int8(-1), "[label=\"x\"]",
		[]interface{}{nil, "}"}, "100%d%s%%!", errors.New("no\tway"), []error{nil}, complex(1, -1), math.NaN(), math.Inf(-1), time.Second,
		uintptr(7), [0]int{}, []string{"\\", "\""}, map[float64]bool{}, `\N\l{a|b}`,
	}
	// First element is a stub because identifiers start with 1; nil can't be there twice.
	for i, v := range pool {
		if i > 1 && v == nil {
			pool[i] = fmt.Sprintf("stub%d", i)
		}
	}
	pool = append(pool, anyTreeValues()...)
	for len(pool) <= maxVal {
		switch len(pool) % 3 {
		case 0:
			pool = append(pool, len(pool))
		case 1:
			pool = append(pool, fmt.Sprintf("value-%d", len(pool)))
		default:
			pool = append(pool, &someStruct{A: len(pool)})
		}
	}
	return pool[:maxVal+1]
}

func sameAny(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	t := reflect.TypeOf(a)
	if t != reflect.TypeOf(b) {
		return false
	}
	if f, ok := a.(float64); ok {
		return math.Float64bits(f) == math.Float64bits(b.(float64)) // (NaN and zeros)
	}
	if t.Comparable() {
		return a == b || a != a && b != b // (NaN)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Pointer() != vb.Pointer() {
		return false
	}
	return t.Kind() == reflect.Func || va.Len() == vb.Len()
}

func anyCodec() Codec[interface{}] {
	if keeping {
		return tokenCodec()
	}
	return Codec[interface{}]{
		enc: func(i int) interface{} { return anyPool[i] },
		dec: func(v interface{}) int {
			for i := 1; i <= maxVal; i++ {
				if sameAny(anyPool[i], v) {
					return i
				}
			}
			return gotUnknown
		},
		zero: func(v interface{}) bool { return v == nil },
	}
}

// Protection against code which never comes back: a call may take so long.
var opTimeout = 20 * time.Second

// hangs is number of failures it takes a long time to notice; there is no need of many.
var hangs int32

func tired() bool { return atomic.LoadInt32(&hangs) > 2 }

// guard runs f and turns a panic or a lack of answer to text.
func guard(what string, f func()) (bad string) { return guardFor(what, int(opTimeout/time.Second), f) }

func guardFor(what string, sec int, f func()) (bad string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic in %s: %v", what, r)
			}
		}()
		f()
		done <- ""
	}()
	t := time.NewTimer(time.Duration(sec) * time.Second)
	defer t.Stop()
	select {
	case bad = <-done:
		return bad
	case <-t.C:
		atomic.AddInt32(&hangs, 1)
		return fmt.Sprintf("no answer from %s in %s", what, time.Duration(sec)*time.Second)
	}
}
