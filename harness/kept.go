package main

import (
	"os"
	"runtime"
	"sort"
	"time"
	"weak"
)

// Values which tell if anybody still keeps them: what a tree doesn't hold any more must not stay in memory.

var keeping = os.Getenv("VH_KEEP") != ""

// token is a value of its own for every insertion (too big to share a block of memory with others).
type token struct {
	id   int
	self *token
	pad  [6]int
}

var tokens []struct {
	id int
	p  weak.Pointer[token]
}

func tokenCodec() Codec[interface{}] {
	return Codec[interface{}]{
		enc: func(i int) interface{} {
			t := &token{id: i}
			tokens = append(tokens, struct {
				id int
				p  weak.Pointer[token]
			}{i, weak.Make(t)})
			return t
		},
		dec: func(v interface{}) int {
			if t, ok := v.(*token); ok && t != nil {
				return t.id
			}
			return gotUnknown
		},
		zero: func(v interface{}) bool { return v == nil },
	}
}

// kept gives identifiers of values which are still in memory. Goroutines of finished enumerations may need a moment.
func kept(base int) []int {
	for i := 0; i < 200 && runtime.NumGoroutine() > base; i++ {
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	for i := 0; i < 2; i++ {
		runtime.GC()
	}
	seen := map[int]bool{}
	for _, t := range tokens {
		if t.p.Value() != nil {
			seen[t.id] = true
		}
	}
	ids := []int{}
	for id := range seen {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}
