package main

import (
	"fmt"
	"strings"
	"weak"
)

// A valSpace gives the model's values (0 is the zero value) a concrete form.
// dec answers -1 for anything that is not exactly an encoded value.
type valSpace[V any] struct {
	max  int // largest value id, 0: no limit
	enc  func(int) V
	dec  func(V) int
	seen func(V) (weakRef, bool)
}

func mix(v int) uint64 { return uint64(v)*0x9E3779B97F4A7C15 ^ 0xD1B54A32D192ED03 }

var u64Vals = &valSpace[uint64]{
	enc: func(v int) uint64 {
		if v == 0 {
			return 0
		}
		return uint64(v)<<32 | mix(v)>>32
	},
	dec: func(x uint64) int {
		if x == 0 {
			return 0
		}
		if v := int(x >> 32); x == uint64(v)<<32|mix(v)>>32 {
			return v
		}
		return -1
	},
}

var u8Vals = &valSpace[uint8]{max: 250,
	enc: func(v int) uint8 { return uint8(v) },
	dec: func(x uint8) int { return int(x) },
}

var boolVals = &valSpace[bool]{max: 1,
	enc: func(v int) bool { return v != 0 },
	dec: func(x bool) int {
		if x {
			return 1
		}
		return 0
	},
}

var noVals = &valSpace[struct{}]{max: -1,
	enc: func(v int) struct{} { return struct{}{} },
	dec: func(x struct{}) int { return 0 },
}

var strVals = &valSpace[string]{
	enc: func(v int) string {
		if v == 0 {
			return ""
		}
		return clone(fmt.Sprintf("v%d-%s", v, strings.Repeat("#", v%50)))
	},
	dec: func(x string) int {
		if x == "" {
			return 0
		}
		var v int
		if _, err := fmt.Sscanf(x, "v%d-", &v); err != nil || v <= 0 || x != fmt.Sprintf("v%d-%s", v, strings.Repeat("#", v%50)) {
			return -1
		}
		return v
	},
}

type bigVal [9]uint64

var bigVals = &valSpace[bigVal]{
	enc: func(v int) (b bigVal) {
		if v != 0 {
			for i := range b {
				b[i] = mix(v*16 + i)
			}
			b[4] = uint64(v)
		}
		return
	},
	dec: func(b bigVal) int {
		if b == (bigVal{}) {
			return 0
		}
		v := int(b[4])
		for i := range b {
			if i != 4 && b[i] != mix(v*16+i) {
				return -1
			}
		}
		return v
	},
}

// obj is a value on the heap whose release can be observed.
type obj struct {
	id   int
	sum  uint64
	self *obj
	pad  [5]uint64
}

var objVals = &valSpace[*obj]{
	enc: func(v int) *obj {
		if v == 0 {
			return nil
		}
		o := &obj{id: v, sum: mix(v)}
		o.self = o
		for i := range o.pad {
			o.pad[i] = mix(v + i)
		}
		return o
	},
	dec: func(o *obj) int {
		if o == nil {
			return 0
		}
		if o.sum != mix(o.id) || o.self != o {
			return -1
		}
		for i := range o.pad {
			if o.pad[i] != mix(o.id+i) {
				return -1
			}
		}
		return o.id
	},
	seen: func(o *obj) (weakRef, bool) {
		if o == nil {
			return nil, false
		}
		return wref[obj]{weak.Make(o)}, true
	},
}

// a value with a pointer in the middle
type boxVal struct {
	a uint32
	o *obj
	s string
}

var boxVals = &valSpace[boxVal]{
	enc: func(v int) boxVal {
		if v == 0 {
			return boxVal{}
		}
		return boxVal{uint32(v), objVals.enc(v), strVals.enc(v)}
	},
	dec: func(b boxVal) int {
		if b == (boxVal{}) {
			return 0
		}
		v := objVals.dec(b.o)
		if v <= 0 || b.a != uint32(v) || strVals.dec(b.s) != v {
			return -1
		}
		return v
	},
	seen: func(b boxVal) (weakRef, bool) { return objVals.seen(b.o) },
}

var anyVals = &valSpace[any]{
	enc: func(v int) any {
		switch {
		case v == 0:
			return nil
		case v%3 == 0:
			return u64Vals.enc(v)
		case v%3 == 1:
			return strVals.enc(v)
		}
		return objVals.enc(v)
	},
	dec: func(x any) int {
		v := -1
		switch x := x.(type) {
		case nil:
			return 0
		case uint64:
			if v = u64Vals.dec(x); v%3 != 0 {
				v = -1
			}
		case string:
			if v = strVals.dec(x); v%3 != 1 {
				v = -1
			}
		case *obj:
			if v = objVals.dec(x); v%3 != 2 {
				v = -1
			}
		}
		if v == 0 {
			v = -1
		}
		return v
	},
}
