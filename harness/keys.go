package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"math"
	"strconv"
	"strings"
	"sync/atomic"
	"unsafe"
	"weak"

	"github.com/wdamron/amt"
)

// A keySpace gives the model's keys 1..n a concrete form in some key type.
type keySpace[K any] struct {
	n      int
	make   func(k int) K           // a fresh instance of key k
	id     func(K) int             // the model key this is exactly equal to; 0: none
	data   func(k int) []byte      // the bytes hashed for key k; nil: not by maphash
	seen   func(K) (weakRef, bool) // how to watch this instance being released
	done   func(K)                 // called after an operation that may not retain the key
	serial func(K) int             // which instance of the key this is
	renew  func(k int)             // from now on key k, present nowhere, is made of other memory

	// Members of the crowd, numbered from 0: many more keys, which no single
	// event names.  id gives -1-j for member j.
	member     func(j int) K
	memberData func(j int) []byte
}

type weakRef interface{ Alive() bool }
type wref[T any] struct{ p weak.Pointer[T] }

func (w wref[T]) Alive() bool { return w.p.Value() != nil }

// ---- integers

func intKeys(flavour string, n int) []int64 {
	out := make([]int64, 0, n)
	switch flavour {
	case "seq":
		for k := 1; k <= n; k++ {
			out = append(out, int64(k))
		}
	case "hi": // same low half
		for k := 0; k < n; k++ {
			out = append(out, int64(k-n/2)<<32|0x0000ffff)
		}
	case "lo": // same high half, negative
		for k := 0; k < n; k++ {
			out = append(out, int64(-1)<<32|int64(uint32(0xffff0000+k*257)))
		}
	case "bits":
		for k := 0; k < n; k++ {
			b := [8]byte{0x5a, 0xc3, 0x0f, 0x96, 0x69, 0xf0, 0x3c, 0xa5}
			flip(b[:], k)
			out = append(out, int64(binary.LittleEndian.Uint64(b[:])))
		}
	default: // "ext"
		out = append(out, 0, -1, math.MinInt64, math.MaxInt64, 1<<32, -(1 << 32), 1<<31, -(1 << 31),
			0xffffffff, 0xffff, 1<<16, -0x10000, 0x0000ffff0000ffff, -0x0000ffff00010000, 1, 1<<48, 0x5555555555555555,
			-0x5555555555555556, 0xffff<<32, 1<<63-2, math.MinInt64+1)
		for k := len(out); k < n; k++ {
			out = append(out, int64(uint64(k)*0x9E3779B97F4A7C15))
		}
	}
	return out[:n]
}

// flip makes key k of a family whose keys differ in single bits: every bit is
// changed in some key, or every byte if there are more bits than keys.
func flip(b []byte, k int) {
	if k == 0 {
		return
	}
	k--
	if len(b) <= 8 {
		bit := k % (8 * len(b))
		b[bit/8] ^= 1 << (bit % 8)
		if k >= 8*len(b) { // two bits
			bit = (bit + k/(8*len(b))) % (8 * len(b))
			b[bit/8] ^= 1 << (bit % 8)
		}
		return
	}
	b[k%len(b)] ^= 1 << ((k%len(b)*3 + k/len(b)) % 8)
}

func intSpace(flavour string, n int) *keySpace[int64] {
	ks := intKeys(flavour, n)
	inv := map[int64]int{}
	for i, k := range ks {
		inv[k] = i + 1
	}
	const mark = 0x35a7 << 48
	member := func(j int) int64 { return mark | int64(j)<<20 | int64(j%7) }
	number := func(x int64) int { return int(x >> 20 & 0xfffffff) }
	switch flavour {
	case "seq":
		member = func(j int) int64 { return int64(j) + 4096 }
		number = func(x int64) int { return int(x) - 4096 }
	case "hi":
		member = func(j int) int64 { return int64(j+4096)<<32 | 0xffff }
		number = func(x int64) int { return int(x>>32) - 4096 }
	case "lo":
		member = func(j int) int64 { return -int64(j) - 4096<<16 }
		number = func(x int64) int { return int(-(x + 4096<<16)) }
	}
	return &keySpace[int64]{n: n,
		make: func(k int) int64 { return ks[k-1] },
		id: func(x int64) int {
			if k := inv[x]; k != 0 {
				return k
			}
			if j := number(x); j >= 0 && j < 1<<20 && x == member(j) {
				return -1 - j
			}
			return 0
		},
		data:       func(k int) []byte { return binary.LittleEndian.AppendUint64(nil, uint64(ks[k-1])) },
		member:     member,
		memberData: func(j int) []byte { return binary.LittleEndian.AppendUint64(nil, uint64(member(j))) },
	}
}

// ---- strings

func strKeys(flavour string, n int) []string {
	out := make([]string, 0, n)
	switch flavour {
	case "seq":
		for k := 1; k <= n; k++ {
			out = append(out, fmt.Sprintf("k%03d", k))
		}
	case "long": // longer than maphash's buffer, differing in one byte at varying places
		for k := 0; k < n; k++ {
			b := bytes.Repeat([]byte("0123456789abcdef"), 12+k%9)
			b[(k*37)%len(b)] = byte(200 + k%50)
			b[len(b)-1] = byte(k)
			out = append(out, string(b))
		}
	case "huge": // up to more than 16 bits of length; pairs that differ in one byte or in 65536 bytes of length
		x := strings.Repeat("the quick brown fox ", 4000)
		for k := 0; k < n; k++ {
			switch l := 1000 + k/4*97; k % 4 {
			case 0:
				out = append(out, x[:l])
			case 1:
				out = append(out, x[:l-1]+"#")
			case 2:
				out = append(out, x[:l/2]+"#"+x[l/2+1:l])
			case 3:
				if k < 12 {
					out = append(out, x[:l+(1<<16)])
				} else {
					out = append(out, x[:l-1]+"?")
				}
			}
		}
	case "bits":
		for k := 0; k < n; k++ {
			b := []byte("sixty-one bytes are not a multiple of any power of two, no no")
			flip(b, k)
			out = append(out, string(b))
		}
	case "heap": // own allocation, no tiny allocator
		for k := 1; k <= n; k++ {
			out = append(out, fmt.Sprintf("key-%04d-%s", k, strings.Repeat("x", 48)))
		}
	default: // "mix"
		out = append(out, "", "\x00", "\x00\x01", "a", "ab", "abc", "b", "\xff\xfe", "\xff", "é", "k\x00", "k\x00l", "k",
			strings.Repeat("z", 127), strings.Repeat("z", 126)+"y", strings.Repeat("q", 300)+"1", strings.Repeat("q", 300)+"2")
		for k := len(out); k < n; k++ {
			out = append(out, fmt.Sprintf("%c%d-%s", 'A'+k%7, k, strings.Repeat("-", k%40)))
		}
	}
	return out[:n]
}

func clone(s string) string {
	if len(s) == 0 {
		return ""
	}
	b := make([]byte, len(s))
	copy(b, s)
	return unsafe.String(&b[0], len(b))
}

// strMembers: how the members of the crowd are written and read.
func strMembers(flavour string) (func(int) string, func(string) int) {
	before, after := "member ", " of the crowd"
	switch flavour {
	case "long":
		before = strings.Repeat("m", 300)
	case "mix":
		before, after = "", strings.Repeat("\x00", 44)
	case "huge":
		before, after = strings.Repeat("member", 130), ""
	}
	return func(j int) string { return before + strconv.Itoa(j) + after },
		func(s string) int {
			s, ok := strings.CutPrefix(s, before)
			if ok {
				s, ok = strings.CutSuffix(s, after)
			}
			if j, err := strconv.Atoi(s); ok && err == nil && j >= 0 && strconv.Itoa(j) == s {
				return -1 - j
			}
			return 0
		}
}

func stringSpace(flavour string, n int) *keySpace[string] {
	strMember, strMemberID := strMembers(flavour)
	ks := strKeys(flavour, n)
	inv := map[string]int{}
	for i, k := range ks {
		inv[k] = i + 1
	}
	return &keySpace[string]{n: n,
		make: func(k int) string { return clone(ks[k-1]) },
		id: func(x string) int {
			if k := inv[x]; k != 0 {
				return k
			}
			return strMemberID(x)
		},
		data:       func(k int) []byte { return []byte(ks[k-1]) },
		member:     strMember,
		memberData: func(j int) []byte { return []byte(strMember(j)) },
		seen: func(x string) (weakRef, bool) {
			if len(x) < 32 {
				return nil, false
			}
			return wref[byte]{weak.Make(unsafe.StringData(x))}, true
		},
	}
}

// noReuse: do not use the memory of a key for another.
var noReuse bool

func bytesSpace(flavour string, n int) *keySpace[[]byte] {
	strMember, strMemberID := strMembers(flavour)
	ks := strKeys(flavour, n)
	inv := map[string]int{}
	for i, k := range ks {
		inv[k] = i + 1
	}
	turn := 0
	free := map[int][]byte{} // memory of keys that are not needed any more, by length
	again := func(s string) []byte {
		b := free[len(s)]
		if b == nil || noReuse {
			return nil
		}
		delete(free, len(s))
		copy(b, s)
		return b
	}
	return &keySpace[[]byte]{n: n,
		make: func(k int) []byte {
			s := ks[k-1]
			turn++
			if b := again(s); b != nil {
				return b
			}
			if s == "" {
				if turn%2 == 0 {
					return nil
				}
				return []byte{}
			}
			// now and then with spare capacity or as part of a larger buffer
			if turn%3 == 0 {
				b := make([]byte, len(s)+8)
				copy(b[4:], s)
				return b[4 : 4+len(s)]
			}
			return append(make([]byte, 0, len(s)), s...)
		},
		id: func(x []byte) int {
			if k := inv[string(x)]; k != 0 {
				return k
			}
			return strMemberID(string(x))
		},
		data: func(k int) []byte { return []byte(ks[k-1]) },
		member: func(j int) []byte {
			s := strMember(j)
			if b := again(s); b != nil {
				return b
			}
			return []byte(s)
		},
		memberData: func(j int) []byte { return []byte(strMember(j)) },
		seen: func(x []byte) (weakRef, bool) {
			if len(x) < 32 {
				return nil, false
			}
			return wref[byte]{weak.Make(unsafe.SliceData(x))}, true
		},
		done: func(x []byte) {
			for i := range x {
				x[i] ^= 0xA5
			}
			if len(x) > 0 && !noReuse {
				free[len(x)] = x
			}
		},
	}
}

func mapSpace[A, B any](s *keySpace[A], to func(A) B, from func(B) A) *keySpace[B] {
	out := &keySpace[B]{n: s.n, data: s.data, memberData: s.memberData,
		make:   func(k int) B { return to(s.make(k)) },
		id:     func(b B) int { return s.id(from(b)) },
		member: func(j int) B { return to(s.member(j)) },
	}
	if s.seen != nil {
		out.seen = func(b B) (weakRef, bool) { return s.seen(from(b)) }
	}
	if s.done != nil {
		out.done = func(b B) { s.done(from(b)) }
	}
	return out
}

// ---- arrays

type A4 [4]byte
type A16 [16]byte
type A24 struct {
	A uint64
	B [12]byte
	C uint32
}
type A64 [64]byte

func (a A4) KeyBytes() (b [64]byte)  { copy(b[:], a[:]); return }
func (a A16) KeyBytes() (b [64]byte) { copy(b[:], a[:]); return }
func (a A24) KeyBytes() (b [64]byte) {
	binary.LittleEndian.PutUint64(b[0:], a.A)
	copy(b[8:], a.B[:])
	binary.LittleEndian.PutUint32(b[20:], a.C)
	return
}
func (a A64) KeyBytes() [64]byte { return a }

type arrKey interface {
	comparable
	KeyBytes() [64]byte
}

func arrSpace[K arrKey](flavour string, n int, mk func(b [64]byte) K, size int) *keySpace[K] {
	ks := make([]K, n)
	inv := map[K]int{}
	for i := 0; i < n; i++ {
		var b [64]byte
		switch flavour {
		case "seq":
			b[0], b[1] = byte(i+1), byte((i+1)>>8)
		case "bits":
			copy(b[:size], "sixty-four bytes or the first few of them, with one bit changed.")
			flip(b[:size], i)
		case "last": // differ only at the end
			for j := 0; j < size; j++ {
				b[j] = 0xEE
			}
			b[size-1] = byte(i)
			b[size-2] = byte(i >> 8)
		default: // "mix": the zero array, and single-byte differences all over
			if i > 0 {
				b[(i*7)%size] = byte(i)
				b[(i*7+1)%size] ^= byte(i >> 3)
				if i%5 == 0 {
					b[size-1] = 0xff
				}
			}
		}
		k := mk(b)
		for inv[k] != 0 { // keep them distinct
			b[size-1]++
			if b[size-1] == 0 {
				b[0]++
			}
			k = mk(b)
		}
		ks[i] = k
		inv[k] = i + 1
	}
	at := 1 // where the number of a member is
	if flavour != "seq" {
		at = size - 3
	}
	member := func(j int) K {
		b := [64]byte{0xC3}
		b[at], b[at+1], b[at+2] = byte(j), byte(j>>8), 0x40+byte(j>>16)
		return mk(b)
	}
	return &keySpace[K]{n: n,
		make: func(k int) K { return ks[k-1] },
		id: func(x K) int {
			if k := inv[x]; k != 0 {
				return k
			}
			b := x.KeyBytes()
			if j := int(b[at]) | int(b[at+1])<<8 | int(b[at+2]-0x40)<<16; x == member(j) {
				return -1 - j
			}
			return 0
		},
		data:       func(k int) []byte { b := ks[k-1].KeyBytes(); return b[:] },
		member:     member,
		memberData: func(j int) []byte { b := member(j).KeyBytes(); return b[:] },
	}
}

func a4(b [64]byte) (a A4)   { copy(a[:], b[:]); return }
func a16(b [64]byte) (a A16) { copy(a[:], b[:]); return }
func a24(b [64]byte) (a A24) {
	a.A = binary.LittleEndian.Uint64(b[0:])
	copy(a.B[:], b[8:20])
	a.C = binary.LittleEndian.Uint32(b[20:])
	return
}
func a64(b [64]byte) A64 { return b }

// AP is a comparable key that refers to memory: its KeyBytes depend on id alone,
// and all instances of one key share obj until the key is renewed.
type AP struct {
	id  uint64
	obj *keyObj
}
type keyObj struct {
	id  int
	pad [6]uint64
	p   *int
}

func (a AP) KeyBytes() (b [64]byte) { binary.LittleEndian.PutUint64(b[:], a.id); return }

func apSpace(n int) *keySpace[AP] {
	objs := make([]*keyObj, n+1)
	ks := &keySpace[AP]{n: n}
	ks.renew = func(k int) { objs[k] = &keyObj{id: k, p: new(int)} }
	for k := 1; k <= n; k++ {
		ks.renew(k)
	}
	ks.make = func(k int) AP { return AP{uint64(k), objs[k]} }
	crowd := &keyObj{}
	ks.member = func(j int) AP { return AP{1<<32 + uint64(j), crowd} }
	ks.memberData = func(j int) []byte { b := ks.member(j).KeyBytes(); return b[:] }
	ks.id = func(a AP) int {
		if a.id >= 1<<32 && a.obj == crowd {
			return -1 - int(a.id-1<<32)
		}
		if a.id < 1 || a.id > uint64(n) || a.obj != objs[a.id] || a.obj.id != int(a.id) || a.obj.p == nil {
			return 0
		}
		return int(a.id)
	}
	ks.data = func(k int) []byte { b := AP{id: uint64(k)}.KeyBytes(); return b[:] }
	ks.seen = func(a AP) (weakRef, bool) { return wref[keyObj]{weak.Make(a.obj)}, true }
	return ks
}

// ---- custom keys of generic containers

// CKey's identity is id alone: everything else differs between instances of
// the same key.  Its hash is the programmed one, or a digest of id.
type CKey struct {
	id     int
	note   string
	obj    *keyObj
	serial uint64
}

// hashCall is one call of a custom key's Hash.
type hashCall struct {
	Seed maphash.Seed
	K    int
	Iter uint
}

var (
	ckLog    []hashCall
	ckLogOn  bool
	ckWords  [][]uint64   // programmed hashes: key -> iteration -> hash
	ckPast   atomic.Int64 // rehash counts beyond the programmed ones
	ckSerial uint64
	ckCrowd  func(j int, iter uint) (uint64, bool) // programmed hashes of the crowd
)

const ckMember = 1 << 40

func (c CKey) Equal(o CKey) bool { return c.id == o.id }
func (c CKey) Hash(seed maphash.Seed, iter uint) uint64 {
	if ckLogOn {
		ckLog = append(ckLog, hashCall{seed, c.id, iter})
	}
	if c.id >= 1 && c.id <= len(ckWords) {
		if w := ckWords[c.id-1]; int(iter) < len(w) {
			return w[iter]
		}
		ckPast.Add(1)
	}
	if c.id > ckMember && ckCrowd != nil {
		if w, ok := ckCrowd(c.id-ckMember-1, iter); ok {
			return w
		}
		ckPast.Add(1)
	}
	var h maphash.Hash
	h.SetSeed(seed)
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], uint64(c.id))
	binary.LittleEndian.PutUint64(b[8:], uint64(iter))
	h.Write(b[:])
	return h.Sum64()
}

func customSpace(n int, live bool) *keySpace[CKey] {
	ks := &keySpace[CKey]{n: n,
		make: func(k int) CKey {
			ckSerial++
			c := CKey{id: k, serial: ckSerial}
			if live {
				c.obj = &keyObj{id: k, p: new(int)}
				c.note = clone(fmt.Sprintf("note %d of %d, well beyond tiny size", ckSerial, k))
			}
			return c
		},
		id: func(c CKey) int {
			if c.id > ckMember && c.serial == ckMember {
				return -1 - (c.id - ckMember - 1)
			}
			if c.id < 1 || c.id > n || c.serial == 0 || c.serial > ckSerial {
				return 0
			}
			if live && (c.obj == nil || c.obj.id != c.id || c.obj.p == nil || !strings.HasSuffix(c.note, fmt.Sprintf("of %d, well beyond tiny size", c.id))) {
				return 0
			}
			return c.id
		},
	}
	ks.serial = func(c CKey) int { return int(c.serial) }
	ks.member = func(j int) CKey { return CKey{id: ckMember + 1 + j, serial: ckMember} }
	if live {
		ks.seen = func(c CKey) (weakRef, bool) { return wref[keyObj]{weak.Make(c.obj)}, true }
	}
	return ks
}

var _ = amt.HashBytes
