package main

import (
	"fmt"
	"hash/maphash"
	"math/rand"
	"runtime"
)

// The crowd: members 0..n-1, keys besides the model's 1..N that are added and
// deleted many at a time, so that counters, tables and memory reach sizes that
// single events cannot.  Of the crowd either nothing is present or the
// multiples of a stride.  Under programmed hashes a member's digits are a
// prefix that no other key starts with, then its number in base 16, highest
// digit first (spec/Crowd.tla).  If fork is positive, members 2j and 2j+1 have
// the number j, then fork-1 digits in common, then a last one that tells them apart.

const crowdDigits = 5

type crowdT struct {
	n      int
	prefix []int // nil: true hashing
	fork   int
}

var theCrowd crowdT

func memberVal(j, max int) int {
	switch {
	case max < 0:
		return 0
	case max == 0:
		return j + 1
	}
	return j % (max + 1)
}

func (c *crowdT) words() int { return (len(c.prefix)+crowdDigits+c.fork)/16 + 2 }

func (c *crowdT) word(j int, iter uint) uint64 {
	w := mix(j*8+int(iter)+1) ^ mix(j)<<17
	last := -1
	if c.fork > 0 {
		last = int(mix(j>>1) % 15)
		last += j & 1 * (1 + int(mix(j>>1)>>8%uint64(15-last)))
		j >>= 1
	}
	for e := 0; e < 16; e++ {
		i := int(iter)*16 + e
		x := -1
		if i < len(c.prefix) {
			x = c.prefix[i]
		} else if i -= len(c.prefix); i < crowdDigits {
			x = j >> uint(4*(crowdDigits-1-i)) & 15
		} else if i -= crowdDigits; i < c.fork-1 {
			x = int(mix(j^i<<20)) & 15
		} else if i == c.fork-1 {
			x = last
		}
		if x >= 0 {
			w = w&^(15<<uint(4*e)) | uint64(x)<<uint(4*e)
		}
	}
	return w
}

func (c *crowdT) program(s maphash.Seed, data func(int) []byte) {
	if c.n == 0 || c.prefix == nil || data == nil {
		return
	}
	ws := make([]uint64, c.words())
	for j := 0; j < c.n; j++ {
		for i := range ws {
			ws[i] = c.word(j, uint(i))
		}
		hookProgram(s, data(j), ws)
	}
}

// crowdStart decides on the crowd of a segment.
func (d *driver) crowdStart(p *profile) {
	theCrowd = crowdT{}
	ckCrowd = nil
	d.crowd = map[int]int{}
	if d.c.Crowd == 0 {
		return
	}
	n := d.c.Crowd
	if d.rng.Intn(3) == 0 && n < 1<<18 {
		n = []int{768, 4096, 12288}[d.rng.Intn(3)]
	}
	if p == nil {
		theCrowd.n = n
		return
	}
	// a first digit that no key of the profile has
	var used [16]bool
	for _, ds := range p.Digits {
		used[ds[0]] = true
	}
	var free []int
	for x, u := range used {
		if !u {
			free = append(free, x)
		}
	}
	if len(free) == 0 {
		return
	}
	pre := make([]int, []int{1, 1, 2, 7, 11, 12, 13, 15, 16, 17, 31}[d.rng.Intn(11)])
	for i := range pre {
		pre[i] = d.rng.Intn(16)
	}
	pre[0] = free[d.rng.Intn(len(free))]
	fork := []int{0, 0, 0, 1, 2, 6, 9, 10, 11, 12, 13, 27}[d.rng.Intn(12)]
	theCrowd = crowdT{n, pre, fork}
	ckCrowd = func(j int, iter uint) (uint64, bool) {
		if int(iter) < theCrowd.words() {
			return theCrowd.word(j, iter), true
		}
		return 0, false
	}
}

func (d *driver) crowdCount(r int) int {
	if s := d.crowd[r]; s > 0 {
		return theCrowd.n / s
	}
	return 0
}

func (d *driver) strides() []int {
	out := []int{0, 0, 1, 1, 1, 2, 4}
	if theCrowd.fork > 0 { // whole pairs, or the even ones
		out = out[:5]
		for e := 1; theCrowd.n/2%(e*16) == 0; e *= 16 {
			out = append(out, e*2, e*4, e*8, e*16)
		}
		return out
	}
	for e := 1; theCrowd.n%(e*16) == 0; e *= 16 {
		out = append(out, e, e*2, e*4, e*8)
	}
	return out
}

// members makes the multiples of stride the members present, instead of those of was.
func (d *driver) members(rng *rand.Rand, h, was, stride int) {
	in := func(s, j int) bool { return s > 0 && j%s == 0 }
	n := theCrowd.n
	start, step := 0, 1
	switch rng.Intn(3) {
	case 0:
		start, step = n-1, n-1 // downwards
	case 1: // scattered
		start, step = rng.Intn(n), 7919
	}
	rewrite := rng.Intn(4) == 0
	for i, j := 0, start; i < n; i, j = i+1, (j+step)%n {
		switch {
		case in(stride, j) && (!in(was, j) || rewrite):
			d.st.Join(h, j)
		case !in(stride, j) && in(was, j):
			d.st.Leave(h, j)
		}
	}
}

// opCrowd makes the multiples of stride the members present.
func (d *driver) opCrowd(h, stride int) {
	r := d.root[h]
	pan := d.try("Crowd", h, func() { d.members(d.rng, h, d.crowd[r], stride) })
	d.crowd[r] = stride
	d.writes++
	d.emitCrowd(h, pan)
}

func (d *driver) emitCrowd(h int, pan bool) {
	d.emit(`{"e":"Crowd","h":%d,"n":%d,"stride":%d,"pre":%d,"fork":%d,"size":%d,"pan":%s}`, h, d.crowdCount(d.root[h]), d.crowd[d.root[h]],
		len(theCrowd.prefix), theCrowd.fork, theCrowd.n, b(pan))
}

// seek looks all members up.
func (d *driver) seek(h, stride int) (hits, extra, wrong int) {
	for j := 0; j < theCrowd.n; j++ {
		found, right := d.st.Find(h, j)
		if found && stride > 0 && j%stride == 0 {
			hits++
		} else if found {
			extra++
		}
		if !right {
			wrong++
		}
	}
	return
}

func (d *driver) opSeek(h int) {
	hits, extra, wrong := 0, 0, 0
	pan := d.try("Seek", h, func() { hits, extra, wrong = d.seek(h, d.crowd[d.root[h]]) })
	d.emit(`{"e":"Seek","h":%d,"size":%d,"hits":%d,"extra":%d,"wrong":%d,"pan":%s}`, h, theCrowd.n, hits, extra, wrong, b(pan))
}

// crowdVisits summarizes the visits to the crowd during an iteration.
type crowdVisits struct {
	stride, max     int
	seen            map[int]bool
	n, extra, wrong int
	order           uint32
}

func (d *driver) visits(stride int) *crowdVisits {
	return &crowdVisits{stride: stride, max: d.st.MaxVal(), seen: map[int]bool{}}
}

func (v *crowdVisits) visit(j int, c cell) {
	v.order = v.order*16777619 ^ uint32(j)
	if v.stride == 0 || j%v.stride != 0 || j >= theCrowd.n || v.seen[j] {
		v.extra++
		return
	}
	v.seen[j] = true
	v.n++
	if c.Load() != memberVal(j, v.max) {
		v.wrong++
	}
}

func (v *crowdVisits) String() string {
	return fmt.Sprintf(`"cn":%d,"cx":%d,"cw":%d,"co":%d`, v.n, v.extra, v.wrong, v.order>>2)
}

// ---- memory

//go:noinline
func heapNow() int {
	clearStack(64)
	least := 0
	for i := 0; i < 3; i++ {
		var ms runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&ms)
		if n := int(ms.HeapAlloc); i == 0 || n < least {
			least = n
		}
	}
	return least
}

// opMem compares the memory of the container of handle h with that of a new
// one holding the same keys.  Both are dropped to measure them.
func (d *driver) opMem(h int) {
	if d.c.Handles < 2 || len(d.frames) > 0 {
		return
	}
	g := 1 + (h+d.rng.Intn(d.c.Handles-1))%d.c.Handles
	if d.root[h] == 0 {
		d.opNew(h)
	}
	r := d.root[h]
	if theCrowd.n > 0 && d.rng.Intn(4) > 0 { // a large container, mostly emptied again
		d.opCrowd(h, 1)
		ss := d.strides()[5:]
		for i := 1 + d.rng.Intn(2); i > 0; i-- {
			d.opCrowd(h, ss[d.rng.Intn(min(len(ss), 6))])
		}
		if d.rng.Intn(4) == 0 {
			d.opCrowd(h, 0)
		}
	}
	for p := 1; p <= d.c.Ptrs; p++ {
		if d.ptrSet[p] {
			d.st.Forget(p)
			d.ptrSet[p] = false
			d.emit(`{"e":"Forget","p":%d}`, p)
		}
	}
	for i := 1; i <= d.c.Handles; i++ {
		if i != h && d.root[i] == r {
			d.opDrop(i)
		}
	}
	d.opNew(g)
	for k := 1; k <= d.c.N; k++ {
		if d.set[r][k] {
			if d.st.IsSet() {
				d.opAdd(g, k)
			} else {
				d.opSet(g, k, d.nextVal())
			}
		}
	}
	if s := d.crowd[r]; s > 0 {
		d.opCrowd(g, s)
	}
	x := heapNow()
	d.st.Drop(h)
	y := heapNow()
	d.st.Drop(g)
	z := heapNow()
	w := z
	var ks, js []int
	for k := 1; k <= d.c.N; k++ {
		if d.set[r][k] {
			ks = append(ks, k)
		}
	}
	for j := 0; j < theCrowd.n; j++ {
		if s := d.crowd[r]; s > 0 && j%s == 0 {
			js = append(js, j)
		}
	}
	if len(ks)+len(js) > 0 {
		z0 := heapNow()
		hold := d.st.Bare(ks, js)
		w += heapNow() - z0
		runtime.KeepAlive(hold)
		runtime.KeepAlive(js)
	}
	d.emit(`{"e":"Mem","h":%d,"g":%d,"a":%d,"b":%d,"c":%d,"z":%d,"ref":%d,"x":%s}`, h, g, x-y, max(0, y-z), max(0, w-z), z, d.mem, b(d.known()))
	d.opDrop(h)
	d.opDrop(g)
	d.opNew(h)
}
