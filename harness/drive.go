package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// The driver makes a random history of calls on real containers and writes
// down every call with its result, one JSON object per line.  It decides
// nothing: whether the history is one the specification allows is decided by
// TLC (spec/Trace.tla).

type campaign struct {
	Kind     string         `json:"kind"`
	Keys     string         `json:"keys"`
	Vals     string         `json:"vals"`
	N        int            `json:"n"`
	Handles  int            `json:"handles"`
	Nest     bool           `json:"nest"`
	Ptrs     int            `json:"ptrs"`
	Frames   int            `json:"frames"`
	Profiles []string       `json:"profiles"` // empty: true hashing
	Segments int            `json:"segments"`
	Len      int            `json:"len"`
	Weights  map[string]int `json:"weights"`
	Seed     int64          `json:"seed"`
	StartNil bool           `json:"startnil"`
	Watch    bool           `json:"watch"`   // observe the release of keys and values
	HashLog  bool           `json:"hashlog"` // record the Hash calls of custom keys
	GCStress bool           `json:"gcstress"`
	Scratch  bool           `json:"scratch"`
	Crowd    int            `json:"crowd"`   // size of the crowd
	Workers  int            `json:"workers"` // goroutines of a Par step
}

// ---- watchdog: a call that does not return, or eats all memory

var (
	opStart atomic.Int64
	opName  atomic.Value
)

func startWatchdog(limit time.Duration, maxHeap uint64) {
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			if t := opStart.Load(); t != 0 && time.Since(time.Unix(0, t)) > limit {
				stop("hang", fmt.Sprint(opName.Load()))
			}
			if opStart.Load() != 0 {
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > maxHeap {
					stop("memory", fmt.Sprint(opName.Load()))
				}
			}
		}
	}()
}

var stopHook func(what, op string)

func stop(what, op string) {
	if stopHook != nil {
		stopHook(what, op)
	}
	fmt.Fprintf(os.Stderr, "STUCK %s in %s\n", what, op)
	os.Exit(7)
}

type sentinel struct{ n int }
type abortT struct{}

var abort = abortT{}

type frame struct {
	mod  bool
	root int
	c    cell
}

type driver struct {
	c      campaign
	st     store
	rng    *rand.Rand
	out    *bufio.Writer
	line   int
	wat    *watcher
	exact  bool
	hooked bool

	// the driver's own idea of the situation: only used to choose calls
	root    []int          // per handle
	set     map[int][]bool // per root: present keys
	nroots  int
	ptrSet  []bool
	frames  []frame
	val     int
	refs    map[string]int
	seeds   map[int][]maphash.Seed
	keyBase int
	active  []int
	fill    float64
	dead    bool
	ops     []string
	cum     []int
	total   int
	lastAll string
	oth     int         // the visit of another container with the same keys
	allAt   int         // the last visit
	mem     int         // the first measurement
	crowd   map[int]int // per root: the stride of the members present, 0: none
	writes  int
	sent    int
	maxLen  int
}

func (d *driver) emit(s string, args ...any) int {
	d.line++
	fmt.Fprintf(d.out, s, args...)
	d.out.WriteByte('\n')
	d.out.Flush()
	if d.wat != nil {
		d.wat.stamp = d.line
	}
	return d.line
}

func b(x bool) string {
	if x {
		return "true"
	}
	return "false"
}

func q(s string) string { j, _ := json.Marshal(s); return string(j) }

func ints(xs []int) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i, x := range xs {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprint(&sb, x)
	}
	sb.WriteByte(']')
	return sb.String()
}

func rational(x float64, n int) (int, int) {
	if math.IsNaN(x) || math.IsInf(x, 0) || x < 0 || x > 1e6 {
		return -1, 1
	}
	for q := 1; q <= n; q++ {
		p := math.Round(x * float64(q))
		if p/float64(q) == x {
			return int(p), q
		}
	}
	return -1, 1
}

// try makes a call.  On a live container an unexpected panic is recorded and
// ends the segment.
func (d *driver) try(op string, h int, f func()) (pan bool) { return d.tryIn(op, h, false, f) }

// tryIn makes the call on a goroutine of its own if own is set: callbacks may
// then end it (leave).
func (d *driver) tryIn(op string, h int, own bool, f func()) (pan bool) {
	var r any
	live := h == 0 || d.root[h] != 0
	call := func() {
		ended := false
		defer func() {
			opStart.Store(0)
			if x := recover(); x != nil {
				r, pan = x, true
			} else if !ended { // runtime.Goexit
				r, pan = sentinel{d.sent}, true
			}
		}()
		opName.Store(op)
		opStart.Store(time.Now().UnixNano())
		f()
		ended = true
	}
	if own {
		done := make(chan bool)
		go func() {
			defer close(done)
			call()
		}()
		<-done
	} else {
		call()
	}
	if !pan {
		return false
	}
	switch x := r.(type) {
	case abortT:
		panic(x)
	case sentinel:
		if x.n == d.sent {
			return true
		}
	}
	if !live {
		return true
	}
	d.crash(op, r)
	return true
}

// leave ends a callback, and the call, by a panic or by ending the goroutine.
func (d *driver) leave(own bool) {
	d.sent++
	if own && d.rng.Intn(2) == 0 {
		runtime.Goexit()
	}
	panic(sentinel{d.sent})
}

func (d *driver) crash(op string, r any) {
	d.emit(`{"e":"crash","op":%s,"msg":%s}`, q(op), q(fmt.Sprint(r)))
	panic(abort)
}

func (d *driver) nextVal() int {
	m := d.st.MaxVal()
	if m < 0 {
		return 0
	}
	if d.rng.Intn(20) == 0 {
		return 0
	}
	d.val++
	if m > 0 {
		return d.val % (m + 1)
	}
	return d.val
}

func (d *driver) setKey(r int) string {
	var sb strings.Builder
	fmt.Fprint(&sb, r, ":")
	for k, p := range d.set[r] {
		if p {
			fmt.Fprint(&sb, k, ",")
		}
	}
	if s := d.crowd[r]; s > 0 {
		fmt.Fprint(&sb, "/", s)
	}
	return sb.String()
}

func (d *driver) hashes(h, k int) {
	if !d.c.HashLog {
		return
	}
	ckLogOn = false
	if d.root[h] != 0 && !d.dead {
		var sb strings.Builder
		for i, x := range ckLog {
			if i > 0 {
				sb.WriteByte(',')
			}
			own := false
			for _, s := range d.seeds[d.root[h]] {
				own = own || s == x.Seed
			}
			fmt.Fprintf(&sb, "[%d,%d,%s]", x.K, x.Iter, map[bool]string{true: "1", false: "0"}[own])
		}
		d.emit(`{"e":"hash","h":%d,"k":%d,"cs":[%s]}`, h, k, sb.String())
	}
	ckLog = ckLog[:0]
}

func (d *driver) logHash() {
	if d.c.HashLog {
		ckLog, ckLogOn = ckLog[:0], true
	}
}

// ---- single calls

func (d *driver) opNew(h int) {
	d.try("New", 0, func() { d.st.New(h) })
	d.nroots++
	d.root[h] = d.nroots
	d.set[d.nroots] = make([]bool, d.c.N+1)
	d.seeds[d.nroots] = append([]maphash.Seed(nil), lastSeeds...)
	d.emit(`{"e":"New","h":%d}`, h)
	d.renew()
}

func (d *driver) opDrop(h int) {
	d.try("Drop", 0, func() { d.st.Drop(h) })
	d.root[h] = 0
	d.emit(`{"e":"Drop","h":%d}`, h)
	d.renew()
}

// instance is the key made last, where keys can be told apart.
func (d *driver) instance() int {
	if d.st.Instances() {
		return int(ckSerial)
	}
	return 0
}

func (d *driver) opSet(h, k, v int) {
	d.logHash()
	pan := d.try("Set", h, func() { d.st.Set(h, k, v) })
	d.emit(`{"e":"Set","h":%d,"k":%d,"v":%d,"in":%d,"pan":%s}`, h, k, v, d.instance(), b(pan))
	if d.root[h] != 0 {
		d.set[d.root[h]][k] = true
	}
	d.hashes(h, k)
	d.writes++
}

// renew gives keys that no container holds new memory.
func (d *driver) renew() {
	if d.wat == nil || len(d.frames) > 0 {
		return
	}
	for k := 1; k <= d.c.N; k++ {
		held := false
		for _, r := range d.root {
			held = held || r != 0 && d.set[r][k]
		}
		if !held {
			d.st.Renew(k)
		}
	}
}

func (d *driver) opAdd(h, k int) {
	d.logHash()
	add := d.st.Add
	if d.root[h] != 0 && d.set[d.root[h]][k] {
		add = d.st.AddAgain
	}
	pan := d.try("Add", h, func() { add(h, k) })
	d.emit(`{"e":"Add","h":%d,"k":%d,"in":%d,"pan":%s}`, h, k, d.instance(), b(pan))
	if d.root[h] != 0 {
		d.set[d.root[h]][k] = true
	}
	d.hashes(h, k)
	d.writes++
}

func (d *driver) opDel(h, k int) {
	d.logHash()
	pan := d.try("Del", h, func() { d.st.Del(h, k) })
	d.emit(`{"e":"Del","h":%d,"k":%d,"pan":%s}`, h, k, b(pan))
	if d.root[h] != 0 {
		d.set[d.root[h]][k] = false
	}
	d.renew()
	d.hashes(h, k)
	d.writes++
}

func (d *driver) opModA(h, k, v int) {
	calls, ex, old := 0, false, 0
	d.logHash()
	pan := d.try("ModA", h, func() {
		d.st.Mod(h, k, func(c cell, e bool) {
			calls++
			if calls == 1 {
				ex, old = e, c.Load()
				c.Store(v)
			}
		})
	})
	d.emit(`{"e":"ModA","h":%d,"k":%d,"v":%d,"in":%d,"ex":%s,"old":%d,"calls":%d,"pan":%s}`, h, k, v, d.instance(), b(ex), old, calls, b(pan))
	if d.root[h] != 0 {
		d.set[d.root[h]][k] = true
	}
	d.hashes(h, k)
	d.writes++
}

func (d *driver) opLookup(op string, h, k int) {
	var v int
	var ok bool
	d.logHash()
	pan := d.try(op, h, func() {
		switch op {
		case "Get":
			v, ok = d.st.Get(h, k)
		case "Ptr":
			v, ok = d.st.Ptr(h, k)
		case "Val":
			v = d.st.Val(h, k)
		case "Has":
			ok = d.st.Has(h, k)
		}
	})
	d.emit(`{"e":"%s","h":%d,"k":%d,"v":%d,"ok":%s,"pan":%s}`, op, h, k, v, b(ok), b(pan))
	d.hashes(h, k)
}

func (d *driver) opLen(h int) {
	var n uint
	pan := d.try("Len", h, func() { n = d.st.Len(h) })
	if n > 1<<30 {
		n = 1 << 30
	}
	d.emit(`{"e":"Len","h":%d,"n":%d,"pan":%s}`, h, n, b(pan))
}

// known: whether all hashes since the reset were programmed ones.
func (d *driver) known() bool {
	return d.exact && (!d.hooked || hookExact()) && ckPast.Load() == 0
}

func (d *driver) opDep(h int) {
	var x float64
	pan := d.try("Dep", h, func() { x = d.st.Dep(h) })
	d.emitDep(h, x, pan)
}

func (d *driver) emitDep(h int, x float64, pan bool) {
	p, q := rational(x, d.c.N)
	if c := d.crowdCount(d.root[h]); c > 0 { // give the sum of the depths
		q = c
		for _, in := range d.set[d.root[h]] {
			if in {
				q++
			}
		}
		p = int(math.Round(x * float64(q)))
		if float64(p)/float64(q) != x || p < 0 || p > 1<<30 {
			p = -1
		}
	}
	ref := 0
	if r := d.root[h]; r != 0 {
		ref = d.refs["dep"+d.setKey(r)]
	}
	n := d.emit(`{"e":"Dep","h":%d,"p":%d,"q":%d,"ref":%d,"x":%s,"pan":%s}`, h, p, q, ref, b(d.known()), b(pan))
	if r := d.root[h]; r != 0 && ref == 0 {
		d.refs["dep"+d.setKey(r)] = n
	}
}

func (d *driver) opNil(h int) {
	var ok bool
	pan := d.try("Nil", 0, func() { ok = d.st.Nil(h) })
	d.emit(`{"e":"Nil","h":%d,"ok":%s,"pan":%s}`, h, b(ok), b(pan))
}

func (d *driver) opAllA(h, lim, w int) {
	var ks, vs, is []int
	op := "AllA"
	if lim > 0 {
		op = "AllN"
	} else if w >= 0 {
		op = "AllW"
	}
	cv := d.visits(d.crowd[d.root[h]])
	total := 0
	pan := d.try(op, h, func() {
		d.st.All(h, func(k int, c cell) bool {
			total++
			if total > 3*(d.c.N+theCrowd.n)+64 {
				d.crash(op, "iteration without end")
			}
			if k < 0 && theCrowd.n > 0 {
				cv.visit(-1-k, c)
				return lim == 0 || total < lim
			}
			if d.st.Instances() {
				is = append(is, shown)
			}
			ks = append(ks, k)
			vs = append(vs, c.Load())
			if op == "AllW" {
				c.Store(w)
			}
			return lim == 0 || total < lim
		})
	})
	d.emitAll(op, h, lim, w, ks, vs, is, cv, pan)
}

func (d *driver) emitAll(op string, h, lim, w int, ks, vs, is []int, cv *crowdVisits, pan bool) {
	ref, rep := 0, false
	r := d.root[h]
	if r != 0 {
		ref = d.refs["all"+d.setKey(r)]
		rep = ref != 0 && d.lastAll == fmt.Sprint(r, " ", d.writes)
	}
	n := d.emit(`{"e":"%s","h":%d,"lim":%d,"w":%d,"ks":%s,"vs":%s,"is":%s,"ref":%d,"rep":%s,"oth":%d,%v,"pan":%s}`, op, h, lim, w, ints(ks), ints(vs), ints(is), ref, b(rep), d.oth, cv, b(pan))
	d.oth, d.allAt = 0, n
	if r != 0 && lim == 0 {
		if ref == 0 {
			d.refs["all"+d.setKey(r)] = n
		}
		d.lastAll = fmt.Sprint(r, " ", d.writes)
	}
}

// opTwin gives two containers the same keys, and visits both.
func (d *driver) opTwin(h, g int) {
	if d.root[h] == 0 || d.root[g] == 0 || d.root[h] == d.root[g] || len(d.frames) > 0 {
		return
	}
	want := make([]bool, d.c.N+1)
	for _, k := range d.rng.Perm(d.c.N)[:max(d.c.N/2, d.c.N-d.rng.Intn(8))] {
		want[k+1] = true
	}
	for _, x := range []int{h, g} {
		for _, k := range d.rng.Perm(d.c.N) {
			k++
			switch {
			case want[k] == d.set[d.root[x]][k]:
			case !want[k]:
				d.opDel(x, k)
			case d.st.IsSet():
				d.opAdd(x, k)
			default:
				d.opSet(x, k, d.nextVal())
			}
		}
	}
	d.opAllA(h, 0, -1)
	d.oth = d.allAt
	d.opAllA(g, 0, -1)
}

// opMany makes many containers with the same keys, and visits each.
func (d *driver) opMany() {
	if len(d.frames) > 0 {
		return
	}
	ks := d.rng.Perm(d.c.N)[:min(d.c.N, 16+d.rng.Intn(4))]
	for j := range ks {
		ks[j]++
	}
	n := 2 + d.rng.Intn(30)
	if d.rng.Intn(4) == 0 {
		n = 50 + d.rng.Intn(1500)
	}
	var all [][]int
	d.try("Many", 0, func() { all = d.st.Many(n, []int{1, 1, 4}[d.rng.Intn(3)], ks) })
	txt := make([]string, len(all))
	for j, x := range all {
		txt[j] = ints(x)
	}
	d.emit(`{"e":"Many","ks":%s,"all":[%s]}`, ints(ks), strings.Join(txt, ","))
}

func (d *driver) opKeep(h, k, p int) {
	var ok bool
	pan := d.try("Keep", h, func() { ok = d.st.Keep(h, k, p) })
	if !pan {
		d.ptrSet[p] = ok
	}
	d.emit(`{"e":"Keep","h":%d,"k":%d,"p":%d,"ok":%s,"pan":%s}`, h, k, p, b(ok), b(pan))
}

func (d *driver) opGC() {
	d.renew() // what only the client still holds
	d.try("GC", 0, func() { runtime.GC(); runtime.GC() })
	if d.wat == nil {
		return
	}
	var av []int
	type ks struct{ k, s int }
	var ak []ks
	live := func() {
		av, ak = av[:0], ak[:0]
		keep := d.wat.list[:0]
		for _, w := range d.wat.list {
			if !w.ref.Alive() {
				continue
			}
			keep = append(keep, w)
			if w.what == 'v' {
				av = append(av, w.id)
			} else {
				ak = append(ak, ks{w.id, w.stamp})
			}
		}
		d.wat.list = keep
	}
	live()
	// what the client itself could still hold in dead stack slots is gone after another round
	clearStack(64)
	runtime.GC()
	live()
	sort.Ints(av)
	var sb strings.Builder
	for i, x := range ak {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, "[%d,%d]", x.k, x.s)
	}
	d.emit(`{"e":"gc","wv":%s,"av":%s,"ak":[%s]}`, b(d.st.Watches()), ints(av), sb.String())
}

//go:noinline
func clearStack(n int) int {
	var a [256]byte
	for i := range a {
		a[i] = byte(n)
	}
	if n == 0 {
		return int(a[0])
	}
	return clearStack(n-1) + int(a[n])
}

// ---- calls with open callbacks

func (d *driver) opMod(h, k int) {
	calls, want := 0, false
	root := d.root[h] // the callback may give h to another container
	own := d.rng.Intn(3) == 0
	pan := d.tryIn("Mod", h, own, func() {
		d.st.Mod(h, k, func(c cell, ex bool) {
			calls++
			if calls > 1 {
				d.emit(`{"e":"ModTwice"}`)
				panic(abort)
			}
			opStart.Store(0)
			d.emit(`{"e":"ModBegin","h":%d,"k":%d,"in":%d,"ex":%s,"v":%d,"pan":false}`, h, k, d.instance(), b(ex), c.Load())
			d.frames = append(d.frames, frame{true, root, c})
			d.inside()
			d.frames = d.frames[:len(d.frames)-1]
			if d.rng.Intn(4) == 0 {
				want = true
				d.leave(own)
			}
			opStart.Store(time.Now().UnixNano())
		})
	})
	switch {
	case root == 0:
		d.emit(`{"e":"ModBegin","h":%d,"k":%d,"in":0,"ex":false,"v":0,"calls":%d,"pan":%s}`, h, k, calls, b(pan))
	case want && pan:
		d.emit(`{"e":"ModPanic"}`)
	case want:
		d.emit(`{"e":"PanicLost"}`)
		panic(abort)
	case calls == 0:
		d.emit(`{"e":"ModNoCall"}`)
		panic(abort)
	default:
		d.emit(`{"e":"ModEnd"}`)
		d.set[root][k] = true
	}
	d.writes++
}

func (d *driver) opAll(h int) {
	ended := "AllEnd"
	calls := 0
	began := false
	root := d.root[h]
	begin := func() {
		if !began {
			began = true
			d.emit(`{"e":"AllBegin","h":%d,"pan":false}`, h)
		}
	}
	own := d.rng.Intn(3) == 0
	pan := d.tryIn("All", h, own, func() {
		d.st.All(h, func(k int, c cell) bool {
			opStart.Store(0)
			calls++
			if calls > 3*d.c.N+64 {
				d.crash("All", "iteration without end")
			}
			begin()
			if ended == "AllStop" {
				d.emit(`{"e":"AllExtra"}`)
				panic(abort)
			}
			d.emit(`{"e":"AllNext","k":%d,"in":%d,"v":%d}`, k, shown, c.Load())
			d.frames = append(d.frames, frame{false, root, c})
			d.inside()
			d.frames = d.frames[:len(d.frames)-1]
			opStart.Store(time.Now().UnixNano())
			switch d.rng.Intn(24) {
			case 0:
				ended = "AllStop"
				return false
			case 1:
				ended = "AllPanic"
				d.leave(own)
			}
			d.emit(`{"e":"AllCont"}`)
			return true
		})
	})
	if root == 0 {
		d.emit(`{"e":"AllBegin","h":%d,"calls":%d,"pan":%s}`, h, calls, b(pan))
		return
	}
	begin()
	if ended == "AllPanic" && !pan {
		d.emit(`{"e":"PanicLost"}`)
		panic(abort)
	}
	d.emit(`{"e":"%s"}`, ended)
}

func (d *driver) inside() {
	for n := d.rng.Intn(5); n > 0; n-- {
		d.step()
	}
}

func (d *driver) busy(h int) bool {
	for _, f := range d.frames {
		if f.root == d.root[h] && d.root[h] != 0 {
			return true
		}
	}
	return false
}

// ---- choosing calls

var defaultWeights = map[string]int{
	"Set": 30, "Add": 30, "Del": 25, "ModA": 12, "Get": 12, "Val": 4, "Ptr": 6, "Has": 14, "Len": 3, "Dep": 3,
	"Nil": 1, "AllA": 3, "AllN": 1, "AllW": 1,
}

func (d *driver) pickKey() int {
	if d.rng.Intn(12) == 0 {
		return 1 + d.rng.Intn(d.c.N)
	}
	return d.active[d.rng.Intn(len(d.active))]
}

func (d *driver) pickOp() string {
	x := d.rng.Intn(d.total)
	i := sort.SearchInts(d.cum, x+1)
	return d.ops[i]
}

func (d *driver) step() {
	if d.rng.Intn(40) == 0 {
		d.phase()
	}
	h := 1 + d.rng.Intn(d.c.Handles)
	if d.c.Handles > 1 && d.rng.Intn(3) > 0 { // prefer live handles
		for i := 0; i < 4 && d.root[h] == 0; i++ {
			h = 1 + d.rng.Intn(d.c.Handles)
		}
	}
	op := d.pickOp()
	k := d.pickKey()
	switch op {
	case "Set", "Add", "ModA", "Mod", "Del", "AllW":
		if d.busy(h) {
			return
		}
		// follow the phase: fill up or drain
		if op != "AllW" && d.root[h] != 0 && d.rng.Intn(3) > 0 {
			if d.rng.Float64() > d.fill {
				op = "Del"
			} else if op == "Del" {
				op = "Set"
				if d.st.IsSet() {
					op = "Add"
				}
			}
		}
	}
	switch op {
	case "New":
		d.opNew(h)
	case "Copy":
		g := 1 + d.rng.Intn(d.c.Handles)
		if g != h {
			d.try("Copy", 0, func() { d.st.Copy(h, g) })
			d.root[g] = d.root[h]
			d.emit(`{"e":"Copy","h":%d,"g":%d}`, h, g)
			d.renew()
		}
	case "Drop":
		d.opDrop(h)
	case "Set":
		d.opSet(h, k, d.nextVal())
	case "Add":
		d.opAdd(h, k)
	case "Del":
		d.opDel(h, k)
	case "ModA":
		d.opModA(h, k, d.nextVal())
	case "Mod":
		if len(d.frames) < d.c.Frames {
			d.opMod(h, k)
		}
	case "All":
		if len(d.frames) < d.c.Frames && d.crowdCount(d.root[h]) == 0 {
			d.opAll(h)
		}
	case "Get", "Val", "Ptr", "Has":
		d.opLookup(op, h, k)
	case "Len":
		d.opLen(h)
	case "Dep":
		d.opDep(h)
	case "Nil":
		d.opNil(h)
	case "AllA":
		d.opAllA(h, 0, -1)
		if d.rng.Intn(4) == 0 {
			d.opAllA(h, 0, -1)
		}
	case "Twin":
		d.opTwin(h, 1+d.rng.Intn(d.c.Handles))
	case "Many":
		d.opMany()
	case "AllN":
		d.opAllA(h, 1+d.rng.Intn(d.c.N), -1)
	case "AllW":
		d.opAllA(h, 0, d.nextVal())
	case "Keep":
		d.opKeep(h, k, 1+d.rng.Intn(d.c.Ptrs))
	case "Load", "Store", "SamePtr", "Forget":
		p := 1 + d.rng.Intn(d.c.Ptrs)
		if !d.ptrSet[p] {
			return
		}
		switch op {
		case "Load":
			var v int
			d.try("Load", 0, func() { v = d.st.Load(p) })
			d.emit(`{"e":"Load","p":%d,"v":%d}`, p, v)
		case "Store":
			v := d.nextVal()
			d.try("Store", 0, func() { d.st.StoreP(p, v) })
			d.emit(`{"e":"Store","p":%d,"v":%d}`, p, v)
		case "Forget":
			d.st.Forget(p)
			d.ptrSet[p] = false
			d.emit(`{"e":"Forget","p":%d}`, p)
		case "SamePtr":
			if r := d.root[h]; r != 0 && d.set[r][k] && d.st.MaxVal() >= 0 {
				var ok bool
				d.try("SamePtr", h, func() { ok = d.st.SamePtr(h, k, p) })
				d.emit(`{"e":"SamePtr","h":%d,"k":%d,"p":%d,"ok":%s}`, h, k, p, b(ok))
			}
		}
	case "CbLoad", "CbStore", "CbKeep":
		if len(d.frames) == 0 || d.st.IsSet() {
			return
		}
		c := d.frames[len(d.frames)-1].c
		switch op {
		case "CbLoad":
			d.emit(`{"e":"CbLoad","v":%d}`, c.Load())
		case "CbStore":
			v := d.nextVal()
			c.Store(v)
			d.emit(`{"e":"CbStore","v":%d}`, v)
		case "CbKeep":
			p := 1 + d.rng.Intn(d.c.Ptrs)
			c.Keep(p)
			d.ptrSet[p] = true
			d.emit(`{"e":"CbKeep","p":%d}`, p)
		}
	case "gc":
		d.opGC()
	case "Crowd":
		if theCrowd.n > 0 && !d.busy(h) && d.root[h] != 0 {
			ss := d.strides()
			d.opCrowd(h, ss[d.rng.Intn(len(ss))])
			switch d.rng.Intn(3) {
			case 0:
				d.opSeek(h)
			case 1:
				d.look(h)
			}
		}
	case "Seek":
		if theCrowd.n > 0 && d.root[h] != 0 {
			d.opSeek(h)
		}
	case "Mem":
		d.opMem(h)
	case "Par":
		if len(d.frames) == 0 {
			d.par()
		}
	case "Detour":
		if !d.busy(h) && d.root[h] != 0 && len(d.frames) == 0 {
			d.detour(h)
		}
	case "Refill":
		if !d.busy(h) && d.root[h] != 0 && len(d.frames) == 0 {
			d.refill(h)
		}
	case "Sweep":
		if d.root[h] != 0 {
			d.sweep(h)
		}
	}
}

// phase chooses which keys to work on, and whether to fill up or drain.
func (d *driver) phase() {
	n := d.c.N
	w := 1 + d.rng.Intn(n)
	if d.rng.Intn(2) == 0 {
		w = 1 + d.rng.Intn(min(n, 8))
	}
	d.active = d.active[:0]
	if d.rng.Intn(4) == 0 { // scattered
		for i := 0; i < w; i++ {
			d.active = append(d.active, 1+d.rng.Intn(n))
		}
	} else { // neighbours collide deepest
		s := d.rng.Intn(n)
		for i := 0; i < w; i++ {
			d.active = append(d.active, 1+(s+i)%n)
		}
	}
	d.fill = []float64{0.05, 0.3, 0.5, 0.7, 0.95}[d.rng.Intn(5)]
}

func (d *driver) write(h, k int) {
	if d.st.IsSet() {
		d.opAdd(h, k)
	} else if d.rng.Intn(3) == 0 {
		d.opModA(h, k, d.nextVal())
	} else {
		d.opSet(h, k, d.nextVal())
	}
}

// detour looks at the container, changes it, changes it back by another way,
// and looks again.
func (d *driver) detour(h int) {
	r := d.root[h]
	d.look(h)
	was := append([]bool(nil), d.set[r]...)
	for i := 1 + d.rng.Intn(10); i > 0; i-- {
		k := d.pickKey()
		if d.set[r][k] {
			d.opDel(h, k)
		} else if d.rng.Intn(5) == 0 {
			d.opDel(h, k) // missing
		} else {
			d.write(h, k)
		}
		if d.rng.Intn(6) == 0 {
			d.look(h)
		}
	}
	for _, k := range d.rng.Perm(d.c.N) {
		k++
		if was[k] && !d.set[r][k] {
			d.write(h, k)
		} else if !was[k] && d.set[r][k] {
			d.opDel(h, k)
		}
	}
	d.look(h)
}

// refill empties the container, or a part of it, and fills it again in
// another order.
func (d *driver) refill(h int) {
	r := d.root[h]
	d.look(h)
	was := append([]bool(nil), d.set[r]...)
	for _, k := range d.rng.Perm(d.c.N) {
		k++
		if d.set[r][k] && d.rng.Intn(8) > 0 {
			d.opDel(h, k)
		}
	}
	d.opLen(h)
	d.opDep(h)
	for _, k := range d.rng.Perm(d.c.N) {
		k++
		if was[k] && !d.set[r][k] {
			d.write(h, k)
		}
	}
	d.look(h)
}

func (d *driver) look(h int) {
	d.opLen(h)
	d.opDep(h)
	d.opAllA(h, 0, -1)
}

// sweep looks up every key.
func (d *driver) sweep(h int) {
	ops := []string{"Get", "Val", "Ptr"}
	if d.st.IsSet() {
		ops = []string{"Has"}
	}
	for k := 1; k <= d.c.N; k++ {
		d.opLookup(ops[d.rng.Intn(len(ops))], h, k)
	}
	d.opLen(h)
}

func (d *driver) segment(prof *profile) {
	if d.wat != nil {
		d.wat.list = nil
	}
	d.st.(profiled).setProfile(prof)
	name := ""
	ckWords = nil
	ckPast.Store(0)
	d.exact, d.hooked = false, false
	if prof != nil {
		name = prof.Name
		hookReset()
		d.exact = true
		if strings.HasSuffix(d.c.Kind, "/Custom") {
			ckWords = prof.Words()
		} else {
			d.hooked = true
		}
	} else {
		hookDisable()
	}
	d.st.Reset()
	d.root = make([]int, d.c.Handles+1)
	d.set = map[int][]bool{}
	d.seeds = map[int][]maphash.Seed{}
	d.ptrSet = make([]bool, d.c.Ptrs+1)
	d.frames = d.frames[:0]
	d.refs = map[string]int{}
	d.lastAll = ""
	d.crowdStart(prof)
	d.emit(`{"e":"reset","prof":%s}`, q(name))
	if d.mem == 0 && prof == nil && d.c.Weights["Mem"] > 0 && d.c.Keys != "huge" {
		d.mem = d.emit(`{"e":"Heap","z":%d}`, heapNow())
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortT); !ok {
				panic(r)
			}
		}
	}()
	d.phase()
	if !d.c.StartNil {
		for h := 1; h <= d.c.Handles; h++ {
			d.opNew(h)
		}
	}
	for i := 0; i < d.c.Len; i++ {
		d.step()
	}
	for h := 1; h <= d.c.Handles; h++ {
		if d.root[h] != 0 {
			d.sweep(h)
			d.look(h)
		}
	}
	if d.c.Watch {
		d.opGC()
	}
}

func newDriver(c campaign, out *bufio.Writer) *driver {
	d := &driver{c: c, rng: rand.New(rand.NewSource(c.Seed)), out: out}
	if c.Ptrs == 0 {
		d.c.Ptrs = 1
	}
	if c.Handles == 0 {
		d.c.Handles = 1
	}
	if c.Watch {
		d.wat = &watcher{on: true}
		noReuse = true
	}
	d.st = newStore(storeCfg{Kind: c.Kind, Keys: c.Keys, Vals: c.Vals, N: c.N, Handles: d.c.Handles, Nest: c.Nest, watch: d.wat})
	if d.st == nil {
		return nil
	}
	ws := c.Weights
	if ws == nil {
		ws = defaultWeights
	}
	for op := range ws {
		d.ops = append(d.ops, op)
	}
	sort.Strings(d.ops)
	mapOnly := map[string]bool{"Set": true, "ModA": true, "Mod": true, "Get": true, "Val": true, "Ptr": true, "AllW": true,
		"Keep": true, "Load": true, "Store": true, "SamePtr": true, "Forget": true, "CbLoad": true, "CbStore": true, "CbKeep": true}
	setOnly := map[string]bool{"Add": true, "Has": true}
	keep := d.ops[:0]
	for _, op := range d.ops {
		if d.st.IsSet() && mapOnly[op] || !d.st.IsSet() && setOnly[op] || ws[op] == 0 {
			continue
		}
		keep = append(keep, op)
		d.total += ws[op]
		d.cum = append(d.cum, d.total)
	}
	d.ops = keep
	return d
}

func fatal(err any) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(9)
}

// cmdTrace: amtharness trace CAMPAIGN.json PROFILES.json OUT.ndjson
func cmdTrace(args []string) {
	var c campaign
	bs, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(bs, &c)
	}
	if err != nil {
		fatal(err)
	}
	byName := map[string]*profile{}
	for _, p := range loadProfiles(args[1]) {
		byName[p.Name] = p
	}
	f, err := os.Create(args[2])
	if err != nil {
		fatal(err)
	}
	out := bufio.NewWriterSize(f, 1<<20)
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(256 << 20)
	if c.GCStress {
		debug.SetGCPercent(1)
	}
	d := newDriver(c, out)
	if d == nil {
		fatal("no such container: " + c.Kind)
	}
	stopHook = func(what, op string) {
		d.emit(`{"e":"crash","op":%s,"msg":%s}`, q(op), q(what))
		out.Flush()
		os.Exit(0)
	}
	startWatchdog(30*time.Second, 1500<<20)
	d.emit(`{"e":"start","set":%s,"n":%d,"handles":%d,"kind":%s}`, b(d.st.IsSet()), c.N, d.c.Handles, q(c.Kind))
	for s := 0; s < c.Segments; s++ {
		var p *profile
		if len(c.Profiles) > 0 {
			p = byName[c.Profiles[s%len(c.Profiles)]]
			if p == nil {
				fatal("no such profile")
			}
		}
		d.segment(p)
	}
	d.emit(`{"e":"end"}`)
	if err := out.Flush(); err != nil {
		fatal(err)
	}
	f.Close()
}
