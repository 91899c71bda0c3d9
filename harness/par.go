package main

import (
	"fmt"
	"maps"
	"math/rand"
	"runtime"
	"sync"
	"time"
)

// A parallel step: several goroutines call the reading operations at the same
// time, with nothing between them that would order their accesses.  Some of
// them may instead write to (and read) a container none of the others uses.
// The calls are written down goroutine by goroutine: in the specification reads
// commute, and a writer's container is its own.  Or they update values of the
// same container through pointers, each those of keys of its own; the others
// do not read the values of these keys.

type parCall struct {
	op         string
	h, k, v, n int
	old        int
	f          float64
	ok, pan    bool
	msg        string
	ks, vs     []int

	hits, extra, wrong int // of a search for the crowd
	stride             int // of the members present then
	cv                 *crowdVisits
}

func (d *driver) par() {
	n := 2 + d.rng.Intn(max(1, d.c.Workers-1))
	var writers []int // the handles of the containers written to, by goroutine
	if d.c.Handles > 1 && d.rng.Intn(3) > 0 {
		most := 1 + d.rng.Intn(n)
	next:
		for _, i := range d.rng.Perm(d.c.Handles) {
			h := i + 1
			if d.root[h] == 0 || len(writers) == most {
				continue
			}
			for _, g := range writers {
				if d.root[g] == d.root[h] {
					continue next
				}
			}
			writers = append(writers, h)
		}
	}
	var readable []int
	for h := 1; h <= d.c.Handles; h++ {
		mine := true
		for _, g := range writers {
			mine = mine && d.root[h] != d.root[g]
		}
		if mine {
			readable = append(readable, h)
		}
	}
	if len(readable) == 0 {
		n = len(writers)
	}
	if n == 0 {
		return
	}
	if len(readable) > 0 && d.rng.Intn(2) == 0 { // all on the same one
		readable = []int{readable[d.rng.Intn(len(readable))]}
	}
	base := d.instance()
	inst := func(k int) int { // of the keys in use during the concurrent calls
		if d.st.Instances() {
			return base + k
		}
		return 0
	}
	d.st.Fix(true)
	was := noReuse
	noReuse = true
	logs := make([][]parCall, n)
	var owner map[int]int // goroutines (from 1) that update the values of keys
	if !d.st.IsSet() && d.rng.Intn(2) == 0 {
		owner = map[int]int{}
		for _, k := range d.active {
			if d.rng.Intn(3) > 0 {
				owner[k] = 1 + d.rng.Intn(n)
			}
		}
		if d.ptrSet[1] {
			d.st.Forget(1)
			d.ptrSet[1] = false
			d.emit(`{"e":"Forget","p":1}`)
		}
	}
	one := "" // every goroutine makes the same kind of call
	if d.rng.Intn(3) == 0 {
		one = parReads(d.st.IsSet())[d.rng.Intn(len(parReads(d.st.IsSet())))]
	}
	same := int64(0)
	if d.rng.Intn(4) == 0 {
		same = d.rng.Int63()
	}
	miss := hookMissed()
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		seed := d.rng.Int63()
		if same != 0 {
			seed = same
		}
		rng := rand.New(rand.NewSource(seed))
		strides := maps.Clone(d.crowd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if g < len(writers) {
				logs[g] = d.parWrites(rng, strides, writers[g])
			} else {
				logs[g] = d.parReader(rng, strides, readable, one, owner, g+1)
			}
		}()
	}
	opName.Store("concurrent calls")
	opStart.Store(time.Now().UnixNano())
	close(start)
	wg.Wait()
	opStart.Store(0)
	hookMissedSet(miss)
	d.st.Fix(false)
	noReuse = was
	for _, l := range logs {
		for _, c := range l {
			if c.pan && (c.msg == "iteration without end" || d.root[c.h] != 0) {
				d.crash(c.op, "among concurrent calls: "+c.msg)
			}
			switch c.op {
			case "Get", "Ptr", "Val", "Has":
				d.emit(`{"e":"%s","h":%d,"k":%d,"v":%d,"ok":%s,"pan":%s}`, c.op, c.h, c.k, c.v, b(c.ok), b(c.pan))
			case "Poke":
				d.emit(`{"e":"Keep","h":%d,"k":%d,"p":1,"ok":%s,"pan":%s}`, c.h, c.k, b(c.ok), b(c.pan))
				if c.ok {
					d.emit(`{"e":"Store","p":1,"v":%d}`, c.v)
					d.emit(`{"e":"Forget","p":1}`)
				}
			case "Len":
				d.emit(`{"e":"Len","h":%d,"n":%d,"pan":%s}`, c.h, c.n, b(c.pan))
			case "Nil":
				d.emit(`{"e":"Nil","h":%d,"ok":%s,"pan":%s}`, c.h, b(c.ok), b(c.pan))
			case "Dep":
				d.emitDep(c.h, c.f, c.pan)
			case "AllA", "AllN":
				d.emitAll(c.op, c.h, c.n, -1, c.ks, c.vs, nil, c.cv, c.pan)
			case "Seek":
				d.emit(`{"e":"Seek","h":%d,"size":%d,"hits":%d,"extra":%d,"wrong":%d,"pan":%s}`, c.h, theCrowd.n, c.hits, c.extra, c.wrong, b(c.pan))
			case "Crowd":
				d.crowd[d.root[c.h]] = c.stride
				d.writes++
				d.emitCrowd(c.h, c.pan)
			case "Set":
				d.emit(`{"e":"Set","h":%d,"k":%d,"v":%d,"in":%d,"pan":%s}`, c.h, c.k, c.v, inst(c.k), b(c.pan))
				d.set[d.root[c.h]][c.k] = true
				d.writes++
			case "ModA":
				d.emit(`{"e":"ModA","h":%d,"k":%d,"v":%d,"in":%d,"ex":%s,"old":%d,"calls":%d,"pan":%s}`, c.h, c.k, c.v, inst(c.k), b(c.ok), c.old, c.n, b(c.pan))
				d.set[d.root[c.h]][c.k] = true
				d.writes++
			case "Add":
				d.emit(`{"e":"Add","h":%d,"k":%d,"in":%d,"pan":%s}`, c.h, c.k, inst(c.k), b(c.pan))
				d.set[d.root[c.h]][c.k] = true
				d.writes++
			case "Del":
				d.emit(`{"e":"Del","h":%d,"k":%d,"pan":%s}`, c.h, c.k, b(c.pan))
				d.set[d.root[c.h]][c.k] = false
				d.writes++
			}
		}
	}
}

func parReads(set bool) []string {
	if set {
		return []string{"Has", "Has", "Has", "AllA", "AllN", "Len", "Dep", "Nil"}
	}
	return []string{"Get", "Val", "Ptr", "Get", "AllA", "AllN", "Len", "Dep", "Nil"}
}

const notRead = -7 // the value of a key that another goroutine may be writing

func (d *driver) parVal(rng *rand.Rand) int {
	v := 1 + rng.Intn(200)
	if m := d.st.MaxVal(); m > 0 {
		v %= m + 1
	} else if m < 0 {
		v = 0
	}
	return v
}

func (d *driver) parTry(c *parCall, f func()) {
	defer func() {
		if x := recover(); x != nil {
			c.pan, c.msg = true, fmt.Sprint(x)
		}
	}()
	f()
}

func (d *driver) parReader(rng *rand.Rand, strides map[int]int, hs []int, one string, owner map[int]int, me int) (log []parCall) {
	ops := parReads(d.st.IsSet())
	visiting := false
	var lookup func(op string, h int)
	lookup = func(op string, h int) {
		c := parCall{op: op, h: h, k: 1 + rng.Intn(d.c.N)}
		if rng.Intn(3) > 0 {
			c.k = d.active[rng.Intn(len(d.active))]
		}
		if o := owner[c.k]; o == me && o != 0 && !visiting && rng.Intn(2) == 0 {
			c.op = "Poke"
			c.v = d.parVal(rng)
			d.parTry(&c, func() { c.ok = d.st.Poke(h, c.k, c.v) })
			log = append(log, c)
			return
		} else if o != me && o != 0 {
			return
		}
		d.parTry(&c, func() {
			switch op {
			case "Get":
				c.v, c.ok = d.st.Get(h, c.k)
			case "Ptr":
				c.v, c.ok = d.st.Ptr(h, c.k)
			case "Val":
				c.v = d.st.Val(h, c.k)
			case "Has":
				c.ok = d.st.Has(h, c.k)
			}
		})
		log = append(log, c)
	}
	for i := 3 + rng.Intn(8); i > 0; i-- {
		h := hs[rng.Intn(len(hs))]
		op := one
		if op == "" {
			op = ops[rng.Intn(len(ops))]
		}
		if rng.Intn(4) == 0 {
			runtime.Gosched()
		}
		c := parCall{op: op, h: h}
		switch op {
		case "Get", "Val", "Ptr", "Has":
			if theCrowd.n > 0 && rng.Intn(3) == 0 {
				c.op = "Seek"
				d.parTry(&c, func() { c.hits, c.extra, c.wrong = d.seek(h, strides[d.root[h]]) })
				break
			}
			lookup(op, h)
			continue
		case "Len":
			d.parTry(&c, func() { c.n = int(min(d.st.Len(h), 1<<30)) })
		case "Dep":
			d.parTry(&c, func() { c.f = d.st.Dep(h) })
		case "Nil":
			d.parTry(&c, func() { c.ok = d.st.Nil(h) })
		case "AllA", "AllN":
			if op == "AllN" {
				c.n = 1 + rng.Intn(d.c.N)
			}
			inside := rng.Intn(4) == 0
			c.cv = d.visits(strides[d.root[h]])
			d.parTry(&c, func() {
				d.st.All(h, func(k int, v cell) bool {
					if k < 0 && theCrowd.n > 0 {
						if c.cv.visit(-1-k, v); c.cv.extra > theCrowd.n {
							panic("iteration without end")
						}
						return c.n == 0 || len(c.ks)+c.cv.n+c.cv.extra < c.n
					}
					x := notRead
					if o := owner[k]; o == me || o == 0 {
						x = v.Load()
					}
					c.ks, c.vs = append(c.ks, k), append(c.vs, x)
					if len(c.ks) > 3*d.c.N+64 {
						panic("iteration without end")
					}
					if inside && rng.Intn(3) == 0 {
						visiting = true // no writes: the visit is written down after this lookup
						lookup(ops[0], h)
						visiting = false
					}
					return c.n == 0 || len(c.ks)+c.cv.n+c.cv.extra < c.n
				})
			})
		}
		log = append(log, c)
	}
	return log
}

func (d *driver) parWrites(rng *rand.Rand, strides map[int]int, h int) (log []parCall) {
	if d.c.Scratch && rng.Intn(3) == 0 {
		d.st.Scratch(d.active[:1+rng.Intn(len(d.active))])
	}
	for i := 3 + rng.Intn(8); i > 0; i-- {
		if rng.Intn(4) == 0 {
			log = append(log, d.parReader(rng, strides, []int{h}, "", nil, 0)...)
		}
		if theCrowd.n > 0 && rng.Intn(6) == 0 {
			ss := d.strides()
			c := parCall{op: "Crowd", h: h, stride: ss[rng.Intn(len(ss))]}
			r := d.root[h]
			d.parTry(&c, func() { d.members(rng, h, strides[r], c.stride) })
			if strides[r] = c.stride; r == 0 {
				c.stride = 0
			}
			log = append(log, c)
			continue
		}
		c := parCall{op: "Del", h: h, k: d.active[rng.Intn(len(d.active))]}
		if rng.Intn(5) < 3 {
			c.op = "Set"
			if d.st.IsSet() {
				c.op = "Add"
			} else if rng.Intn(3) == 0 {
				c.op = "ModA"
			}
		}
		c.v = d.parVal(rng)
		d.parTry(&c, func() {
			switch c.op {
			case "Set":
				d.st.Set(h, c.k, c.v)
			case "Add":
				d.st.Add(h, c.k)
			case "ModA":
				d.st.Mod(h, c.k, func(p cell, ex bool) {
					if c.n++; c.n == 1 {
						c.ok, c.old = ex, p.Load()
						p.Store(c.v)
					}
				})
			default:
				d.st.Del(h, c.k)
			}
		})
		log = append(log, c)
	}
	return log
}
