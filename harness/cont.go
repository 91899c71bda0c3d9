package main

import (
	"hash/maphash"
	"strings"
	"sync"

	"github.com/wdamron/amt"
)

// The public API of the containers.
type mapAPI[K, V any] interface {
	Nil() bool
	Len() uint
	Dep() float64
	Get(K) (V, bool)
	Val(K) V
	Ptr(K) *V
	Set(K, V)
	Mod(K, func(*V, bool))
	Del(K)
	All(func(K, *V) bool)
}
type setAPI[K any] interface {
	Nil() bool
	Len() uint
	Dep() float64
	Has(K) bool
	Add(K)
	Del(K)
	All(func(K) bool)
}

// cell is a value location handed to a callback.
type cell interface {
	Load() int
	Store(v int)
	Keep(p int)
}

// store is a family of handles (1..nh) on containers of one type, with the
// pointers (1..np) kept by the client, in terms of the model's keys and values.
type store interface {
	Kind() string
	IsSet() bool
	MaxVal() int
	Reset()
	New(h int)
	Copy(h, g int)
	Drop(h int)
	Nil(h int) bool
	Len(h int) uint
	Dep(h int) float64
	Get(h, k int) (int, bool)
	Val(h, k int) int
	Ptr(h, k int) (int, bool)
	Poke(h, k, v int) bool // write through Ptr
	Has(h, k int) bool
	Set(h, k, v int)
	Add(h, k int)
	AddAgain(h, k int)
	Del(h, k int)
	Mod(h, k int, f func(c cell, ex bool))
	All(h int, f func(k int, c cell) bool)
	Keep(h, k, p int) bool
	Load(p int) int
	StoreP(p, v int)
	SamePtr(h, k, p int) bool
	Forget(p int)
	Renew(k int)                       // key k, present nowhere, gets a new instance
	Scratch(ks []int)                  // make, use and drop a container
	Many(n, par int, ks []int) [][]int // make n containers in par goroutines, fill and visit each
	Join(h, j int)                     // write member j of the crowd
	Leave(h, j int)                    // delete it
	Find(h, j int) (found, right bool)
	Bare(ks, js []int) any // objects for the entries of keys ks and members js, without a container
	Fix(on bool)           // while on, calls may be made from several goroutines
	Instances() bool
	Watches() bool // whether the release of values can be observed
}

// watcher records instances whose release is to be observed.
type watched struct {
	what  byte // 'k' or 'v'
	id    int
	stamp int
	ref   weakRef
}
type watcher struct {
	on    bool
	stamp int
	list  []watched
}

func (w *watcher) add(what byte, id int, ref weakRef, ok bool) {
	if ok {
		w.list = append(w.list, watched{what, id, w.stamp, ref})
	}
}

type common[K any, M any] struct {
	kind  string
	nh    int
	nest  bool
	hs    []M
	hm    amt.IntMap[M]
	mk    func() M
	ks    *keySpace[K]
	prof  *profile
	watch *watcher
	fixed []K // when set, the instances of keys to use
}

func (c *common[K, M]) Kind() string { return c.kind }
func (c *common[K, M]) reset() {
	c.hs = make([]M, c.nh+1)
	c.hm = amt.NewIntMap[M]()
}
func (c *common[K, M]) at(h int) M {
	if c.nest {
		return c.hm.Val(int64(h))
	}
	return c.hs[h]
}
func (c *common[K, M]) put(h int, m M) {
	if c.nest {
		c.hm.Set(int64(h), m)
		return
	}
	c.hs[h] = m
}

// New makes a container under the current hash profile.
func (c *common[K, M]) New(h int) {
	hookBegin()
	m := c.mk()
	seeds := hookEnd()
	if c.prof != nil && c.ks.data != nil {
		for _, s := range seeds {
			programSeed(s, c.ks.n, c.ks.data, c.prof)
			theCrowd.program(s, c.ks.memberData)
		}
	}
	lastSeeds = append(lastSeeds[:0], seeds...)
	c.put(h, m)
}

var lastSeeds []maphash.Seed

// Many fills and visits n containers, made by par goroutines at once.
func (c *common[K, M]) many(n, par int, ks []int, fill func(m M, k int), visit func(m M) []int) [][]int {
	ms := make([]M, n)
	var wg sync.WaitGroup
	for g := 0; g < par; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for j := g; j < n; j += par {
				ms[j] = c.mk()
			}
		}(g)
	}
	wg.Wait()
	out := make([][]int, n)
	for j, m := range ms {
		for _, k := range ks {
			fill(m, k)
		}
		out[j] = visit(m)
	}
	return out
}

func (c *common[K, M]) Copy(h, g int) { c.put(g, c.at(h)) }
func (c *common[K, M]) Drop(h int)    { var z M; c.put(h, z) }
func (c *common[K, M]) key(k int) K {
	if c.fixed != nil {
		return c.fixed[k]
	}
	x := c.ks.make(k)
	if c.watch != nil && c.watch.on && c.ks.seen != nil {
		ref, ok := c.ks.seen(x)
		c.watch.add('k', k, ref, ok)
	}
	return x
}
func (c *common[K, M]) done(x K) {
	if c.ks.done != nil && c.fixed == nil {
		c.ks.done(x)
	}
}

// Instances: whether instances of the same key can be told apart; shown is the
// one an iteration reported last, and ckSerial the one made last.
func (c *common[K, M]) Instances() bool { return c.ks.serial != nil }
func (c *common[K, M]) show(k K) {
	if c.ks.serial != nil && c.fixed == nil {
		shown = c.ks.serial(k)
	}
}

var shown int

func (c *common[K, M]) Renew(k int) {
	if c.ks.renew != nil {
		c.ks.renew(k)
	}
}
func (c *common[K, M]) Fix(on bool) {
	c.fixed = nil
	if on {
		c.fixed = make([]K, c.ks.n+1)
		for k := 1; k <= c.ks.n; k++ {
			c.fixed[k] = c.ks.make(k)
		}
	}
}
func (c *common[K, M]) Watches() bool { return false }

// ---- maps

type mapStore[K, V any, M mapAPI[K, V]] struct {
	common[K, M]
	vs   *valSpace[V]
	ptrs []*V
}

type mapCell[K, V any, M mapAPI[K, V]] struct {
	s *mapStore[K, V, M]
	p *V
}

func (s *mapStore[K, V, M]) enc(v int) V {
	x := s.vs.enc(v)
	if s.watch != nil && s.watch.on && s.vs.seen != nil {
		ref, ok := s.vs.seen(x)
		s.watch.add('v', v, ref, ok)
	}
	return x
}
func (c mapCell[K, V, M]) Load() int   { return c.s.vs.dec(*c.p) }
func (c mapCell[K, V, M]) Store(v int) { *c.p = c.s.enc(v) }
func (c mapCell[K, V, M]) Keep(p int)  { c.s.ptrs[p] = c.p }

func (s *mapStore[K, V, M]) Watches() bool { return s.vs.seen != nil }
func (s *mapStore[K, V, M]) IsSet() bool   { return false }
func (s *mapStore[K, V, M]) MaxVal() int   { return s.vs.max }
func (s *mapStore[K, V, M]) Reset() {
	s.reset()
	s.ptrs = make([]*V, 16)
}
func (s *mapStore[K, V, M]) Scratch(ks []int) {
	m := s.mk()
	for _, k := range ks {
		m.Set(s.key(k), s.enc(0))
	}
	for _, k := range ks {
		m.Del(s.key(k))
	}
}

type bareObj[K, V any] struct {
	k    K
	v    V
	next *bareObj[K, V]
}

func (s *mapStore[K, V, M]) Bare(ks, js []int) any {
	if s.kind == "IntMap" {
		return bare(ks, js, func(int) struct{} { return struct{}{} }, func(int) struct{} { return struct{}{} }, s.vs)
	}
	return bare(ks, js, s.ks.make, s.ks.member, s.vs)
}

// bare makes a list of objects.
func bare[K, V any](ks, js []int, key, member func(int) K, vs *valSpace[V]) any {
	defer func(x bool) { noReuse = x }(noReuse)
	noReuse = true
	var list *bareObj[K, V]
	for _, k := range ks {
		list = &bareObj[K, V]{key(k), vs.enc(1), list}
	}
	for _, j := range js {
		list = &bareObj[K, V]{member(j), vs.enc(memberVal(j, vs.max)), list}
	}
	return list
}
func (s *mapStore[K, V, M]) Many(n, par int, ks []int) [][]int {
	return s.many(n, par, ks, func(m M, k int) { m.Set(s.key(k), s.enc(0)) }, func(m M) (out []int) {
		m.All(func(k K, _ *V) bool { out = append(out, s.ks.id(k)); return true })
		return
	})
}
func (s *mapStore[K, V, M]) Join(h, j int) {
	x, v := s.ks.member(j), s.vs.enc(memberVal(j, s.vs.max))
	if j%3 == 0 {
		s.at(h).Mod(x, func(p *V, _ bool) { *p = v })
		return
	}
	s.at(h).Set(x, v)
}
func (s *mapStore[K, V, M]) Leave(h, j int) {
	x := s.ks.member(j)
	s.at(h).Del(x)
	s.done(x)
}
func (s *mapStore[K, V, M]) Find(h, j int) (found, right bool) {
	x := s.ks.member(j)
	var v V
	switch j % 4 {
	case 0:
		if p := s.at(h).Ptr(x); p != nil {
			v, found = *p, true
		}
	case 1:
		v = s.at(h).Val(x)
		_, found = s.at(h).Get(x)
	default:
		v, found = s.at(h).Get(x)
	}
	s.done(x)
	if !found {
		return false, s.vs.dec(v) == 0
	}
	return true, s.vs.dec(v) == memberVal(j, s.vs.max)
}
func (s *mapStore[K, V, M]) Nil(h int) bool    { return s.at(h).Nil() }
func (s *mapStore[K, V, M]) Len(h int) uint    { return s.at(h).Len() }
func (s *mapStore[K, V, M]) Dep(h int) float64 { return s.at(h).Dep() }
func (s *mapStore[K, V, M]) Get(h, k int) (int, bool) {
	x := s.key(k)
	v, ok := s.at(h).Get(x)
	s.done(x)
	return s.vs.dec(v), ok
}
func (s *mapStore[K, V, M]) Val(h, k int) int {
	x := s.key(k)
	v := s.at(h).Val(x)
	s.done(x)
	return s.vs.dec(v)
}
func (s *mapStore[K, V, M]) Ptr(h, k int) (int, bool) {
	x := s.key(k)
	p := s.at(h).Ptr(x)
	s.done(x)
	if p == nil {
		return 0, false
	}
	return s.vs.dec(*p), true
}
func (s *mapStore[K, V, M]) Poke(h, k, v int) bool {
	x := s.key(k)
	p := s.at(h).Ptr(x)
	s.done(x)
	if p != nil {
		*p = s.enc(v)
	}
	return p != nil
}
func (s *mapStore[K, V, M]) Has(h, k int) bool { panic("not a set") }
func (s *mapStore[K, V, M]) Set(h, k, v int)   { s.at(h).Set(s.key(k), s.enc(v)) }
func (s *mapStore[K, V, M]) Add(h, k int)      { panic("not a set") }
func (s *mapStore[K, V, M]) AddAgain(h, k int) { panic("not a set") }
func (s *mapStore[K, V, M]) Del(h, k int) {
	x := s.key(k)
	s.at(h).Del(x)
	s.done(x)
}
func (s *mapStore[K, V, M]) Mod(h, k int, f func(c cell, ex bool)) {
	s.at(h).Mod(s.key(k), func(p *V, ex bool) { f(mapCell[K, V, M]{s, p}, ex) })
}
func (s *mapStore[K, V, M]) All(h int, f func(k int, c cell) bool) {
	s.at(h).All(func(k K, p *V) bool { s.show(k); return f(s.ks.id(k), mapCell[K, V, M]{s, p}) })
}
func (s *mapStore[K, V, M]) Keep(h, k, p int) bool {
	x := s.key(k)
	s.ptrs[p] = s.at(h).Ptr(x)
	s.done(x)
	return s.ptrs[p] != nil
}
func (s *mapStore[K, V, M]) Load(p int) int  { return s.vs.dec(*s.ptrs[p]) }
func (s *mapStore[K, V, M]) StoreP(p, v int) { *s.ptrs[p] = s.enc(v) }
func (s *mapStore[K, V, M]) Forget(p int)    { s.ptrs[p] = nil }
func (s *mapStore[K, V, M]) SamePtr(h, k, p int) bool {
	return s.at(h).Ptr(s.key(k)) == s.ptrs[p]
}

// ---- sets

type setStore[K any, M setAPI[K]] struct {
	common[K, M]
}

type noCell struct{}

func (noCell) Load() int { return 0 }
func (noCell) Store(int) {}
func (noCell) Keep(int)  {}

func (s *setStore[K, M]) IsSet() bool { return true }
func (s *setStore[K, M]) MaxVal() int { return -1 }
func (s *setStore[K, M]) Reset()      { s.reset() }
func (s *setStore[K, M]) Scratch(ks []int) {
	m := s.mk()
	for _, k := range ks {
		m.Add(s.key(k))
	}
	for _, k := range ks {
		m.Del(s.key(k))
	}
}
func (s *setStore[K, M]) Bare(ks, js []int) any {
	if s.kind == "IntSet" {
		return nil
	}
	return bare(ks, js, s.ks.make, s.ks.member, noVals)
}
func (s *setStore[K, M]) Many(n, par int, ks []int) [][]int {
	return s.many(n, par, ks, func(m M, k int) { m.Add(s.key(k)) }, func(m M) (out []int) {
		m.All(func(k K) bool { out = append(out, s.ks.id(k)); return true })
		return
	})
}
func (s *setStore[K, M]) Join(h, j int) { s.at(h).Add(s.ks.member(j)) }
func (s *setStore[K, M]) Leave(h, j int) {
	x := s.ks.member(j)
	s.at(h).Del(x)
	s.done(x)
}
func (s *setStore[K, M]) Find(h, j int) (found, right bool) {
	x := s.ks.member(j)
	found = s.at(h).Has(x)
	s.done(x)
	return found, true
}
func (s *setStore[K, M]) Nil(h int) bool           { return s.at(h).Nil() }
func (s *setStore[K, M]) Len(h int) uint           { return s.at(h).Len() }
func (s *setStore[K, M]) Dep(h int) float64        { return s.at(h).Dep() }
func (s *setStore[K, M]) Get(h, k int) (int, bool) { panic("not a map") }
func (s *setStore[K, M]) Val(h, k int) int         { panic("not a map") }
func (s *setStore[K, M]) Ptr(h, k int) (int, bool) { panic("not a map") }
func (s *setStore[K, M]) Poke(h, k, v int) bool    { panic("not a map") }
func (s *setStore[K, M]) Has(h, k int) bool {
	x := s.key(k)
	ok := s.at(h).Has(x)
	s.done(x)
	return ok
}
func (s *setStore[K, M]) Set(h, k, v int) { panic("not a map") }
func (s *setStore[K, M]) Add(h, k int)    { s.at(h).Add(s.key(k)) }
func (s *setStore[K, M]) AddAgain(h, k int) { // k is present: the argument is not retained
	x := s.key(k)
	s.at(h).Add(x)
	s.done(x)
}
func (s *setStore[K, M]) Del(h, k int) {
	x := s.key(k)
	s.at(h).Del(x)
	s.done(x)
}
func (s *setStore[K, M]) Mod(h, k int, f func(c cell, ex bool)) { panic("not a map") }
func (s *setStore[K, M]) All(h int, f func(k int, c cell) bool) {
	s.at(h).All(func(k K) bool { s.show(k); return f(s.ks.id(k), noCell{}) })
}
func (s *setStore[K, M]) Keep(h, k, p int) bool    { panic("not a map") }
func (s *setStore[K, M]) Load(p int) int           { panic("not a map") }
func (s *setStore[K, M]) StoreP(p, v int)          { panic("not a map") }
func (s *setStore[K, M]) SamePtr(h, k, p int) bool { panic("not a map") }
func (s *setStore[K, M]) Forget(p int)             {}

// ---- making stores

type storeCfg struct {
	Kind    string // e.g. "IntMap", "ArrSet16", "Map/String"
	Keys    string // key flavour
	Vals    string // value kind
	N       int    // number of keys
	Handles int
	Nest    bool
	watch   *watcher
}

func newMapStore[K, V any, M mapAPI[K, V]](c storeCfg, ks *keySpace[K], vs *valSpace[V], mk func() M) store {
	s := &mapStore[K, V, M]{vs: vs}
	s.common = common[K, M]{kind: c.Kind, nh: c.Handles, nest: c.Nest, mk: mk, ks: ks, watch: c.watch}
	return s
}
func newSetStore[K any, M setAPI[K]](c storeCfg, ks *keySpace[K], mk func() M) store {
	s := &setStore[K, M]{}
	s.common = common[K, M]{kind: c.Kind, nh: c.Handles, nest: c.Nest, mk: mk, ks: ks, watch: c.watch}
	return s
}

type profiled interface{ setProfile(*profile) }

func (c *common[K, M]) setProfile(p *profile) { c.prof = p }

func toBytes(b []byte) amt.Bytes     { return amt.Bytes(b) }
func fromBytes(b amt.Bytes) []byte   { return []byte(b) }
func toString(s string) amt.String   { return amt.String(s) }
func fromString(s amt.String) string { return string(s) }

func mapFor[V any](c storeCfg, vs *valSpace[V]) store {
	switch c.Kind {
	case "IntMap":
		return newMapStore(c, intSpace(c.Keys, c.N), vs, amt.NewIntMap[V])
	case "StringMap":
		return newMapStore(c, stringSpace(c.Keys, c.N), vs, amt.NewStringMap[V])
	case "BytesMap":
		return newMapStore(c, bytesSpace(c.Keys, c.N), vs, amt.NewBytesMap[V])
	case "ArrMap4":
		return newMapStore(c, arrSpace(c.Keys, c.N, a4, 4), vs, amt.NewArrMap[A4, V])
	case "ArrMap16":
		return newMapStore(c, arrSpace(c.Keys, c.N, a16, 16), vs, amt.NewArrMap[A16, V])
	case "ArrMap24":
		return newMapStore(c, arrSpace(c.Keys, c.N, a24, 24), vs, amt.NewArrMap[A24, V])
	case "ArrMap64":
		return newMapStore(c, arrSpace(c.Keys, c.N, a64, 64), vs, amt.NewArrMap[A64, V])
	case "ArrMapP":
		return newMapStore(c, apSpace(c.N), vs, amt.NewArrMap[AP, V])
	case "Map/String":
		return newMapStore(c, mapSpace(stringSpace(c.Keys, c.N), toString, fromString), vs, amt.NewMap[amt.String, V])
	case "Map/Bytes":
		return newMapStore(c, mapSpace(bytesSpace(c.Keys, c.N), toBytes, fromBytes), vs, amt.NewMap[amt.Bytes, V])
	case "Map/Custom":
		return newMapStore(c, customSpace(c.N, c.Keys == "live"), vs, amt.NewMap[CKey, V])
	case "Map/Int":
		return intKeyMap(c, vs)
	}
	return nil
}

func newStore(c storeCfg) store {
	if strings.Contains(c.Kind, "Set") {
		switch c.Kind {
		case "IntSet":
			return newSetStore(c, intSpace(c.Keys, c.N), amt.NewIntSet)
		case "StringSet":
			return newSetStore(c, stringSpace(c.Keys, c.N), amt.NewStringSet)
		case "BytesSet":
			return newSetStore(c, bytesSpace(c.Keys, c.N), amt.NewBytesSet)
		case "ArrSet4":
			return newSetStore(c, arrSpace(c.Keys, c.N, a4, 4), amt.NewArrSet[A4])
		case "ArrSet16":
			return newSetStore(c, arrSpace(c.Keys, c.N, a16, 16), amt.NewArrSet[A16])
		case "ArrSet24":
			return newSetStore(c, arrSpace(c.Keys, c.N, a24, 24), amt.NewArrSet[A24])
		case "ArrSet64":
			return newSetStore(c, arrSpace(c.Keys, c.N, a64, 64), amt.NewArrSet[A64])
		case "ArrSetP":
			return newSetStore(c, apSpace(c.N), amt.NewArrSet[AP])
		case "Set/String":
			return newSetStore(c, mapSpace(stringSpace(c.Keys, c.N), toString, fromString), amt.NewSet[amt.String])
		case "Set/Bytes":
			return newSetStore(c, mapSpace(bytesSpace(c.Keys, c.N), toBytes, fromBytes), amt.NewSet[amt.Bytes])
		case "Set/Custom":
			return newSetStore(c, customSpace(c.N, c.Keys == "live"), amt.NewSet[CKey])
		case "Set/Int":
			return intKeySet(c)
		}
		return nil
	}
	switch c.Vals {
	case "u8":
		return mapFor(c, u8Vals)
	case "bool":
		return mapFor(c, boolVals)
	case "none":
		return mapFor(c, noVals)
	case "str":
		return mapFor(c, strVals)
	case "big":
		return mapFor(c, bigVals)
	case "obj":
		return mapFor(c, objVals)
	case "box":
		return mapFor(c, boxVals)
	case "any":
		return mapFor(c, anyVals)
	}
	return mapFor(c, u64Vals)
}
