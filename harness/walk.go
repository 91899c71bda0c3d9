package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// The walker replays the transition graph of a bounded instance of the
// specification (spec/Graph.tla, printed by TLC) on a real container: it
// makes the calls on the graph's edges and compares every result with the
// edge's.

type reply struct {
	Op  string   `json:"op"`
	H   int      `json:"h"`
	G   int      `json:"g"`
	K   int      `json:"k"`
	V   int      `json:"v"`
	P   int      `json:"p"`
	N   int      `json:"n"`
	M   int      `json:"m"`
	Lim int      `json:"lim"`
	Old int      `json:"old"`
	Ok  bool     `json:"ok"`
	Ex  bool     `json:"ex"`
	Pan bool     `json:"pan"`
	Es  [][2]int `json:"es"`
}

type edge struct {
	to int
	r  *reply
}

type graph struct {
	out   [][]edge
	pres  [][]uint32 // per state: per handle, mask of present keys
	init  int
	edges int
	n, nh int
}

func loadGraph(path string) *graph {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	g := &graph{init: -1}
	ids := map[string]int{}
	intern := func(s string) int {
		i, ok := ids[s]
		if !ok {
			i = len(g.out)
			ids[s] = i
			g.out = append(g.out, nil)
			g.pres = append(g.pres, nil)
		}
		return i
	}
	mask := func(p [][]int) []uint32 {
		m := make([]uint32, len(p)+1)
		for h, ks := range p {
			for _, k := range ks {
				m[h+1] |= 1 << uint(k-1)
				g.n = max(g.n, k)
			}
		}
		return m
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		line := sc.Text()
		if !strings.HasPrefix(line, `"E `) && !strings.HasPrefix(line, `"I `) {
			continue
		}
		var s string
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			fatal(err)
		}
		var e struct {
			S string  `json:"s"`
			T string  `json:"t"`
			P [][]int `json:"p"`
			R *reply  `json:"r"`
		}
		if err := json.Unmarshal([]byte(s[2:]), &e); err != nil {
			fatal(err)
		}
		a := intern(e.S)
		if s[0] == 'I' {
			g.init = a
			g.pres[a] = mask(e.P)
			g.nh = len(e.P)
			continue
		}
		t := intern(e.T)
		g.pres[t] = mask(e.P)
		g.out[a] = append(g.out[a], edge{t, e.R})
		g.edges++
	}
	if g.init < 0 || g.edges == 0 {
		fatal("empty graph " + path)
	}
	return g
}

type walkCfg struct {
	Graph   string   `json:"graph"`
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	Keys    string   `json:"keys"`
	Vals    string   `json:"vals"`
	Nest    bool     `json:"nest"`
	Profile string   `json:"profile"` // "": true hashing
	Steps   int      `json:"steps"`
	Seed    int64    `json:"seed"`
	MapVals []int    `json:"mapvals"` // concrete value ids of the model's values
	Watch   []string `json:"watch"`   // differences that end a walk
}

type walker struct {
	c     walkCfg
	g     *graph
	st    store
	rng   *rand.Rand
	seen  [][]bool
	left  []int // unvisited edges per state
	todo  int
	s     int
	steps int
	dep   map[uint32]int // mask -> depth sum; nil: unknown
	exact bool
	inst  []int
	ninst int
	memo  map[string]string
	hist  []string
	sent  int
	res   walkResult
	path  []int
	nsoft int
}

type walkDiff struct {
	Tag  string   `json:"tag"`
	What string   `json:"what"`
	Hist []string `json:"hist"`
}

type walkResult struct {
	Cfg      walkCfg    `json:"cfg"`
	Steps    int        `json:"steps"`
	Edges    int        `json:"edges"`
	Covered  int        `json:"covered"`
	States   int        `json:"states"`
	DepExact int        `json:"depexact"`
	Orders   int        `json:"orders"`
	Diffs    []walkDiff `json:"diffs,omitempty"`
	Sample   string     `json:"sample,omitempty"`
}

var clientTurnEnds = map[string]bool{"ModEnd": true, "ModPanic": true, "AllCont": true, "AllStop": true, "AllPanic": true}

// fail records a difference after which the walk cannot go on.
func (w *walker) fail(tag, format string, args ...any) {
	w.note(tag, format, args...)
	panic(abort)
}

// soft records a difference; the walk goes on unless it is one being watched.
func (w *walker) soft(tag, format string, args ...any) {
	w.note(tag, format, args...)
	w.nsoft++
	if w.nsoft > 300 {
		panic(abort)
	}
	for _, t := range w.c.Watch {
		if t == tag {
			panic(abort)
		}
	}
}

func (w *walker) note(tag, format string, args ...any) {
	for _, d := range w.res.Diffs {
		if d.Tag == tag {
			return
		}
	}
	n := len(w.hist)
	w.res.Diffs = append(w.res.Diffs, walkDiff{tag, fmt.Sprintf(format, args...), append([]string(nil), w.hist[max(0, n-300):]...)})
}

func (w *walker) say(r *reply) {
	if len(w.hist) > 4000 {
		w.hist = append(w.hist[:0], w.hist[2000:]...)
	}
	w.hist = append(w.hist, fmt.Sprintf("%s h%d g%d k%d v%d p%d lim%d", r.Op, r.H, r.G, r.K, r.V, r.P, r.Lim))
}

func (w *walker) mark(s, i int) {
	if !w.seen[s][i] {
		w.seen[s][i] = true
		w.left[s]--
		w.todo--
		w.res.Covered++
	}
}

// follow takes the edge from the current state with the given op (and key).
func (w *walker) follow(op string, k int) *reply {
	for i, e := range w.g.out[w.s] {
		if e.r.Op == op && (k < 0 || e.r.K == k) {
			w.mark(w.s, i)
			w.s = e.to
			return e.r
		}
	}
	return nil
}

func libEdge(op string) bool { return op == "AllNext" || op == "AllEnd" }

// choose picks the next edge of the client at the current state.
func (w *walker) choose(depth int) int {
	out := w.g.out[w.s]
	if depth > 0 && w.steps >= w.c.Steps {
		for i, e := range out {
			if e.r.Op == "ModEnd" || e.r.Op == "AllStop" {
				return i
			}
		}
	}
	if len(w.path) > 0 {
		i := w.path[0]
		w.path = w.path[1:]
		if i < len(out) && !libEdge(out[i].r.Op) {
			return i
		}
		w.path = nil
	}
	if w.rng.Intn(8) == 0 {
		return w.rng.Intn(len(out))
	}
	if w.left[w.s] > 0 {
		k := w.rng.Intn(len(out))
		for j := range out {
			i := (j + k) % len(out)
			if !w.seen[w.s][i] && !libEdge(out[i].r.Op) {
				return i
			}
		}
	}
	// nearest state with unvisited edges
	if w.todo > 0 && w.rng.Intn(2) == 0 {
		type from struct{ s, e int }
		prev := map[int]from{w.s: {-1, -1}}
		queue := []int{w.s}
		for len(queue) > 0 && len(prev) < 3000 {
			s := queue[0]
			queue = queue[1:]
			if w.left[s] > 0 && s != w.s {
				var p []int
				for prev[s].s >= 0 {
					p = append([]int{prev[s].e}, p...)
					s = prev[s].s
				}
				w.path = p[1:]
				return p[0]
			}
			off := w.rng.Intn(len(w.g.out[s]))
			for j := range w.g.out[s] {
				i := (j + off) % len(w.g.out[s])
				e := w.g.out[s][i]
				if _, ok := prev[e.to]; !ok && !libEdge(e.r.Op) {
					prev[e.to] = from{s, i}
					queue = append(queue, e.to)
				}
			}
		}
	}
	return w.rng.Intn(len(out))
}

// client runs the client's calls; inside a callback until it decides how the
// callback ends.
func (w *walker) client(depth int) string {
	for {
		if depth == 0 && (w.steps >= w.c.Steps) {
			return ""
		}
		i := w.choose(depth)
		e := w.g.out[w.s][i]
		if clientTurnEnds[e.r.Op] {
			w.path = nil
			return e.r.Op
		}
		if libEdge(e.r.Op) {
			continue
		}
		w.steps++
		w.mark(w.s, i)
		w.say(e.r)
		w.exec(e, depth)
	}
}

// call makes a call; a panic is compared with the expected one.
func (w *walker) call(r *reply, f func()) {
	var x any
	pan := false
	func() {
		defer func() {
			opStart.Store(0)
			if x = recover(); x != nil {
				pan = true
			}
		}()
		opName.Store(r.Op)
		opStart.Store(time.Now().UnixNano())
		f()
	}()
	if _, ok := x.(abortT); ok {
		panic(x)
	}
	if sx, ok := x.(sentinel); ok && sx.n == w.sent {
		panic(x)
	}
	if pan != r.Pan {
		if pan {
			w.fail("crash", "%s k%d panicked: %v", r.Op, r.K, x)
		}
		w.fail("nil", "%s did not panic on an uninitialized container", r.Op)
	}
}

func (w *walker) cv(v int) int { return w.c.MapVals[v] }

func (w *walker) visits(r *reply, ks, vs []int) {
	if r.Pan {
		if len(ks) > 0 {
			w.fail("nil", "%s on an uninitialized container visited something", r.Op)
		}
		return
	}
	want := map[int]int{}
	for _, e := range r.Es {
		want[e[0]] = e[1]
	}
	got := map[int]bool{}
	for i, k := range ks {
		v, ok := want[k]
		if k == 0 {
			w.soft("key", "%s reported a key that was never added: %v", r.Op, ks)
			continue
		}
		if !ok || got[k] {
			w.soft("all", "%s visited %v, present are %v", r.Op, ks, r.Es)
			continue
		}
		got[k] = true
		if !w.st.IsSet() && vs[i] != w.cv(v) {
			w.soft("allv", "%s gave %v the values %v, want %v", r.Op, ks, vs, r.Es)
		}
	}
	n := len(want)
	if r.Op == "AllN" {
		n = r.M
		if len(ks) > n {
			w.soft("stop", "All went on after its callback returned false: %v, want %d", ks, n)
		}
	}
	if len(ks) < n {
		w.soft("all", "%s visited only %v of %v", r.Op, ks, r.Es)
	}
	if r.Op != "AllN" {
		key := fmt.Sprint("o", w.inst[r.H], " ", w.g.pres[w.s][r.H])
		o := fmt.Sprint(ks)
		if m, ok := w.memo[key]; !ok {
			w.memo[key] = o
			w.res.Orders++
		} else if m != o {
			w.soft("order", "%s visited %v; with the same keys present it was %v before", r.Op, ks, m)
		}
	}
}

// depth compares Dep with the specification's table.
func (w *walker) depth(h int) {
	m := w.g.pres[w.s][h]
	var x float64
	w.call(&reply{Op: "Dep"}, func() { x = w.st.Dep(h) })
	p, q := rational(x, w.g.n)
	n := 0
	for i := m; i != 0; i &= i - 1 {
		n++
	}
	w.hist = append(w.hist, fmt.Sprintf("Dep h%d = %v", h, x))
	if n == 0 {
		if x != 0 {
			w.soft("dep", "Dep of an empty container is %v", x)
		}
		return
	}
	known := w.exact && (!hookOn || hookExact() || strings.HasSuffix(w.c.Kind, "/Custom")) && ckPast.Load() == 0
	if known {
		w.res.DepExact++
		if p < 0 || p*n != w.dep[m]*q {
			w.soft("dep", "Dep is %v with keys %b present, want %d/%d", x, m, w.dep[m], n)
		}
	} else if p < 0 {
		w.soft("dep", "Dep is %v with %d keys present", x, n)
	}
	key := fmt.Sprint("d", w.inst[h], " ", m)
	o := fmt.Sprint(p, "/", q)
	if was, ok := w.memo[key]; !ok {
		w.memo[key] = o
	} else if was != o {
		w.soft("depref", "Dep is %s; with the same keys present it was %s before", o, was)
	}
}

func (w *walker) exec(e edge, depth int) {
	r := e.r
	st := w.st
	look := func(v int, ok bool) {
		if r.Pan {
			return
		}
		if ok != r.Ok {
			w.soft("look", "%s k%d found: %v, want %v", r.Op, r.K, ok, r.Ok)
		}
		if v != w.cv(r.V) {
			w.soft("lookv", "%s k%d gave value %d, want %d", r.Op, r.K, v, w.cv(r.V))
		}
	}
	wrote := false
	switch r.Op {
	case "New":
		w.call(r, func() { st.New(r.H) })
		w.ninst++
		w.inst[r.H] = w.ninst
	case "Copy":
		w.call(r, func() { st.Copy(r.H, r.G) })
		w.inst[r.G] = w.inst[r.H]
	case "Drop":
		w.call(r, func() { st.Drop(r.H) })
		w.inst[r.H] = 0
	case "Set":
		w.call(r, func() { st.Set(r.H, r.K, w.cv(r.V)) })
		wrote = true
	case "Add":
		w.call(r, func() { st.Add(r.H, r.K) })
		wrote = true
	case "Del":
		w.call(r, func() { st.Del(r.H, r.K) })
		wrote = true
	case "ModA":
		calls, ex, old := 0, false, 0
		w.call(r, func() {
			st.Mod(r.H, r.K, func(c cell, x bool) {
				calls++
				ex, old = x, c.Load()
				c.Store(w.cv(r.V))
			})
		})
		if r.Pan {
			if calls != 0 {
				w.fail("nil", "Mod called back on an uninitialized map")
			}
			break
		}
		if calls != 1 {
			w.fail("modcalls", "Mod k%d called back %d times", r.K, calls)
		}
		if ex != r.Ex {
			w.soft("modex", "Mod k%d told its callback %v, want %v", r.K, ex, r.Ex)
		}
		if old != w.cv(r.Old) {
			w.soft("modold", "Mod k%d gave its callback value %d, want %d", r.K, old, w.cv(r.Old))
		}
		wrote = true
	case "Get":
		var v int
		var ok bool
		w.call(r, func() { v, ok = st.Get(r.H, r.K) })
		look(v, ok)
	case "Ptr":
		var v int
		var ok bool
		w.call(r, func() { v, ok = st.Ptr(r.H, r.K) })
		look(v, ok)
	case "Val":
		var v int
		w.call(r, func() { v = st.Val(r.H, r.K) })
		r2 := *r
		if v != w.cv(r2.V) {
			w.soft("lookv", "Val k%d gave value %d, want %d", r.K, v, w.cv(r.V))
		}
	case "Has":
		var ok bool
		w.call(r, func() { ok = st.Has(r.H, r.K) })
		if !r.Pan && ok != r.Ok {
			w.soft("has", "Has k%d is %v, want %v", r.K, ok, r.Ok)
		}
	case "Len":
		var n uint
		w.call(r, func() { n = st.Len(r.H) })
		if int(n) != r.N {
			w.soft("len", "Len is %d, want %d", n, r.N)
		}
	case "Nil":
		var ok bool
		w.call(r, func() { ok = st.Nil(r.H) })
		if ok != r.Ok {
			w.fail("nil", "Nil is %v, want %v", ok, r.Ok)
		}
		if ok {
			var x float64
			w.call(r, func() { x = st.Dep(r.H) })
			if x != 0 {
				w.fail("nil", "Dep of an uninitialized container is %v", x)
			}
		}
	case "AllA", "AllN", "AllW":
		var ks, vs []int
		w.call(r, func() {
			st.All(r.H, func(k int, c cell) bool {
				if len(ks) > 200 {
					w.fail("all", "All without end")
				}
				ks, vs = append(ks, k), append(vs, c.Load())
				if r.Op == "AllW" {
					c.Store(w.cv(r.V))
				}
				return r.Op != "AllN" || len(ks) < r.Lim
			})
		})
		w.visits(r, ks, vs)
	case "Keep":
		var ok bool
		w.call(r, func() { ok = st.Keep(r.H, r.K, r.P) })
		if !r.Pan && ok != r.Ok {
			w.soft("look", "Ptr k%d non-nil: %v, want %v", r.K, ok, r.Ok)
		}
	case "Load":
		var v int
		w.call(r, func() { v = st.Load(r.P) })
		if v != w.cv(r.V) {
			w.soft("ptrv", "kept pointer reads %d, want %d", v, w.cv(r.V))
		}
	case "Store":
		w.call(r, func() { st.StoreP(r.P, w.cv(r.V)) })
	case "SamePtr":
		if st.MaxVal() < 0 { // variables without size may share an address
			break
		}
		var ok bool
		w.call(r, func() { ok = st.SamePtr(r.H, r.K, r.P) })
		if ok != r.Ok {
			w.soft("ptr", "pointer to k%d equal to the kept one: %v, want %v", r.K, ok, r.Ok)
		}
	case "CbLoad":
		if v := topCell.Load(); v != w.cv(r.V) {
			w.soft("cbv", "callback's pointer reads %d, want %d", v, w.cv(r.V))
		}
	case "CbStore":
		topCell.Store(w.cv(r.V))
	case "CbKeep":
		topCell.Keep(r.P)
	case "ModBegin":
		w.mod(e, depth)
		return
	case "AllBegin":
		w.all(e, depth)
		return
	default:
		// not so when it was read: this process's memory has been damaged
		fmt.Fprintf(os.Stderr, "fatal error: a call in memory has become %q\n", r.Op)
		os.Exit(8)
	}
	w.s = e.to
	if wrote && !r.Pan && w.rng.Intn(3) == 0 {
		w.depth(r.H)
	}
	if wrote && depth == 0 && w.rng.Intn(4) == 0 {
		w.probe()
	}
}

// probe makes every read that the graph has at this state.
func (w *walker) probe() {
	for i, e := range w.g.out[w.s] {
		switch e.r.Op {
		case "Get", "Ptr", "Has", "Val", "Len", "AllA":
			w.mark(w.s, i)
			w.steps++
			w.say(e.r)
			w.exec(e, 1)
		}
	}
}

var topCell cell

func (w *walker) mod(e edge, depth int) {
	r := e.r
	calls, want := 0, ""
	outer := topCell
	lost := false
	func() {
		defer func() {
			opStart.Store(0)
			if x := recover(); x != nil {
				if sx, ok := x.(sentinel); ok && want == "ModPanic" && sx.n == w.sent {
					return
				}
				if _, ok := x.(abortT); ok {
					panic(x)
				}
				if !r.Pan {
					w.fail("crash", "Mod k%d panicked: %v", r.K, x)
				}
				want = "nil"
				return
			}
			lost = want == "ModPanic"
		}()
		w.st.Mod(r.H, r.K, func(c cell, ex bool) {
			calls++
			if r.Pan {
				w.fail("nil", "Mod called back on an uninitialized map")
			}
			if calls > 1 {
				w.fail("modcalls", "Mod k%d called back twice", r.K)
			}
			if ex != r.Ex {
				w.soft("modex", "Mod k%d told its callback %v, want %v", r.K, ex, r.Ex)
			}
			if c.Load() != w.cv(r.V) {
				w.soft("modold", "Mod k%d gave its callback value %d, want %d", r.K, c.Load(), w.cv(r.V))
			}
			w.s = e.to
			topCell = c
			want = w.client(depth + 1)
			topCell = outer
			w.hist = append(w.hist, want)
			if want == "ModPanic" {
				w.sent++
				panic(sentinel{w.sent})
			}
		})
	}()
	topCell = outer
	if r.Pan {
		if want != "nil" {
			w.fail("nil", "Mod did not panic on an uninitialized map")
		}
		w.s = e.to
		return
	}
	if lost {
		w.fail("cbpanic", "the panic of Mod's callback was lost")
	}
	if calls == 0 {
		w.fail("modcalls", "Mod k%d did not call back", r.K)
	}
	w.follow(want, -1)
	w.steps++
	if depth == 0 {
		w.probe()
		w.depth(r.H)
	}
}

func (w *walker) all(e edge, depth int) {
	r := e.r
	end := "AllEnd"
	outer := topCell
	lost := false
	calls := 0
	if !r.Pan {
		w.s = e.to
	}
	func() {
		defer func() {
			opStart.Store(0)
			if x := recover(); x != nil {
				if sx, ok := x.(sentinel); ok && end == "AllPanic" && sx.n == w.sent {
					return
				}
				if _, ok := x.(abortT); ok {
					panic(x)
				}
				if !r.Pan {
					w.fail("crash", "All panicked: %v", x)
				}
				end = "nil"
				return
			}
			lost = end == "AllPanic"
		}()
		w.st.All(r.H, func(k int, c cell) bool {
			calls++
			if r.Pan {
				w.fail("nil", "All called back on an uninitialized container")
			}
			if end != "AllEnd" {
				w.fail("stop", "All went on after its callback returned false")
			}
			if k == 0 {
				w.fail("key", "All reported a key that was never added")
			}
			x := w.follow("AllNext", k)
			if x == nil {
				w.fail("all", "All visited k%d, which is not present or was already visited", k)
			}
			if !w.st.IsSet() && c.Load() != w.cv(x.V) {
				w.soft("allv", "All gave k%d the value %d, want %d", k, c.Load(), w.cv(x.V))
			}
			w.hist = append(w.hist, fmt.Sprintf("AllNext k%d", k))
			topCell = c
			what := w.client(depth + 1)
			topCell = outer
			w.hist = append(w.hist, what)
			switch what {
			case "AllStop":
				end = what
				return false
			case "AllPanic":
				end = what
				w.sent++
				panic(sentinel{w.sent})
			}
			w.follow("AllCont", -1)
			return true
		})
	}()
	topCell = outer
	if r.Pan {
		if end != "nil" {
			w.fail("nil", "All did not panic on an uninitialized container")
		}
		w.s = e.to
		return
	}
	if lost {
		w.fail("cbpanic", "the panic of All's callback was lost")
	}
	w.steps++
	if w.follow(end, -1) == nil {
		w.fail("all", "All ended before it had visited every entry")
	}
}

func (w *walker) run(p *profile, deps map[string][]int) {
	w.res.Cfg = w.c
	w.seen = make([][]bool, len(w.g.out))
	w.left = make([]int, len(w.g.out))
	for s, es := range w.g.out {
		w.seen[s] = make([]bool, len(es))
		w.left[s] = len(es)
	}
	w.todo = w.g.edges
	w.res.Edges, w.res.States = w.g.edges, len(w.g.out)
	w.memo = map[string]string{}
	w.inst = make([]int, w.g.nh+1)
	if len(w.c.MapVals) == 0 {
		w.c.MapVals = []int{0, 1, 2, 3, 4}
	}
	w.st.(profiled).setProfile(p)
	ckWords = nil
	ckPast.Store(0)
	if p != nil {
		hookReset()
		w.exact = hookOn || strings.HasSuffix(w.c.Kind, "/Custom")
		if strings.HasSuffix(w.c.Kind, "/Custom") {
			ckWords = p.Words()
		}
		w.dep = map[uint32]int{}
		for m, s := range deps[p.Name] {
			w.dep[uint32(m+1)] = s
		}
		if len(w.dep) == 0 {
			w.exact = false
		}
	} else {
		hookDisable()
	}
	w.st.Reset()
	defer func() {
		w.res.Steps = w.steps
		if len(w.hist) > 12 {
			w.res.Sample = strings.Join(w.hist[len(w.hist)-12:], "; ")
		}
		if r := recover(); r != nil {
			if _, ok := r.(abortT); !ok {
				panic(r)
			}
		}
	}()
	w.s = w.g.init
	// the initial state may have containers already
	for h := 1; h <= w.g.nh; h++ {
		if !w.g.startsNil(h) {
			w.call(&reply{Op: "New"}, func() { w.st.New(h) })
			w.ninst++
			w.inst[h] = w.ninst
		}
	}
	w.client(0)
}

// startsNil: does any call on handle h panic in the initial state?
func (g *graph) startsNil(h int) bool {
	for _, e := range g.out[g.init] {
		if e.r.H == h && e.r.Pan {
			return true
		}
	}
	return false
}

// cmdWalk: amtharness walk TASKS.json PROFILES.json DEPTAB.json OUT.ndjson
func cmdWalk(args []string) {
	var tasks []walkCfg
	bs, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(bs, &tasks)
	}
	if err != nil {
		fatal(err)
	}
	byName := map[string]*profile{}
	for _, p := range loadProfiles(args[1]) {
		byName[p.Name] = p
	}
	deps := map[string][]int{}
	if args[2] != "-" {
		var tab []struct {
			Name string `json:"name"`
			Sums []int  `json:"sums"`
		}
		bs, err := os.ReadFile(args[2])
		if err == nil {
			err = json.Unmarshal(bs, &tab)
		}
		if err != nil {
			fatal(err)
		}
		for _, t := range tab {
			deps[t.Name] = t.Sums
		}
	}
	f, err := os.Create(args[3])
	if err != nil {
		fatal(err)
	}
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(256 << 20)
	graphs := map[string]*graph{}
	var cur *walker
	put := func(r walkResult) {
		bs, _ := json.Marshal(r)
		f.Write(append(bs, '\n'))
	}
	stopHook = func(what, op string) {
		n := len(cur.hist)
		r := walkResult{Cfg: cur.c, Steps: cur.steps, Diffs: []walkDiff{{"crash", what + " in " + op, append([]string(nil), cur.hist[max(0, n-300):]...)}}}
		put(r)
		f.Close()
		os.Exit(0)
	}
	startWatchdog(30*time.Second, 1500<<20)
	sort.SliceStable(tasks, func(i, j int) bool { return tasks[i].Graph < tasks[j].Graph })
	for _, c := range tasks {
		g := graphs[c.Graph]
		if g == nil {
			g = loadGraph(c.Graph)
			graphs[c.Graph] = g
		}
		w := &walker{c: c, g: g, rng: rand.New(rand.NewSource(c.Seed))}
		w.st = newStore(storeCfg{Kind: c.Kind, Keys: c.Keys, Vals: c.Vals, N: g.n, Handles: g.nh, Nest: c.Nest})
		if w.st == nil {
			fatal("no such container: " + c.Kind)
		}
		var p *profile
		if c.Profile != "" {
			if p = byName[c.Profile]; p == nil {
				fatal("no such profile: " + c.Profile)
			}
		}
		cur = w
		w.run(p, deps)
		put(w.res)
	}
	f.Close()
}
