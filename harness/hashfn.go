package main

import (
	"bufio"
	"fmt"
	"hash/maphash"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/wdamron/amt"
)

// Calls of the key helpers (C17), written down for spec/HashTrace.tla.

// place puts content s into memory of its own, at some offset, with other
// bytes around it.
func place(rng *rand.Rand, s string, reuse []byte) []byte {
	if len(s) == 0 {
		switch rng.Intn(3) {
		case 0:
			return nil
		case 1:
			return []byte{}
		}
	}
	off, tail := rng.Intn(9), rng.Intn(17)
	b := make([]byte, off+len(s)+tail)
	if reuse != nil && len(b) <= len(reuse) && rng.Intn(3) > 0 {
		off, tail = 0, 0
		b = reuse[:len(s)]
	}
	rng.Read(b)
	copy(b[off:], s)
	if rng.Intn(2) == 0 {
		return b[off : off+len(s) : off+len(s)]
	}
	return b[off : off+len(s)]
}

func byteContents(rng *rand.Rand, deep bool) []string {
	out := []string{""}
	have := map[string]bool{"": true}
	add := func(s string) {
		if !have[s] {
			have[s] = true
			out = append(out, s)
		}
	}
	al := []byte{0, 1, 'a', 0x80, 0xff}
	for _, x := range al {
		add(string([]byte{x}))
		for _, y := range al {
			add(string([]byte{x, y}))
			add(string([]byte{x, y, x}))
		}
	}
	for n := 3; n <= 40; n++ {
		add(strings.Repeat("\x00", n))
		add(strings.Repeat("ab", n))
	}
	for _, n := range []int{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 384, 1000} {
		base := []byte(strings.Repeat("0123456789abcdef", n/16+1)[:n])
		add(string(base))
		places := []int{0, 1, n / 2, n - 2, n - 1, rng.Intn(n), rng.Intn(n)}
		if deep || n <= 17 {
			for j := 0; j < n; j++ {
				places = append(places, j)
			}
		}
		for _, j := range places {
			b := append([]byte(nil), base...)
			b[j] ^= 1 << uint(rng.Intn(8))
			add(string(b))
		}
	}
	for _, n := range []int{4095, 4096, 4097, 65535, 65536, 65537, 65540, 131072 + 4} {
		base := []byte(strings.Repeat("0123456789abcdef", n/16+1)[:n])
		add(string(base))
		for _, j := range []int{0, n / 2, n - 1, rng.Intn(n)} {
			b := append([]byte(nil), base...)
			b[j] ^= 1 << uint(rng.Intn(8))
			add(string(b))
		}
	}
	for j := 0; j < 40; j++ {
		b := make([]byte, 1+rng.Intn(300))
		rng.Read(b)
		add(string(b))
	}
	return out
}

func intContents(rng *rand.Rand) []int64 {
	var out []int64
	have := map[int64]bool{}
	add := func(x int64) {
		if !have[x] {
			have[x] = true
			out = append(out, x)
		}
	}
	for x := int64(-70); x <= 300; x++ {
		add(x)
	}
	for j := uint(0); j < 64; j++ {
		for d := int64(-1); d <= 1; d++ {
			add(int64(1)<<j + d)
			add(-(int64(1) << j) + d)
		}
		add(0x0123456789abcdef ^ int64(1)<<j)
	}
	add(math.MinInt64)
	add(math.MaxInt64)
	for j := 0; j < 100; j++ {
		add(int64(rng.Uint64()))
	}
	return out
}

type helper struct {
	name string
	n    int // contents 0..n-1 (0: the empty key) or 1..n
	from int
	size func(c int) int
	inst func(c int) any
	hash func(x any, s maphash.Seed, i uint) uint64
	eq   func(x, y any) bool
}

// cmdHash: amtharness hash SEED quick|thorough OUT.ndjson
func cmdHash(args []string) {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	deep := args[1] == "thorough"
	rng := rand.New(rand.NewSource(seed))
	hookDisable()
	f, err := os.Create(args[2])
	if err != nil {
		fatal(err)
	}
	out := bufio.NewWriterSize(f, 1<<20)
	bc := byteContents(rng, deep)
	ic := intContents(rng)
	blen := func(c int) int { return len(bc[c]) }
	buf := make([]byte, 1024) // memory used again for other keys
	hs := []helper{
		{"String", len(bc), 0, blen, func(c int) any {
			b := place(rng, bc[c], nil)
			return amt.String(unsafe.String(unsafe.SliceData(b), len(b)))
		}, func(x any, s maphash.Seed, i uint) uint64 { return x.(amt.String).Hash(s, i) },
			func(x, y any) bool { return x.(amt.String).Equal(y.(amt.String)) }},
		{"Bytes", len(bc), 0, blen, func(c int) any { return amt.Bytes(place(rng, bc[c], buf)) },
			func(x any, s maphash.Seed, i uint) uint64 { return x.(amt.Bytes).Hash(s, i) },
			func(x, y any) bool { return x.(amt.Bytes).Equal(y.(amt.Bytes)) }},
		{"HashBytes", len(bc), 0, blen, func(c int) any { return place(rng, bc[c], buf) },
			func(x any, s maphash.Seed, i uint) uint64 { return amt.HashBytes(x.([]byte), s, i) }, nil},
		{"Int", len(ic) + 1, 1, func(int) int { return 8 }, func(c int) any { return amt.Int(ic[c-1]) },
			func(x any, s maphash.Seed, i uint) uint64 { return x.(amt.Int).Hash(s, i) }, intEqual},
	}
	seeds := make([]maphash.Seed, 4)
	for j := range seeds {
		seeds[j] = maphash.MakeSeed()
	}
	for _, h := range hs {
		fmt.Fprintf(out, `{"helper":%q,"obs":[`, h.name)
		var stuck []string
		first := true
		call := func(c, s int, i uint) {
			x := h.inst(c)
			res := make(chan uint64, 1)
			go func() { res <- h.hash(x, seeds[s], i) }()
			var v uint64
			select {
			case v = <-res:
			case <-time.After(20 * time.Second):
				stuck = append(stuck, fmt.Sprintf(`{"c":%d,"i":%d}`, c, i))
				return
			}
			if !first {
				out.WriteByte(',')
			}
			first = false
			fmt.Fprintf(out, `[%d,%d,%d,"%016x"]`, c, s, i, v)
		}
		for round := 0; round < 2; round++ {
			for c := h.from; c < h.n && len(stuck) == 0; c++ {
				call(c, 0, 0)
				call(c, 1+rng.Intn(3), 0)
				call(c, 0, 1)
				if round == 0 || rng.Intn(4) == 0 {
					call(c, rng.Intn(4), uint(rng.Intn(20)))
				}
			}
			if round == 0 {
				runtime.GC()
			}
		}
		// a few keys with all seeds and many counts
		for j := 0; j < 200; j++ { // different keys, one straight after the other
			c, s, i := h.from+rng.Intn(h.n-h.from-1), rng.Intn(4), uint(rng.Intn(3))
			for _, e := range []int{c, c + 1, c, c} {
				if len(stuck) == 0 {
					call(e, s, i)
				}
			}
		}
		var pick []int
		for j := 0; j < 8; j++ {
			pick = append(pick, h.from+rng.Intn(h.n-h.from))
		}
		pick = append(pick, h.from, h.from+1, h.from+2)
		iters := []uint{253, 254, 255, 256, 257, 300, 511, 512, 513}
		for i := uint(0); i <= 40; i++ {
			iters = append(iters, i)
		}
		big := []uint{1023, 4096, 32767, 32768, 65535, 65536, 65537}
		if deep {
			for i := uint(41); i < 1100; i++ {
				iters = append(iters, i)
			}
			big = append(big, 100000, 131071, 131072, 1<<20)
		}
		for n, c := range pick {
			for s := range seeds {
				for _, i := range iters {
					if len(stuck) == 0 && (deep || s < 2 || i > 200) {
						call(c, s, i)
					}
				}
			}
			if n < 6 && h.size(c) <= 300 {
				for _, i := range big {
					if len(stuck) == 0 {
						call(c, 0, i)
						call(c, 0, i)
					}
				}
			}
		}
		out.WriteString(`],"eq":[`)
		if h.eq != nil {
			was := buf
			buf = nil // two keys at once
			for j, n := 0, 3000; j < n; j++ {
				c := h.from + rng.Intn(h.n-h.from)
				e := c
				switch rng.Intn(3) {
				case 0:
					e = h.from + rng.Intn(h.n-h.from)
				case 1:
					e = max(h.from, c-1)
				}
				if j > 0 {
					out.WriteByte(',')
				}
				fmt.Fprintf(out, `[%d,%d,%s]`, c, e, b(h.eq(h.inst(c), h.inst(e))))
			}
			buf = was
		}
		fmt.Fprintf(out, `],"stuck":[%s]}`+"\n", strings.Join(stuck, ","))
		if len(stuck) > 0 {
			break // the call still runs
		}
	}
	out.Flush()
	f.Close()
}
