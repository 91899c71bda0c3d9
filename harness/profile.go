package main

import (
	"encoding/json"
	"hash/maphash"
	"os"
)

// profile is a hash assignment: the 4-bit digits of each key's successive
// hashes, lowest first.
type profile struct {
	Name   string  `json:"name"`
	N      int     `json:"n"`
	Pre    int     `json:"pre"` // digits shared by all before those: the first hash, over and over
	Digits [][]int `json:"digits"`
	words  [][]uint64
}

func (p *profile) Words() [][]uint64 {
	if p.words == nil {
		for _, ds := range p.Digits {
			w := make([]uint64, (len(ds)+15)/16)
			for i, d := range ds {
				w[i/16] |= uint64(d&15) << (4 * uint(i%16))
			}
			for i := 0; i < p.Pre/16; i++ {
				w = append(w, 0)
			}
			copy(w[p.Pre/16:], w)
			for i := 0; i < p.Pre/16; i++ {
				w[i] = w[p.Pre/16]
			}
			p.words = append(p.words, w)
		}
	}
	return p.words
}

func loadProfiles(path string) []*profile {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var ps []*profile
	if err := json.Unmarshal(b, &ps); err != nil {
		fatal(err)
	}
	return ps
}

func programSeed(s maphash.Seed, n int, data func(int) []byte, p *profile) {
	w := p.Words()
	for k := 1; k <= n && k <= len(w); k++ {
		hookProgram(s, data(k), w[k-1])
	}
}
