//go:build intkey

package main

import "github.com/wdamron/amt"

const intKeyOn = true

func toInt(x int64) amt.Int   { return amt.Int(x) }
func fromInt(x amt.Int) int64 { return int64(x) }

func intKeyMap[V any](c storeCfg, vs *valSpace[V]) store {
	return newMapStore(c, mapSpace(intSpace(c.Keys, c.N), toInt, fromInt), vs, amt.NewMap[amt.Int, V])
}
func intKeySet(c storeCfg) store {
	return newSetStore(c, mapSpace(intSpace(c.Keys, c.N), toInt, fromInt), amt.NewSet[amt.Int])
}

func intEqual(x, y any) bool { return x.(amt.Int).Equal(y.(amt.Int)) }
