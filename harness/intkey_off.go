//go:build !intkey

package main

const intKeyOn = false

func intKeyMap[V any](c storeCfg, vs *valSpace[V]) store { return nil }
func intKeySet(c storeCfg) store                         { return nil }

var intEqual func(x, y any) bool
