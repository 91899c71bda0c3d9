//go:build !verifhook

package main

import "hash/maphash"

const hookOn = false

func hookReset()                                                 {}
func hookDisable()                                               {}
func hookBegin()                                                 {}
func hookEnd() []maphash.Seed                                    { return nil }
func hookMissedSet(n int64)                                      {}
func hookMissed() int64                                          { return 1 }
func hookProgram(seed maphash.Seed, data []byte, words []uint64) {}
func hookExact() bool                                            { return false }
