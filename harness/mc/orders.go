package main

import (
	_ "unsafe"
)

type verifStateT struct {
	Mode   int
	Const  int
	N      int
	Len    int
	Over   bool
	Choice [1024]uint8
	Width  [1024]uint8
}

//go:linkname verifState internal/runtime/maps.verifState
var verifState verifStateT

// setOrder makes every map iteration start at the given slot (modulo the
// number of entries).
func setOrder(k int) {
	verifState.Mode = 1
	verifState.Const = k
}

func freeOrder() { verifState.Mode = 0 }

func init() { setOrder(0) }

// allOrders runs f under every sequence of map iteration orders that can
// happen in it, up to limit executions; it reports how many there were and
// whether that was all. f must be a function of the orders only.
func allOrders(limit int, f func(n int)) (int, bool) {
	n := 0
	prefix := []uint8{}
	for {
		copy(verifState.Choice[:], prefix)
		verifState.Len = len(prefix)
		verifState.N = 0
		verifState.Over = false
		verifState.Mode = 2
		f(n)
		k, over := verifState.N, verifState.Over
		choice := append([]uint8(nil), verifState.Choice[:k]...)
		width := append([]uint8(nil), verifState.Width[:k]...)
		setOrder(0)
		n++
		if over {
			return n, false
		}
		// next sequence: increment the last choice that can be
		i := k - 1
		for i >= 0 && choice[i]+1 >= width[i] {
			i--
		}
		if i < 0 {
			return n, true
		}
		if n >= limit {
			return n, false
		}
		prefix = append(choice[:i:i], choice[i]+1)
	}
}

// hold suspends the control over map orders while f (harness code) runs.
func hold(f func()) {
	m := verifState.Mode
	verifState.Mode = 1
	f()
	verifState.Mode = m
}
