//go:build yield

package main

import (
	"math/rand"
	"sync/atomic"

	"github.com/lxdlam/vertex/verifyield"

	"verif/vk"
)

// perturb picks how much the schedule is disturbed from now on.
func perturb(rng *rand.Rand) int {
	v := []int{0, 1, 5, 20, 60, 100}[rng.Intn(6)]
	verifyield.SetLevel(v)
	stall := int64(0)
	if rng.Intn(3) == 0 {
		stall = 1 + rng.Int63()>>1
	}
	held := verifyield.SetStall(stall)
	atomic.StoreInt64(&heldUp, held)
	return v
}

var heldUp int64

func observe(r *vk.Run) {
	r.Count("goroutines_held_up", atomic.LoadInt64(&heldUp))
	total, sites, adjacent := verifyield.Stats()
	if total > 0 {
		r.Count("instrumented_statements_passed", total)
		r.Fact("distinct_statements_passed", sites)
		r.Fact("distinct_adjacent_statement_pairs", adjacent)
	}
}
