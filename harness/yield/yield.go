//go:build !race

// Package verifyield perturbs the schedule of the instrumented packages and measures what it saw. It is laid over
// the module under test at build time only.
package verifyield

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

const maxSites = 4096

var (
	gosched, sleep uint64 // out of 1<<16
	maxSleep       = int64(500 * time.Microsecond)
	hits           [maxSites]uint32
	pairs          [1 << 16]uint32
	last           uint32
	stalls         [maxSites]int32
	stalled        int64
)

// SetStall chooses a few statements that lie close together, by the number given, at which a goroutine will be held up
// for longer than the events between the parts of the server live. 0 chooses none. It gives how often one was held up so far.
func SetStall(n int64) int64 {
	for i := range stalls {
		atomic.StoreInt32(&stalls[i], 0)
	}
	if n != 0 {
		var seen []int
		for i := range hits {
			if atomic.LoadUint32(&hits[i]) > 0 {
				seen = append(seen, i)
			}
		}
		rng := rand.New(rand.NewPCG(uint64(n), 1))
		if len(seen) > 0 {
			width := []int{10, 40, 120, len(seen)}[rng.IntN(4)]
			at := rng.IntN(len(seen))
			for k := 4 + rng.IntN(20); k > 0; k-- {
				atomic.StoreInt32(&stalls[seen[(at+rng.IntN(width))%len(seen)]], int32(1+rng.IntN(3)))
			}
		}
	}
	return atomic.LoadInt64(&stalled)
}

func stall(n int) {
	if n >= maxSites || atomic.LoadInt32(&stalls[n]) <= 0 || atomic.AddInt32(&stalls[n], -1) < 0 {
		return
	}
	atomic.AddInt64(&stalled, 1)
	time.Sleep(time.Duration(2+rand.IntN([]int{10, 30, 80}[rand.IntN(3)])) * time.Millisecond)
}

func init() {
	if v, err := strconv.Atoi(os.Getenv("VERIF_YIELD")); err == nil {
		SetLevel(v)
	}
}

// SetLevel sets how much is perturbed, from 0 to 100.
func SetLevel(v int) {
	atomic.StoreUint64(&gosched, uint64(v)*400)
	atomic.StoreUint64(&sleep, uint64(v)*10)
}

// Y is called before each statement.
func Y(n int) {
	if n < maxSites {
		atomic.AddUint32(&hits[n], 1)
	}
	prev := atomic.SwapUint32(&last, uint32(n))
	h := (prev*2654435761 ^ uint32(n)*40503) & 0xffff
	if atomic.LoadUint32(&pairs[h]) == 0 {
		atomic.StoreUint32(&pairs[h], 1)
	}
	stall(n)
	g := atomic.LoadUint64(&gosched)
	if g == 0 {
		return
	}
	x := rand.Uint64()
	if x&0xffff < atomic.LoadUint64(&sleep) {
		time.Sleep(time.Duration(int64(x>>20) % maxSleep))
	} else if (x>>16)&0xffff < g {
		runtime.Gosched()
	}
}

// Stats gives the statements passed, the distinct ones, and the distinct pairs of statements passed one after the
// other by any goroutines, a measure of the different interleavings.
func Stats() (total, sites, adjacent int64) {
	for i := range hits {
		if c := atomic.LoadUint32(&hits[i]); c > 0 {
			sites++
			total += int64(c)
		}
	}
	for i := range pairs {
		if atomic.LoadUint32(&pairs[i]) > 0 {
			adjacent++
		}
	}
	return
}
