//go:build race

// Package verifyield perturbs the schedule. Under the race detector it must not synchronize the goroutines that pass
// it, which would hide races, so it keeps no shared state.
package verifyield

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"time"
)

var gosched, sleep uint64

func init() {
	if v, err := strconv.Atoi(os.Getenv("VERIF_YIELD")); err == nil {
		gosched, sleep = uint64(v)*400, uint64(v)*10
	}
}

// SetLevel does nothing here, the level is fixed at the start.
func SetLevel(v int) {}

// SetStall does nothing here either.
func SetStall(n int64) int64 { return 0 }

// Y is called before each statement.
func Y(n int) {
	if gosched == 0 {
		return
	}
	x := rand.Uint64()
	if x&0xffff < sleep {
		time.Sleep(time.Duration(int64(x>>20) % int64(500*time.Microsecond)))
	} else if (x>>16)&0xffff < gosched {
		runtime.Gosched()
	}
}

// Stats measures nothing here.
func Stats() (total, sites, adjacent int64) { return 0, 0, 0 }
