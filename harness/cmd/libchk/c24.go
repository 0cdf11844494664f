package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"

	"verif/vk"
)

func init() {
	checks["C24"] = check{"exploration",
		"broadcasters with readers that begin before, at and after the moment the value is set, from many goroutines and repeatedly, with a perturbed schedule; every read must give exactly the value set (nil, pointers and values alike), " +
			"none may return before the set has begun, and all must return. A case is one broadcaster; non-trivial if a reader begins before the set; distinct by its drawn parameters.",
		c24}
}

func c24(r *vk.Run) {
	r.Assume("the value is set once, as documented")
	var mu sync.Mutex
	levels := r.Rng("levels")
	var done int64
	defer patient(r, func(d time.Duration) { c24Late(r, d) })()
	defer c24Volume(r)()
	cases(r, 12, r.N(150000, 8000000), func(k int, w *note) {
		if atomic.AddInt64(&done, 1)%1000 == 0 {
			mu.Lock()
			perturb(levels)
			mu.Unlock()
		}
		c24Case(r, r.Rng("case", k), w)
	})
}

// c24Late sets the value long after the reads have begun.
func c24Late(r *vk.Run, d time.Duration) {
	vk.Parallel(2, func(k int) {
		value := []any{"late", nil}[k]
		b := concurrency.NewBroadCaster()
		var begun atomic.Bool
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if v := b.Get(); v != value || !begun.Load() {
					r.Violate(map[string]any{"after": d.String()}, "a read whose value is set %s later returns %v, set %v: %v", d, v, value, begun.Load())
				}
			}()
		}
		time.Sleep(d)
		begun.Store(true)
		b.Set(value)
		if !vk.Within(hangLimit, wg.Wait) {
			r.Violate(map[string]any{"after": d.String()}, "a read whose value is set %s later has not returned %s after the set", d, hangLimit)
		}
		r.Case(fmt.Sprint("late", d, value))
	})
}

func c24Case(r *vk.Run, rng *rand.Rand, w *note) {
	readers := 1 + rng.Intn(12)
	setAt := time.Duration(rng.Intn(2)*rng.Intn(300)) * time.Microsecond
	kind := rng.Intn(5)
	var value any
	switch kind {
	case 1:
		value = rng.Int()
	case 2:
		value = fmt.Sprint(rng.Int())
	case 3:
		value = &struct{ a, b int }{rng.Int(), rng.Int()}
	case 4:
		value = false
	}
	what := fmt.Sprintf("value of kind %d set after %s, readers at", kind, setAt)
	ats := make([]time.Duration, readers)
	before := false
	for i := range ats {
		ats[i] = time.Duration(rng.Intn(3)*rng.Intn(200)) * time.Microsecond
		before = before || ats[i] <= setAt
		what += fmt.Sprintf(" %s", ats[i])
	}
	w.set(what)
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"case": what, "stacks": vk.Clip(vk.Stacks(), 50000)}, "%s: %s", what, fmt.Sprintf(format, args...))
	}
	b := concurrency.NewBroadCaster()
	var begun atomic.Bool
	var wg sync.WaitGroup
	for i := 0; i < readers; i++ {
		wg.Add(1)
		go func(at time.Duration) {
			defer wg.Done()
			if at > 0 {
				time.Sleep(at)
			}
			for j := 0; j < 3; j++ {
				v := b.Get()
				if !raceBuild && !begun.Load() {
					fail("a read returns %v before the value is set", v)
				}
				if v != value {
					fail("a read returns %v instead of %v", v, value)
				}
			}
		}(ats[i])
	}
	if setAt > 0 {
		time.Sleep(setAt)
	}
	if !raceBuild {
		begun.Store(true)
	}
	b.Set(value)
	if !vk.Within(hangLimit, wg.Wait) {
		fail("a read has not returned %s after the set", hangLimit)
	}
	if v := b.Get(); v != value {
		fail("a late read returns %v instead of %v", v, value)
	}
	r.Count("reads", int64(readers*3+1))
	sig := ""
	if before {
		sig = what
	}
	if r.WantSample() {
		r.Sample(what)
	}
	r.Case(sig)
}
