package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/lxdlam/vertex/pkg/types"

	"verif/vk"
)

func init() {
	checks["C19"] = check{"exploration",
		"the locked and the sync data map under concurrent set, get, has and remove of few keys with a perturbed schedule: the history of each round is checked for linearizability per key, started from what the round before left, " +
			"and in the pause after each round the length must equal the number of keys that are present; the simple map is compared with a model after every operation. A case is one map; non-trivial with two goroutines; distinct by its seed.",
		c19}
}

func c19(r *vk.Run) {
	var mu sync.Mutex
	levels := r.Rng("levels")
	var done int64
	defer c19Volume(r)()
	cases(r, 8, r.N(24000, 1000000), func(k int, w *note) {
		if atomic.AddInt64(&done, 1)%50 == 0 {
			mu.Lock()
			perturb(levels)
			mu.Unlock()
		}
		rng := r.Rng("case", k)
		switch rng.Intn(5) {
		case 0, 1:
			c19Concurrent(r, rng, w, "locked", types.NewLockedDataMap())
		case 2, 3:
			c19Concurrent(r, rng, w, "sync", types.NewSyncDataMap())
		default:
			for _, m := range []types.DataMap{types.NewSimpleDataMap(), types.NewLockedDataMap(), types.NewSyncDataMap()} {
				c19Alone(r, rng, w, m)
			}
		}
	})
}

type mapOp struct {
	kind int // 0 set, 1 get, 2 has, 3 remove
	key  string
	val  any
}

type mapOut struct {
	val any
	ok  bool
}

func mapValue(g *rand.Rand) any {
	switch g.Intn(9) {
	case 0:
		return nil
	case 1:
		return ""
	case 2: // values that cannot be compared, identified by what they hold
		return []int{g.Intn(1 << 30)}
	case 3:
		return map[string]int{"x": g.Intn(1 << 30)}
	case 4:
		n := g.Intn(1 << 30)
		return func() int { return n }
	default:
		return g.Intn(1 << 30)
	}
}

// valueID makes any value comparable.
func valueID(v any) any {
	switch x := v.(type) {
	case []int:
		return fmt.Sprintf("slice of %d", x)
	case map[string]int:
		return fmt.Sprintf("map of %d", x["x"])
	case func() int:
		return fmt.Sprintf("function of %d", x())
	}
	return v
}

func c19Alone(r *vk.Run, rng *rand.Rand, w *note, m types.DataMap) {
	what := fmt.Sprintf("%T used by one goroutine, seed %d", m, rng.Int63())
	fail := caseFail(r, w, what)
	model := map[string]any{}
	for i := 0; i < 100; i++ {
		key := []string{"", "a", "b", "\xff", "key"}[rng.Intn(5)]
		want, present := model[key]
		switch rng.Intn(4) {
		case 0:
			v := mapValue(rng)
			m.Set(key, v)
			model[key] = v
		case 1:
			if v, ok := m.Get(key); ok != present || valueID(v) != valueID(want) {
				fail("get %q gives %v, %v instead of %v, %v", key, v, ok, want, present)
			}
		case 2:
			if ok := m.Has(key); ok != present {
				fail("has %q gives %v", key, ok)
			}
		case 3:
			m.Remove(key)
			delete(model, key)
		}
		if m.Len() != len(model) {
			fail("the length is %d instead of %d", m.Len(), len(model))
		}
		r.Count("operations_alone", 1)
	}
	r.Case("")
}

func c19Concurrent(r *vk.Run, rng *rand.Rand, w *note, name string, m types.DataMap) {
	goroutines, rounds, ops := 2+rng.Intn(5), 1+rng.Intn(4), 5+rng.Intn(20)
	keys := []string{"", "a", "bb", "c"}[:1+rng.Intn(4)]
	what := fmt.Sprintf("%s map, %d goroutines, %d rounds of %d operations on %d keys, seed %d", name, goroutines, rounds, ops, len(keys), rng.Int63())
	fail := caseFail(r, w, what)
	start := time.Now()
	var all []porcupine.Operation
	for round := 0; round < rounds; round++ {
		logs := make([][]porcupine.Operation, goroutines)
		var wg sync.WaitGroup
		for i := 0; i < goroutines; i++ {
			g := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := 0; k < ops; k++ {
					op := mapOp{kind: g.Intn(4), key: keys[g.Intn(len(keys))]}
					var out mapOut
					if op.kind == 0 {
						op.val = mapValue(g)
					}
					call := int64(time.Since(start))
					switch op.kind {
					case 0:
						m.Set(op.key, op.val)
					case 1:
						out.val, out.ok = m.Get(op.key)
						out.val = valueID(out.val)
					case 2:
						out.ok = m.Has(op.key)
					case 3:
						m.Remove(op.key)
					}
					logs[i] = append(logs[i], porcupine.Operation{ClientId: i, Input: op, Call: call, Output: out, Return: int64(time.Since(start))})
					if g.Intn(30) == 0 { // an unjudged query, the length is judged in the pauses
						_ = m.Len()
					}
				}
			}(i)
		}
		if !vk.Within(hangLimit, wg.Wait) {
			fail("an operation has not returned for %s", hangLimit)
		}
		for _, l := range logs {
			all = append(all, l...)
		}
		present := 0
		for _, k := range keys {
			call := int64(time.Since(start))
			v, ok := m.Get(k)
			all = append(all, porcupine.Operation{ClientId: goroutines, Input: mapOp{kind: 1, key: k}, Call: call, Output: mapOut{valueID(v), ok}, Return: int64(time.Since(start))})
			if ok != m.Has(k) {
				fail("get and has disagree about key %q in a pause", k)
			}
			if ok {
				present++
			}
		}
		if n := m.Len(); n != present {
			fail("after round %d the length is %d, but %d keys are present", round, n, present)
		}
		r.Count("pauses_with_length_checked", 1)
	}
	model := porcupine.Model{
		Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
			parts := map[string][]porcupine.Operation{}
			for _, o := range h {
				parts[o.Input.(mapOp).key] = append(parts[o.Input.(mapOp).key], o)
			}
			var out [][]porcupine.Operation
			for _, p := range parts {
				out = append(out, p)
			}
			return out
		},
		Init: func() any { return mapOut{} },
		Step: func(state, in, out any) (bool, any) {
			s, op, o := state.(mapOut), in.(mapOp), out.(mapOut)
			switch op.kind {
			case 0:
				return true, mapOut{valueID(op.val), true}
			case 1:
				return o == s, s
			case 2:
				return o.ok == s.ok, s
			}
			return true, mapOut{}
		},
	}
	switch porcupine.CheckOperationsTimeout(model, all, 60*time.Second) {
	case porcupine.Illegal:
		var lines []string
		for _, o := range all {
			lines = append(lines, fmt.Sprintf("goroutine %d: %+v -> %+v [%d, %d]", o.ClientId, o.Input, o.Output, o.Call, o.Return))
		}
		r.Violate(map[string]any{"case": what, "history": lines}, "%s: the answers fit no order of the operations", what)
	case porcupine.Unknown:
		r.Count("histories_undecided", 1)
	}
	r.Count("operations", int64(len(all)))
	if r.WantSample() {
		r.Sample(what)
	}
	r.Case(what)
}
