package main

import (
	"errors"
	"fmt"
	"math/rand"

	"github.com/lxdlam/vertex/pkg/types"
	"github.com/lxdlam/vertex/pkg/util"

	"verif/vk"
)

func init() {
	checks["C29"] = check{"exploration",
		"pipelines of random length whose handlers log their calls, pass on the same, another or no data map and fail at random places, also together with a result, are run repeatedly and extended in between; " +
			"the call log, each handler's input, the result and the error are compared with the definition. A case is one pipeline; non-trivial with two handlers; distinct by its plan.",
		c29}
}

func c29(r *vk.Run) {
	defer c29Volume(r)()
	cases(r, 8, r.N(200000, 10000000), func(k int, w *note) { c29Case(r, r.Rng("case", k), w) })
}

func c29Case(r *vk.Run, rng *rand.Rand, w *note) {
	p := util.NewPipeline()
	type step struct {
		in  types.DataMap
		idx int
	}
	type outcome struct {
		out types.DataMap
		err error
	}
	var calls []step
	var plan []outcome
	what := ""
	w.set("pipeline")
	for round := 0; round < 1+rng.Intn(3); round++ {
		for n := rng.Intn(6); n > 0; n-- {
			idx := len(plan)
			var o outcome
			pass := false
			switch rng.Intn(4) {
			case 0:
				o.out = nil
			case 1:
				pass = true
			default:
				o.out = types.NewSimpleDataMap()
			}
			if rng.Intn(8) == 0 {
				o.err = errors.New(fmt.Sprint("error of handler ", idx))
			}
			what += fmt.Sprintf("(%v %v %v)", o.out != nil, pass, o.err != nil)
			plan = append(plan, o)
			passes := pass
			p2 := p.AddHandler(func(in types.DataMap) (types.DataMap, error) {
				calls = append(calls, step{in, idx})
				if passes {
					return in, plan[idx].err
				}
				return plan[idx].out, plan[idx].err
			})
			if passes {
				plan[idx].out = passMarker
			}
			if p2 == nil {
				r.Violate(map[string]any{"plan": what}, "AddHandler returns nothing to go on with")
			}
			if rng.Intn(2) == 0 {
				p = p2
			}
		}
		what += fmt.Sprintf("run%d;", round)
		var input types.DataMap = types.NewSimpleDataMap()
		if rng.Intn(6) == 0 {
			input = nil
		}
		calls = nil
		got, err := p.Run(input)
		want, werr := input, error(nil)
		fail := func(format string, args ...any) {
			r.Violate(map[string]any{"plan": what}, "pipeline %s: %s", what, fmt.Sprintf(format, args...))
		}
		ran := 0
		for i, o := range plan {
			if i >= len(calls) || calls[i].idx != i {
				fail("handler %d is not the one called as number %d of %d", i, i, len(calls))
			}
			if calls[i].in != want {
				fail("handler %d does not get the result of the one before", i)
			}
			ran++
			if o.out != passMarker {
				want = o.out
			}
			if werr = o.err; werr != nil {
				break
			}
		}
		if len(calls) != ran {
			fail("%d handlers are called instead of %d", len(calls), ran)
		}
		if got != want || err != werr {
			fail("the outcome is %v, %v instead of %v, %v", got, err, want, werr)
		}
		r.Count("runs", 1)
		r.Count("handler_calls", int64(ran))
		if werr != nil {
			r.Count("runs_that_failed", 1)
		}
	}
	sig := ""
	if len(plan) > 1 {
		sig = what
	}
	if r.WantSample() {
		r.Sample(what)
	}
	r.Case(sig)
}

var passMarker types.DataMap = types.NewLockedDataMap()
