package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"verif/vk"
)

func init() {
	checks["C03"] = func() { seqCheck("C03", "string", (*gen).strCmd, 9000, 120000) }
	checks["C04"] = func() { seqCheck("C04", "list", (*gen).listCmd, 9000, 120000) }
	checks["C05"] = func() { seqCheck("C05", "hash", (*gen).hashCmd, 9000, 120000) }
	checks["C06"] = func() { seqCheck("C06", "set", (*gen).setCmd, 9000, 120000) }
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	return n
}

// seqCheck runs random command sequences of one client against the server and compares every reply, and in the end
// all contents, with the reference model.
func seqCheck(id, family string, cmd func(*gen) []string, quick, thorough int) {
	r := vk.Begin(id, "exploration", "random sequences of "+family+" commands over few keys and values (empty, binary, numeric, boundary, equal-hash, long), "+
		"pipelined in chunks of random size; every reply is judged by a reference model and all contents are compared after each sequence; besides, values, replies and containers whose size goes through powers of two. "+
		"A sequence is non-trivial if it changed the store and some read saw the change; distinct by its commands.")
	total := int64(r.N(quick, thorough))
	var next int64
	w := workers()
	var much sync.WaitGroup
	much.Add(1)
	go func() {
		defer much.Done()
		volume(r, family, false)
	}()
	vk.Parallel(w, func(wi int) {
		s := vk.NewSrv(r, vk.SrvOpt{})
		if err := s.Start(vk.Cfg{}, ""); err != nil {
			r.Infra("%v", err)
		}
		c, err := vk.Dial(s.Addr())
		if err != nil {
			r.Infra("dial: %v", err)
		}
		for {
			i := atomic.AddInt64(&next, 1)
			if i > total {
				break
			}
			seqCase(r, s, c, i, cmd)
		}
		c.Close()
		s.Kill()
	})
	much.Wait()
	r.Assume("the empty key is only used for strings: containers refuse it")
	r.End()
}

func seqCase(r *vk.Run, s *vk.Srv, c *vk.Client, i int64, cmd func(*gen) []string) {
	rng := r.Rng("case", i)
	g := newGen(rng, fmt.Sprintf("%d:", i))
	db := vk.NewDB()
	var all [][]string
	var replies []string
	n := 10 + rng.Intn(70)
	big := rng.Intn(60) == 0
	if big {
		n = 300
		for j := 0; j < 40; j++ {
			g.vals = append(g.vals, fmt.Sprint("big", j))
		}
	}
	changed, seen := 0, false
	for len(all) < n {
		var chunk [][]string
		for j, m := 0, 1+rng.Intn(20); j < m; j++ {
			var x []string
			if rng.Intn(25) == 0 {
				x = g.badCmd()
			} else {
				x = cmd(g)
				if big && rng.Intn(3) == 0 && len(x) == 3 && (x[0] == "RPUSH" || x[0] == "LPUSH" || x[0] == "SADD") {
					x = append(x, g.vals...)
				}
			}
			x[0] = g.mixCase(x[0])
			chunk = append(chunk, x)
		}
		vals, err := c.Pipe(chunk)
		for j, v := range vals {
			all = append(all, chunk[j])
			replies = append(replies, vk.Clip(v.String(), 200))
			before := ""
			if changed < 3 {
				before = db.Canon()
			}
			if msg := db.Step(chunk[j], v); msg != "" {
				r.Violate(map[string]any{"commands": quoteCmds(all), "replies": replies}, "command %d, %q: %s", len(all), quoteCmd(chunk[j]), msg)
			}
			if changed < 3 && db.Canon() != before {
				changed++
			} else if changed > 0 && v.T != '-' {
				seen = true
			}
		}
		if err != nil {
			if !s.Alive() {
				r.Violate(map[string]any{"commands": quoteCmds(append(all, chunk...)), "crash": s.CrashReason()}, "the server died")
			}
			all = append(all, chunk[len(vals):]...)
			r.Violate(map[string]any{"commands": quoteCmds(all), "replies": replies, "stacks": s.Stacks()}, "no well-formed reply to command %d, %q: %v", len(all)-len(chunk)+len(vals)+1, quoteCmd(chunk[len(vals)]), err)
		}
	}
	msg, err := db.CheckDump(c, g.keys)
	if err != nil || msg != "" {
		r.Violate(map[string]any{"commands": quoteCmds(all), "replies": replies}, "contents after the sequence: %s %v", msg, err)
	}
	r.Count("commands_judged", int64(len(all)))
	sig := ""
	if changed > 0 && seen {
		sig = fmt.Sprint(all)
	}
	r.Case(sig)
	if r.WantSample() && len(all) < 25 {
		r.Sample(map[string]any{"commands": quoteCmds(all), "replies": replies})
	}
}
