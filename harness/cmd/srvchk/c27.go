package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/vk"
)

func init() { checks["C27"] = c27 }

func c27() {
	r := vk.Begin("C27", "exploration", "clients that send requests with far more bytes of replies than the sockets hold and read nothing, next to clients whose every reply is judged by the reference model and to new "+
		"connections; then some of the stalled ones read on, some slowly, and every reply they get is judged as well. A round is non-trivial if a stalled client still had replies outstanding when the others were done; distinct by round.")
	total := int64(r.N(60, 1200))
	wait := late(r, vk.Cfg{}, func(s *vk.Srv, d time.Duration) { c27Late(r, s, d) })
	var next int64
	vk.Parallel(workers(), func(wi int) {
		bin, level := "plain", 0
		if wi%2 == 1 {
			bin, level = "yield", 10*wi
		}
		s := vk.NewSrv(r, vk.SrvOpt{Bin: bin, Yield: level})
		if err := s.Start(vk.Cfg{}, ""); err != nil {
			r.Infra("%v", err)
		}
		for {
			i := atomic.AddInt64(&next, 1)
			if i > total {
				break
			}
			s.StallSome(r, i)
			c27Round(r, s, i)
		}
		r.Observe(s)
		s.Kill()
	})
	wait()
	r.End()
}

func c27Round(r *vk.Run, s *vk.Srv, i int64) {
	rng := r.Rng("round", i)
	nStalled := 1 + rng.Intn(6)
	nHealthy := 1 + rng.Intn(6)
	rep := map[string]any{"round": i, "stalled": nStalled, "healthy": nHealthy}
	fail := func(format string, args ...any) {
		if s.Alive() {
			rep["stacks"] = s.Stacks()
		} else {
			rep["crash"] = s.CrashReason()
		}
		r.Violate(rep, "round %d, %d stalled and %d other clients: %s", i, nStalled, nHealthy, fmt.Sprintf(format, args...))
	}
	type stalled struct {
		c      *vk.Client
		script [][]string
		sent   int64
		fate   int
	}
	var st []*stalled
	for k := 0; k < nStalled; k++ {
		sr := r.Rng("stalled", i, k)
		prefix := fmt.Sprintf("s%d.%d:", i, k)
		x := &stalled{fate: sr.Intn(4)}
		size := []int{100, 4000, 20000, 400000}[sr.Intn(4)]
		n := min(24<<20/size, 8000)
		x.script = append(x.script, []string{"SET", prefix + "big", strings.Repeat("b", size)}, []string{"SET", prefix + "n", "0"})
		for j := 0; j < n; j++ {
			switch sr.Intn(6) {
			case 0:
				x.script = append(x.script, []string{"INCR", prefix + "n"})
			case 1:
				x.script = append(x.script, []string{"APPEND", prefix + "a", fmt.Sprint(j)}, []string{"GET", prefix + "a"})
			case 2:
				x.script = append(x.script, []string{"NOSUCH", prefix})
			default:
				x.script = append(x.script, []string{"GET", prefix + "big"})
			}
		}
		c, err := vk.Dial(s.Addr())
		if err != nil {
			fail("cannot connect: %v", err)
		}
		x.c = c
		c.Timeout = 10 * time.Minute // the server may let it wait
		st = append(st, x)
		go func() {
			for j := 0; j < len(x.script); {
				var b strings.Builder
				for ; j < len(x.script) && b.Len() < 8000; j++ {
					b.WriteString(vk.Cmd(x.script[j]...))
				}
				if c.Raw(b.String()) != nil {
					return
				}
				atomic.StoreInt64(&x.sent, int64(j))
			}
		}()
	}
	time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
	var wg sync.WaitGroup
	var worst int64
	for k := 0; k < nHealthy; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			g := newGen(r.Rng("healthy", i, k), fmt.Sprintf("h%d.%d:", i, k))
			db := vk.NewDB()
			c, err := vk.Dial(s.Addr())
			if err != nil {
				fail("a new client cannot connect: %v", err)
			}
			c.Timeout = 45 * time.Second
			until := time.Now().Add(20 * time.Second)
			for j, rest := 0, 20; j < 60 || rest > 0; j++ {
				// until all requests of the stalled clients are on their way and a bit longer
				all := true
				for _, x := range st {
					all = all && atomic.LoadInt64(&x.sent) == int64(len(x.script))
				}
				if all || time.Now().After(until) {
					rest--
				}
				if j%25 == 24 {
					c.Close()
					if c, err = vk.Dial(s.Addr()); err != nil {
						fail("a new client cannot connect: %v", err)
					}
					c.Timeout = 45 * time.Second
				}
				var cmds [][]string
				for m := 1 + g.r.Intn(5); m > 0; m-- {
					x := g.anyCmd()
					for len(x) > 1 && x[1] == "" {
						x = g.anyCmd()
					}
					cmds = append(cmds, x)
				}
				t0 := time.Now()
				vs, err := c.Pipe(cmds)
				if d := int64(time.Since(t0)); d > atomic.LoadInt64(&worst) {
					atomic.StoreInt64(&worst, d)
				}
				for q, v := range vs {
					if msg := db.Step(cmds[q], v); msg != "" {
						fail("another client's %q: %s", quoteCmd(cmds[q]), msg)
					}
				}
				if err != nil {
					fail("another client's requests are not answered while some clients do not read: %v", err)
				}
				r.Count("replies_of_other_clients_judged", int64(len(vs)))
			}
			c.Close()
		}(k)
	}
	wg.Wait()
	r.Max("longest_wait_of_another_client_ms", worst/1e6)
	// the stalled ones go on
	for k, x := range st {
		wg.Add(1)
		go func(k int, x *stalled) {
			defer wg.Done()
			defer x.c.Close()
			switch x.fate {
			case 0:
				x.c.Reset()
				return
			case 1:
				return
			}
			sr := r.Rng("resume", i, k)
			db := vk.NewDB()
			x.c.Timeout = vk.ReplyTimeout
			for j, q := range x.script {
				if x.fate == 3 && j%50 == 0 && j < 500 {
					time.Sleep(time.Duration(sr.Intn(3)) * time.Millisecond)
				}
				v, err := x.c.Recv()
				if err != nil {
					fail("stalled client %d gets no well-formed reply %d of %d after it resumes reading: %v", k, j, len(x.script), err)
				}
				if msg := db.Step(q, v); msg != "" {
					fail("stalled client %d, reply %d of %d to %q: %s", k, j, len(x.script), q[0], msg)
				}
			}
			if v, err := x.c.Do("GET", "no such key"); err != nil || !v.Null {
				fail("stalled client %d after all its replies: %s %v", k, v, err)
			}
			r.Count("replies_of_stalled_clients_judged", int64(len(x.script)))
		}(k, x)
	}
	wg.Wait()
	outstanding := 0
	for _, x := range st {
		outstanding += len(x.script)
	}
	r.Case(fmt.Sprint(i, nStalled, nHealthy, outstanding))
	if r.WantSample() {
		r.Sample(map[string]any{"stalled_clients": nStalled, "their_requests": outstanding, "other_clients": nHealthy, "longest_wait_of_another_ms": worst / 1e6})
	}
	// free the memory
	if c, err := vk.Dial(s.Addr()); err == nil {
		for k := 0; k < nStalled; k++ {
			_, _ = c.Do("SET", fmt.Sprintf("s%d.%d:big", i, k), "")
			_, _ = c.Do("SET", fmt.Sprintf("s%d.%d:a", i, k), "")
		}
		c.Close()
	}
}
