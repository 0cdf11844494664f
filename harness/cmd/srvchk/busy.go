package main

import (
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"verif/vk"
)

const busySize = 100000

// busy has the server execute a command that takes about as long as d. It returns the client that waits for its reply.
func busy(s *vk.Srv, d time.Duration, fail func(format string, args ...any)) *vk.Client {
	c, err := vk.Dial(s.Addr())
	if err != nil {
		fail("cannot connect: %v", err)
	}
	c.Timeout = vk.ReplyTimeout + 3*d
	x := []string{"SADD", "much"}
	for len(x) < busySize+2 {
		x = append(x, fmt.Sprint(len(x)))
	}
	if v, err := c.Do(x...); err != nil || v.T != ':' {
		fail("SADD tells %s %v", vk.Clip(v.String(), 100), err)
	}
	x = []string{"SINTER", "much"}
	var took time.Duration
	for n := 4; took < 200*time.Millisecond && n < 1<<20; n *= 2 {
		for len(x) < n {
			x = append(x, "much")
		}
		t := time.Now()
		if v, err := c.Do(x...); err != nil || len(v.A) != busySize {
			fail("the set with itself has %d members, %v", len(v.A), err)
		}
		took = time.Since(t)
	}
	for want := int(float64(len(x)) * float64(d) / float64(took)); len(x) < want; {
		x = append(x, "much")
	}
	if v, err := c.Do("SET", "acknowledged", "1"); err != nil || v.S != "OK" {
		fail("SET tells %s %v", v, err)
	}
	if err := c.Raw(vk.Cmd(x...)); err != nil {
		fail("cannot send: %v", err)
	}
	time.Sleep(200 * time.Millisecond)
	return c
}

// inBackground runs f for each duration and returns a function that waits for all.
func inBackground(r *vk.Run, quick, thorough []int, f func(j int, d time.Duration)) func() {
	var wg sync.WaitGroup
	long := quick
	if r.Thorough() {
		long = thorough
	}
	for j, d := range long {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(j, time.Duration(d)*time.Second)
		}()
	}
	return wg.Wait
}

func busyFail(r *vk.Run, s *vk.Srv, d time.Duration) func(format string, args ...any) {
	return func(format string, args ...any) {
		rep := map[string]any{"command_takes": d.String()}
		if s.Alive() {
			rep["stacks"] = s.Stacks()
		} else {
			rep["crash"] = s.CrashReason()
		}
		r.Violate(rep, "while a command takes about %s: %s", d, fmt.Sprintf(format, args...))
	}
}

// c01Busy has clients that send while the server executes a long command.
func c01Busy(r *vk.Run) func() {
	return inBackground(r, []int{3, 9}, []int{3, 6, 12, 20, 35}, func(j int, d time.Duration) {
		s := vk.NewSrv(r, vk.SrvOpt{})
		defer s.Kill()
		fail := busyFail(r, s, d)
		if err := s.Start(vk.Cfg{}, ""); err != nil {
			r.Infra("%v", err)
		}
		b := busy(s, d, fail)
		defer b.Close()
		t := time.Now()
		vk.Parallel(40, func(k int) {
			rng := r.Rng("busy", j, k)
			time.Sleep(time.Duration(rng.Int63n(int64(d))))
			c, err := vk.Dial(s.Addr())
			if err != nil {
				fail("cannot connect: %v", err)
			}
			defer c.Close()
			c.Timeout = vk.ReplyTimeout + 3*d
			if k%8 == 7 { // leaves while it waits
				_ = c.Raw(vk.Cmd("GET", "acknowledged"))
				c.Reset()
				return
			}
			g, db := newGen(rng, fmt.Sprintf("busy%d:", k)), vk.NewDB()
			var cmds [][]string
			for i := 0; i < 1+rng.Intn(40); i++ {
				q := g.anyCmd()
				for len(q) > 1 && q[1] == "" {
					q = g.anyCmd()
				}
				cmds = append(cmds, q)
			}
			for i, q := range cmds {
				if err := c.Raw(vk.Cmd(q...)); err != nil {
					fail("client %d cannot send request %d: %v", k, i, err)
				}
			}
			for i, q := range cmds {
				v, err := c.Recv()
				if err != nil {
					fail("client %d gets no well-formed reply %d of %d: %v", k, i, len(cmds), err)
				}
				if msg := db.Step(q, v); msg != "" {
					fail("client %d, reply %d of %d to %q: %s", k, i, len(cmds), quoteCmd(q), msg)
				}
			}
			if msg, err := db.CheckDump(c, g.keys); err != nil || msg != "" {
				fail("client %d: %s %v", k, msg, err)
			}
		})
		if v, err := b.Recv(); err != nil || len(v.A) != busySize {
			fail("its own reply has %d members, %v", len(v.A), err)
		}
		if v, err := b.Do("GET", "acknowledged"); err != nil || v.S != "1" {
			fail("the reply after its own is %s %v", v, err)
		}
		r.Max("longest_command_ms", time.Since(t).Milliseconds())
		r.Case(fmt.Sprint("busy", d))
	})
}

// c13Busy has replicas that come while the master executes a long command.
func c13Busy(r *vk.Run) func() {
	return inBackground(r, []int{4}, []int{4, 12, 25}, func(j int, d time.Duration) {
		m := vk.NewSrv(r, vk.SrvOpt{})
		defer m.Kill()
		fail := busyFail(r, m, d)
		if err := m.Start(vk.Cfg{DatabaseFile: m.Dir + "/busy", EnableReplica: true}, ""); err != nil {
			r.Infra("%v", err)
		}
		b := busy(m, d, fail)
		defer b.Close()
		vk.Parallel(3, func(k int) {
			if k > 0 {
				x, err := net.DialTimeout("tcp", m.ReplicaAddr(), vk.ReplyTimeout)
				if err != nil {
					fail("a replica cannot connect: %v", err)
				}
				defer x.Close()
				_ = x.SetReadDeadline(time.Now().Add(vk.ReplyTimeout + 2*d))
				if n, err := io.Copy(io.Discard, x); err != nil || n < busySize {
					fail("a replica gets %d bytes, %v", n, err)
				}
				return
			}
			rp := vk.NewSrv(r, vk.SrvOpt{})
			defer rp.Kill()
			rep := map[string]any{"kind": "master executes a long command", "takes": d.String()}
			rc := c13Replica(r, m, rp, m.ReplicaAddr(), rep)
			defer rc.Close()
			if v, err := rc.Do("GET", "acknowledged"); err != nil || v.S != "1" {
				c13Fail(r, m, rp, rep, "a write acknowledged before a long command is missing: %s %v", v, err)
			}
			if v, err := rc.Do("SCARD", "much"); err != nil || v.I != busySize {
				c13Fail(r, m, rp, rep, "a set of %d members is %s %v", busySize, v, err)
			}
		})
		r.Case(fmt.Sprint("busy", d))
	})
}

// c26Busy has clients that leave while their requests wait for a long command.
func c26Busy(r *vk.Run) func() {
	return inBackground(r, []int{4}, []int{4, 12, 25}, func(j int, d time.Duration) {
		s := vk.NewSrv(r, vk.SrvOpt{})
		defer s.Kill()
		fail := busyFail(r, s, d)
		if err := s.Start(vk.Cfg{}, ""); err != nil {
			r.Infra("%v", err)
		}
		c26Wave(r, s, "polite", 3, 8, -3)
		base := c26Settle(r, s, vk.Stats{}, "warming up")
		b := busy(s, d, fail)
		n := 400
		vk.Parallel(n, func(k int) {
			rng := r.Rng("busy", j, k)
			c, err := vk.Dial(s.Addr())
			if err != nil {
				fail("cannot connect: %v", err)
			}
			for i := 0; i < 1+rng.Intn(30); i++ {
				_ = c.Raw(vk.Cmd("GET", "acknowledged"))
			}
			time.Sleep(time.Duration(rng.Int63n(int64(d / 2))))
			if rng.Intn(2) == 0 {
				c.Reset()
			} else {
				c.Close()
			}
		})
		if v, err := b.Recv(); err != nil || len(v.A) != busySize {
			fail("its reply has %d members, %v", len(v.A), err)
		}
		b.Close()
		c26Settle(r, s, base, "waiting")
		r.Count("clients_that_left_while_they_waited", int64(n))
		r.Case(fmt.Sprint("busy", d))
	})
}

// c01Many has one client that sends more requests than 16 bits can count, some at a time.
func c01Many(r *vk.Run) func() {
	return inBackground(r, []int{0}, []int{0, 1, 2, 3}, func(j int, _ time.Duration) {
		s := vk.NewSrv(r, vk.SrvOpt{})
		defer s.Kill()
		fail := func(format string, args ...any) {
			r.Violate(map[string]any{"stacks": s.Stacks()}, "many requests of one client: %s", fmt.Sprintf(format, args...))
		}
		if err := s.Start(vk.Cfg{}, ""); err != nil {
			r.Infra("%v", err)
		}
		c, err := vk.Dial(s.Addr())
		if err != nil {
			fail("cannot connect: %v", err)
		}
		defer c.Close()
		if v, err := c.Do("SET", "n", "0"); err != nil || v.S != "OK" {
			fail("SET tells %s %v", v, err)
		}
		total := int64(r.N(140000, 1200000))
		batch := int64(200)
		text := ""
		for i := int64(0); i < batch; i++ {
			text += vk.Cmd("INCR", "n")
		}
		for n := int64(0); n < total; {
			if err := c.Raw(text); err != nil {
				fail("cannot send after %d: %v", n, err)
			}
			for i := int64(0); i < batch; i++ {
				n++
				if v, err := c.Recv(); err != nil || v.T != ':' || v.I != n {
					fail("reply %d is %s %v", n, v, err)
				}
			}
		}
		r.Max("most_requests_of_a_client", total)
		r.Case(fmt.Sprint("many", j))
	})
}
