package main

import (
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"verif/vk"
)

func init() { checks["C26"] = c26 }

func c26() {
	r := vk.Begin("C26", "exploration", "waves of clients of one kind or of all (polite, resetting, sending garbage, stopping within a request, never reading, half-closing, pipelining, silent; replicas that "+
		"finish, abort or never read) against one server; after each wave its goroutines, descriptors and, over all waves, live heap are compared with those before. A wave is non-trivial if it had at least ten clients; distinct by kind and wave.")
	kinds := []string{"polite", "reset", "garbage", "in a request", "not reading", "half-closing", "pipelining", "silent", "replica", "aborting replica", "dead replica", "mixed"}
	waves := r.N(10, 150)
	before := tempFiles(time.Time{})
	began := time.Now().Add(-2 * time.Second)
	vk.Parallel(min(workers(), 4), func(wi int) {
		s := vk.NewSrv(r, vk.SrvOpt{})
		cfg := vk.Cfg{EnableReplica: true, DatabaseFile: filepath.Join(s.Dir, "db")}
		if wi == 1 { // without a file
			cfg.DatabaseFile = ""
		}
		if err := s.Start(cfg, ""); err != nil {
			r.Infra("%v", err)
		}
		c, err := vk.Dial(s.Addr())
		if err != nil {
			r.Infra("dial: %v", err)
		}
		size := 100000
		if wi >= 2 {
			size = 8 << 20
		}
		if _, err := c.Do("SET", "big", strings.Repeat("b", size)); err != nil {
			r.Violate(map[string]any{"crash": s.CrashReason()}, "no reply: %v", err)
		}
		if _, err := c.Do("SET", "medium", strings.Repeat("m", 100000)); err != nil {
			r.Violate(map[string]any{"crash": s.CrashReason()}, "no reply: %v", err)
		}
		c.Close()
		// so that whatever is created once exists
		for _, k := range kinds {
			c26Wave(r, s, k, 3, wi, -1)
		}
		base := c26Settle(r, s, vk.Stats{}, "warming up")
		baseHeap := base.Heap
		clients := 0
		for w := 0; w < waves; w++ {
			for ki, k := range kinds {
				if (ki+w+wi)%2 == 1 && k != "mixed" && r.Tier == "quick" {
					continue
				}
				n := 60
				if k == "replica" || k == "aborting replica" || k == "dead replica" {
					n = 20
				}
				c26Wave(r, s, k, n, wi, w)
				clients += n
				st := c26Settle(r, s, base, k)
				r.Count("waves", 1)
				r.Count("clients", int64(n))
				r.Case(fmt.Sprint(wi, w, k))
				if w == 0 && wi == 0 {
					r.Sample(map[string]any{"kind": k, "clients": n, "goroutines_before": base.Goroutines, "after": st.Goroutines, "descriptors_before": base.FDs, "descriptors_after": st.FDs, "heap_after": st.Heap, "heap_before": baseHeap})
				}
			}
		}
		// what a client leaves behind is more than this if any part of its connection is kept
		limit := int64(300*clients) + 300000
		var st vk.Stats
		for j := 0; j < 40; j++ {
			if st, err = s.Stats(); err != nil {
				r.Violate(map[string]any{"crash": s.CrashReason()}, "%v", err)
			}
			if st.Heap < baseHeap+limit {
				break
			}
			time.Sleep(250 * time.Millisecond)
		}
		r.Max("largest_heap_growth_per_client_bytes", max(0, (st.Heap-baseHeap)/int64(clients)))
		if st.Heap >= baseHeap+limit {
			r.Violate(map[string]any{"clients": clients, "before": baseHeap, "after": st.Heap}, "after %d clients have left the live heap has grown from %d to %d bytes", clients, baseHeap, st.Heap)
		}
		// many short transfers, for what each of them leaves behind
		if wi <= 1 {
			transfers := r.N(2500, 20000)
			var heaps [2]int64
			for j := 0; j < 2; j++ {
				c26Wave(r, s, "replica", transfers, wi, 1000+j)
				heaps[j] = c26Settle(r, s, base, "replica").Heap
				for k := 0; k < 20; k++ { // the least of several looks
					time.Sleep(50 * time.Millisecond)
					if st, err := s.Stats(); err == nil && st.Heap < heaps[j] {
						heaps[j] = st.Heap
					}
				}
			}
			r.Count("short_transfers", int64(2*transfers))
			r.Max("largest_heap_growth_per_transfer_bytes", max(0, (heaps[1]-heaps[0])/int64(transfers)))
			if d := heaps[1] - heaps[0]; d > int64(transfers)*200 {
				r.Violate(map[string]any{"transfers": transfers, "before": heaps[0], "after": heaps[1]}, "%d finished transfers leave %d bytes of live heap behind", transfers, d)
			}
		}
		if err := s.Stop(1); err != nil {
			r.Violate(map[string]any{"stacks": s.Stacks()}, "stop: %v", err)
		}
		s.Kill()
	})
	wait := c26Busy(r)
	c26Replicas(r)
	c26Descriptors(r)
	c26Many(r)
	wait()
	var left int
	for j := 0; j < 100; j++ {
		if left = tempFiles(began); left == 0 || tempFiles(time.Time{}) <= before {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if left > 0 && tempFiles(time.Time{}) > before {
		r.Violate(map[string]any{"before": before, "after": tempFiles(time.Time{})}, "%d temporary files of transfers are left in /tmp/vertex", left)
	}
	r.End()
}

// c26Replicas looks at the other end of finished transfers. They are small, so that no garbage collection closes a forgotten connection.
func c26Replicas(r *vk.Run) {
	m := vk.NewSrv(r, vk.SrvOpt{})
	defer m.Kill()
	if err := m.Start(vk.Cfg{EnableReplica: true, DatabaseFile: filepath.Join(m.Dir, "db")}, ""); err != nil {
		r.Infra("%v", err)
	}
	c, err := vk.Dial(m.Addr())
	if err != nil {
		r.Infra("dial: %v", err)
	}
	defer c.Close()
	if _, err := c.Do("SET", "a", "1"); err != nil {
		r.Violate(map[string]any{"crash": m.CrashReason()}, "no reply: %v", err)
	}
	rp := vk.NewSrv(r, vk.SrvOpt{})
	defer rp.Kill()
	for j := 0; j < r.N(10, 200); j++ {
		addr, res, err := lingering(m.ReplicaAddr())
		if err != nil {
			r.Infra("%v", err)
		}
		if err := rp.Start(vk.Cfg{DatabaseFile: filepath.Join(rp.Dir, fmt.Sprint("replica", j)), MasterAddress: addr}, ""); err != nil {
			r.Violate(map[string]any{"crash": rp.CrashReason()}, "a replica does not start: %v", err)
		}
		if err := <-res; err != nil {
			r.Violate(map[string]any{"stacks": rp.Stacks()}, "30 s after its sync a replica still holds the connection to its master")
		}
		if err := rp.Stop(1); err != nil {
			r.Violate(map[string]any{"stacks": rp.Stacks()}, "stop: %v", err)
		}
		r.Count("replicas_that_closed_their_connection", 1)
	}
}

// c26Many lets one server see more clients than a 16 bit number can count.
func c26Many(r *vk.Run) {
	s := vk.NewSrv(r, vk.SrvOpt{})
	defer s.Kill()
	if err := s.Start(vk.Cfg{EnableReplica: true, DatabaseFile: filepath.Join(s.Dir, "db")}, ""); err != nil {
		r.Infra("%v", err)
	}
	canary, err := vk.Dial(s.Addr())
	if err != nil {
		r.Infra("dial: %v", err)
	}
	defer canary.Close()
	fail := func(n int64, what string, err error) {
		r.Violate(map[string]any{"clients": n, "stacks": s.Stacks(), "crash": s.CrashReason()}, "after %d clients: %s: %v", n, what, err)
	}
	if v, err := canary.Do("SET", "canary", "1"); err != nil || v.S != "OK" {
		fail(0, "a connected client gets "+v.String(), err)
	}
	c26Wave(r, s, "polite", 3, 9, -2)
	base := c26Settle(r, s, vk.Stats{}, "warming up")
	var next int64
	total := int64(r.N(70000, 300000))
	vk.Parallel(8, func(w int) {
		for {
			n := atomic.AddInt64(&next, 1)
			if n > total {
				return
			}
			c, err := vk.Dial(s.Addr())
			if err != nil {
				fail(n, "cannot connect", err)
			}
			if n%3 == 0 {
				if v, err := c.Do("GET", "canary"); err != nil || v.S != "1" {
					fail(n, "a new client gets "+v.String(), err)
				}
			}
			c.Reset()
		}
	})
	if v, err := canary.Do("GET", "canary"); err != nil || v.S != "1" {
		fail(total, "the first client gets "+v.String(), err)
	}
	c26Settle(r, s, base, "many")
	c, err := vk.Dial(s.Addr())
	if err != nil {
		fail(total, "cannot connect", err)
	}
	if v, err := c.Do("GET", "canary"); err != nil || v.S != "1" {
		fail(total, "a new client gets "+v.String(), err)
	}
	c.Close()
	r.Count("clients_of_one_server", total)
	if err := s.Stop(1); err != nil {
		fail(total, "stop", err)
	}
}

// c26Descriptors lets more clients and replicas come than the server has descriptors for.
func c26Descriptors(r *vk.Run) {
	vk.Parallel(2, func(wi int) {
		rng := r.Rng("descriptors", wi)
		limit := 60 + 60*wi
		s := vk.NewSrv(r, vk.SrvOpt{Env: []string{fmt.Sprintf("VERIF_NOFILE=%d", limit)}})
		if err := s.Start(vk.Cfg{EnableReplica: true, DatabaseFile: filepath.Join(s.Dir, "db")}, ""); err != nil {
			r.Infra("%v", err)
		}
		defer s.Kill()
		canary, err := vk.Dial(s.Addr())
		if err != nil {
			r.Infra("dial: %v", err)
		}
		value := ""
		step := func(where string) {
			value += "x"
			if v, err := canary.Do("SET", "canary", value); err != nil || v.S != "OK" {
				r.Violate(map[string]any{"stacks": s.Stacks(), "crash": s.CrashReason()}, "%d descriptors, %s: a connected client gets no reply: %v %v", limit, where, v, err)
			}
			if v, err := canary.Do("GET", "canary"); err != nil || v.S != value {
				r.Violate(map[string]any{"stacks": s.Stacks(), "crash": s.CrashReason()}, "%d descriptors, %s: a connected client gets %v %v instead of its value", limit, where, v, err)
			}
		}
		step("at first")
		c26Wave(r, s, "polite", 3, wi, -1)
		c26Wave(r, s, "replica", 3, wi, -1)
		base := c26Settle(r, s, vk.Stats{}, "warming up")
		for w := 0; w < r.N(6, 60); w++ {
			var held []net.Conn
			served := 0
			for len(held) < 2*limit {
				addr := s.Addr()
				if rng.Intn(8) == 0 {
					addr = s.ReplicaAddr()
				}
				c, err := net.DialTimeout("tcp", addr, 20*time.Second)
				if err != nil {
					break // the backlog is full
				}
				held = append(held, c)
				if rng.Intn(3) == 0 {
					_, _ = io.WriteString(c, vk.Cmd("GET", "canary"))
				}
			}
			for j := 0; j < 5; j++ {
				step("while no descriptor is free")
			}
			for _, c := range held {
				_ = c.SetReadDeadline(time.Now().Add(time.Millisecond))
				if n, _ := c.Read(make([]byte, 1)); n > 0 {
					served++
				}
				if rng.Intn(2) == 0 {
					_ = c.(*net.TCPConn).SetLinger(0)
				}
				_ = c.Close()
			}
			r.Count("clients_beyond_the_descriptors", int64(len(held)))
			r.Count("of_which_answered", int64(served))
			step("after they have left")
			c26Settle(r, s, base, "excess")
			c, err := vk.Dial(s.Addr())
			if err != nil {
				r.Violate(map[string]any{"stacks": s.Stacks()}, "%d descriptors, after the clients have left: cannot connect: %v", limit, err)
			}
			if v, err := c.Do("GET", "canary"); err != nil || v.S != value {
				r.Violate(map[string]any{"stacks": s.Stacks(), "crash": s.CrashReason()}, "%d descriptors, after the clients have left: a new client gets %v %v", limit, v, err)
			}
			c.Close()
			if rc, err := net.DialTimeout("tcp", s.ReplicaAddr(), 20*time.Second); err != nil {
				r.Violate(map[string]any{"stacks": s.Stacks()}, "%d descriptors, after the clients have left: no replica can connect: %v", limit, err)
			} else {
				_ = rc.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
				b, err := io.ReadAll(rc)
				_ = rc.Close()
				if err != nil || !strings.Contains(string(b), value) {
					r.Violate(map[string]any{"stacks": s.Stacks()}, "%d descriptors, after the clients have left: a replica gets %d bytes, %v", limit, len(b), err)
				}
			}
			r.Case(fmt.Sprint("descriptors", wi, w))
		}
		canary.Close()
		if err := s.Stop(1); err != nil {
			r.Violate(map[string]any{"stacks": s.Stacks()}, "stop: %v", err)
		}
	})
}

// c26Settle waits until the numbers are back at the baseline.
func c26Settle(r *vk.Run, s *vk.Srv, base vk.Stats, kind string) vk.Stats {
	var st vk.Stats
	var err error
	var last vk.Stats
	same := 0
	deadline := time.Now().Add(40 * time.Second)
	for {
		if st, err = s.Stats(); err != nil {
			r.Violate(map[string]any{"crash": s.CrashReason()}, "after %s clients: %v", kind, err)
		}
		if base.Goroutines > 0 && st.Goroutines <= base.Goroutines && st.FDs <= base.FDs {
			return st
		}
		if base.Goroutines == 0 { // the baseline itself: nothing moves for a while
			if st.Goroutines == last.Goroutines && st.FDs == last.FDs {
				same++
			} else {
				same = 0
			}
			if same >= 15 {
				return st
			}
			last = st
		}
		if time.Now().After(deadline) {
			if base.Goroutines == 0 {
				return st
			}
			r.Violate(map[string]any{"kind": kind, "before": base, "after": st, "stacks": s.Stacks()}, "40 s after all %s clients have left: %d goroutines and %d descriptors, before %d and %d",
				kind, st.Goroutines, st.FDs, base.Goroutines, base.FDs)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func c26Wave(r *vk.Run, s *vk.Srv, kind string, n, wi, wave int) {
	var next int64
	vk.Parallel(min(n, 20), func(w int) {
		rng := r.Rng("wave", wi, wave, kind, w)
		for atomic.AddInt64(&next, 1) <= int64(n) {
			k := kind
			if k == "mixed" {
				k = []string{"polite", "reset", "garbage", "in a request", "not reading", "half-closing", "pipelining", "silent"}[rng.Intn(8)]
			}
			addr := s.Addr()
			if strings.Contains(k, "replica") {
				addr = s.ReplicaAddr()
			}
			c, err := vk.Dial(addr)
			if err != nil {
				r.Violate(map[string]any{"stacks": s.Stacks()}, "cannot connect: %v", err)
			}
			c.Timeout = 20 * time.Second
			fail := func(err error) {
				r.Violate(map[string]any{"stacks": s.Stacks(), "crash": s.CrashReason()}, "%s client: %v", k, err)
			}
			switch k {
			case "polite":
				for j := 0; j < 3; j++ {
					if _, err := c.Do("GET", "medium"); err != nil {
						fail(err)
					}
				}
				c.Close()
			case "reset":
				_ = c.Raw(strings.Repeat(vk.Cmd("GET", "medium"), 1+rng.Intn(10)))
				c.Reset()
			case "garbage":
				_ = c.Raw(notRESP[rng.Intn(len(notRESP))])
				if rng.Intn(2) == 0 {
					c.Reset()
				} else {
					_ = c.C.SetReadDeadline(time.Now().Add(time.Second))
					_, _ = io.Copy(io.Discard, c.C)
					c.Close()
				}
			case "in a request":
				_ = c.Raw("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$100\r\nabc"[:rng.Intn(29)])
				if rng.Intn(2) == 0 {
					c.Reset()
				} else {
					c.Close()
				}
			case "not reading":
				c.Timeout = 300 * time.Millisecond
				_ = c.Raw(strings.Repeat(vk.Cmd("GET", "medium"), 80))
				time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
				if rng.Intn(2) == 0 {
					c.Reset()
				} else {
					c.Close()
				}
			case "half-closing":
				_ = c.Raw(vk.Cmd("GET", "medium"))
				_ = c.C.(*net.TCPConn).CloseWrite()
				_ = c.C.SetReadDeadline(time.Now().Add(time.Second))
				_, _ = io.Copy(io.Discard, c.C)
				c.Close()
			case "pipelining":
				var cmds [][]string
				for j := 0; j < 50; j++ {
					cmds = append(cmds, []string{"SET", "p", fmt.Sprint(j)})
				}
				if _, err := c.Pipe(cmds); err != nil {
					fail(err)
				}
				c.Close()
			case "silent":
				time.Sleep(time.Duration(rng.Intn(10)) * time.Millisecond)
				c.Close()
			case "replica":
				_ = c.C.SetReadDeadline(time.Now().Add(30 * time.Second))
				if _, err := io.Copy(io.Discard, c.C); err != nil && vk.IsTimeout(err) {
					fail(fmt.Errorf("the transfer does not end: %w", err))
				}
				c.Close()
			case "aborting replica":
				_, _ = io.ReadFull(c.C, make([]byte, rng.Intn(3000)))
				c.Reset()
			case "dead replica": // reads nothing for a while and goes
				time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
				c.Close()
			}
		}
	})
}

// tempFiles counts the files in the directory of the snapshots that were written since.
func tempFiles(since time.Time) int {
	n := 0
	es, _ := os.ReadDir("/tmp/vertex")
	for _, e := range es {
		if fi, err := e.Info(); err == nil && fi.ModTime().After(since) {
			n++
		}
	}
	return n
}
