package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/vk"
)

func init() { checks["C35"] = c35 }

func c35() {
	r := vk.Begin("C35", "exploration", "thousands of clients that ask again as soon as they are answered, some pipelining, some over and over sending commands that keep the engine busy, next to the same work done by few clients on the same server. "+
		"Monitored: the replies the others got while one client waited for one, and the requests answered per second in relation to those with few clients. A round is non-trivial if each client of the crowd was answered; distinct by its plan.")
	s := vk.NewSrv(r, vk.SrvOpt{})
	if err := s.Start(vk.Cfg{DatabaseFile: filepath.Join(s.Dir, "db")}, ""); err != nil {
		r.Infra("%v", err)
	}
	rounds := r.N(6, 120)
	for i := 0; i < rounds; i++ {
		c35Round(r, s, i)
	}
	s.Kill()
	r.End()
}

// crowd is what one crowd was answered.
type crowd struct {
	replies, rounds int64
	took            time.Duration
	longest         time.Duration
	overtaken       int64 // the most replies others got while one waited for one
	who             int
}

func c35Crowd(r *vk.Run, s *vk.Srv, rep map[string]any, n, depth int, heavy bool, limit time.Duration) crowd {
	var out crowd
	var mu sync.Mutex
	var total, least int64
	fail := func(format string, args ...any) {
		if s.Alive() {
			rep["stacks"] = vk.Clip(s.Stacks(), 200000)
		} else {
			rep["crash"] = s.CrashReason()
		}
		r.Violate(rep, "%d clients: %s", n, fmt.Sprintf(format, args...))
	}
	conns := make([]net.Conn, n)
	vk.Parallel(16, func(w int) {
		for k := w; k < n; k += 16 {
			c, err := net.DialTimeout("tcp", s.Addr(), vk.ReplyTimeout)
			if err != nil {
				fail("client %d cannot connect: %v", k, err)
			}
			conns[k] = c
		}
	})
	var big net.Conn
	stopBig := make(chan struct{})
	var bigDone sync.WaitGroup
	if heavy {
		big, _ = net.DialTimeout("tcp", s.Addr(), vk.ReplyTimeout)
		if big == nil {
			fail("cannot connect")
		}
		x := []string{"SADD", "much"}
		for len(x) < 5000 {
			x = append(x, fmt.Sprint("element", len(x)))
		}
		bigDone.Add(1)
		go func() {
			defer bigDone.Done()
			b := bufio.NewReader(big)
			req := vk.Cmd(x...)
			for {
				select {
				case <-stopBig:
					return
				default:
				}
				_ = big.SetDeadline(time.Now().Add(vk.ReplyTimeout))
				if _, err := io.WriteString(big, req); err != nil {
					return
				}
				if _, err := b.ReadString('\n'); err != nil {
					return
				}
				r.Count("long_commands", 1)
			}
		}()
	}
	t0 := time.Now()
	end := t0.Add(limit)
	var wg sync.WaitGroup
	least = 1 << 60
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			c := conns[k]
			b := bufio.NewReaderSize(c, 256)
			req := strings.Repeat(vk.Cmd("SET", fmt.Sprint("k", k), "1"), depth)
			var mine, overtaken int64
			var longest time.Duration
			// each asks at least once and then until the time is over
			for mine == 0 || time.Now().Before(end) {
				_ = c.SetDeadline(time.Now().Add(vk.ReplyTimeout))
				was, t := atomic.LoadInt64(&total), time.Now()
				if _, err := io.WriteString(c, req); err != nil {
					fail("client %d cannot send its request: %v", k, err)
				}
				for j := 0; j < depth; j++ {
					l, err := b.ReadString('\n')
					if err != nil || l != "+OK\r\n" {
						fail("client %d waited %v for reply %d and got %q, %v; meanwhile the others got %d", k, time.Since(t), mine, l, err, atomic.LoadInt64(&total)-was)
					}
					mine++
					now := atomic.AddInt64(&total, 1)
					if d := now - was; d > overtaken {
						overtaken = d
					}
					if d := time.Since(t); d > longest {
						longest = d
					}
					was, t = now, time.Now()
				}
			}
			mu.Lock()
			defer mu.Unlock()
			least = min(least, mine)
			out.longest = max(out.longest, longest)
			if overtaken > out.overtaken {
				out.overtaken, out.who = overtaken, k
			}
		}(k)
	}
	wg.Wait()
	out.took = time.Since(t0)
	out.replies, out.rounds = total, least
	close(stopBig)
	bigDone.Wait()
	if big != nil {
		_ = big.Close()
	}
	for _, c := range conns {
		_ = c.Close()
	}
	return out
}

func c35Round(r *vk.Run, s *vk.Srv, i int) {
	rng := r.Rng("round", i)
	many := []int{1000, 3000, 6000}[(i+2)%3]
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err == nil && lim.Cur < uint64(many+200) {
		many = int(lim.Cur) - 200
		r.Fact("descriptors", int64(lim.Cur))
	}
	depth := []int{1, 1, 3}[rng.Intn(3)]
	heavy := i%2 == 1
	rep := map[string]any{"clients": many, "pipelined": depth, "next_to_long_commands": heavy}
	span := 1800 * time.Millisecond
	bad := ""
	for try := 0; try < 4; try++ {
		few := c35Crowd(r, s, rep, 50, depth, heavy, span)
		all := c35Crowd(r, s, rep, many, depth, heavy, span)
		fewRate, allRate := float64(few.replies)/few.took.Seconds(), float64(all.replies)/all.took.Seconds()
		r.Count("replies", few.replies+all.replies)
		r.Max("longest_wait_ms", all.longest.Milliseconds())
		r.Max("most_replies_of_others_during_one_wait_per_client_x10", 10*all.overtaken/int64(many*depth))
		r.Max("slowdown_by_the_crowd_x100", int64(100*fewRate/allRate))
		bad = ""
		if allRate < fewRate/10 {
			bad = fmt.Sprintf("%d clients are answered %.0f requests per second, 50 clients %.0f", many, allRate, fewRate)
		} else if all.overtaken > int64(25*many*depth) {
			bad = fmt.Sprintf("client %d waited for one reply while the %d others got %d", all.who, many-1, all.overtaken)
		}
		if r.WantSample() {
			r.Sample(map[string]any{"clients": many, "pipelined": depth, "next_to_long_commands": heavy, "per_second": int(allRate), "per_second_of_50_clients": int(fewRate),
				"longest_wait_ms": all.longest.Milliseconds(), "most_replies_of_others_during_one_wait": all.overtaken})
		}
		if bad == "" {
			break
		}
		r.Count("rounds_repeated", 1) // something else may have kept the machine busy
		time.Sleep(time.Second)
	}
	if bad != "" {
		r.Violate(rep, "in each of four attempts: %s", bad)
	}
	r.Case(fmt.Sprint(i, many, depth, heavy))
}
