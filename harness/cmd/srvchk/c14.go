package main

import (
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/vk"
)

func init() { checks["C14"] = c14 }

func c14() {
	r := vk.Begin("C14", "exploration", "shutdowns in all combinations of configuration (file, replication, unreachable master), client conditions (none, idle, in the middle of a request, pipelining writers, "+
		"not reading, coming and going, transferring a snapshot) and kinds of stop (one or many calls, repeated, SIGTERM, SIGINT, SIGABRT, both at once, right after the start, SIGTERM before it serves). Monitored: the serve call returns, "+
		"the file as it is at that moment holds every acknowledged write, ports are free, connections are closed, later stops return and a server starts on the same ports. "+
		"A shutdown is non-trivial if a client was connected; distinct by combination and timing.")
	total := int64(r.N(1000, 20000))
	var next int64
	var real sync.WaitGroup
	real.Add(1)
	go func() {
		defer real.Done()
		c14Real(r)
	}()
	wait := inBackground(r, []int{3, 8}, []int{2, 4, 8, 15, 25, 12}, func(j int, d time.Duration) { c14Long(r, j, d) })
	vk.Parallel(workers(), func(wi int) {
		bin, level := "plain", 0
		if wi%4 != 0 {
			bin, level = "yield", 5+10*wi
		}
		s := vk.NewSrv(r, vk.SrvOpt{Bin: bin, Yield: level})
		for {
			i := atomic.AddInt64(&next, 1)
			if i > total {
				break
			}
			c14Case(r, s, i)
		}
		r.Observe(s)
		s.Kill()
	})
	real.Wait()
	wait()
	r.End()
}

// c14Long stops a server while it executes a command that takes about as long as d.
func c14Long(r *vk.Run, j int, d time.Duration) {
	s := vk.NewSrv(r, vk.SrvOpt{})
	defer s.Kill()
	fail := func(format string, args ...any) {
		rep := map[string]any{"command_takes": d.String()}
		if s.Alive() {
			rep["stacks"] = s.Stacks()
		} else {
			rep["crash"] = s.CrashReason()
		}
		r.Violate(rep, "stopped while a command takes about %s: %s", d, fmt.Sprintf(format, args...))
	}
	save := filepath.Join(s.Dir, "save")
	cfg := vk.Cfg{DatabaseFile: filepath.Join(s.Dir, "db"), EnableReplica: j%2 == 0}
	if err := s.Start(cfg, save); err != nil {
		fail("does not start: %v", err)
	}
	cfg = s.Cfg
	c := busy(s, d, fail)
	t := time.Now()
	var err error
	if j%2 == 0 {
		err = s.Stop(2)
	} else {
		err = s.Signal(syscall.SIGTERM)
	}
	if err != nil {
		fail("%v", err)
	}
	r.Max("longest_shutdown_during_a_command_ms", time.Since(t).Milliseconds())
	_ = c.C.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
	if _, err := io.Copy(io.Discard, c.C); err != nil && vk.IsTimeout(err) {
		fail("the connection is open %s after the shutdown", vk.ReplyTimeout)
	}
	c.Close()
	again := cfg
	again.DatabaseFile = save
	if err := s.Start(again, ""); err != nil {
		fail("a new server does not start on the same ports: %v", err)
	}
	if c, err = vk.Dial(s.Addr()); err != nil {
		fail("cannot connect to the new server: %v", err)
	}
	defer c.Close()
	if v, err := c.Do("GET", "acknowledged"); err != nil || v.S != "1" {
		fail("an acknowledged write is not in the file when the serve call returned: %s %v", v, err)
	}
	if v, err := c.Do("SCARD", "much"); err != nil || v.I != busySize {
		fail("the set has %s elements, %v", v, err)
	}
	if err := s.Stop(1); err != nil {
		fail("%v", err)
	}
	r.Case(fmt.Sprint("during a command of ", d))
}

func c14Case(r *vk.Run, s *vk.Srv, i int64) {
	rng := r.Rng("case", i)
	file := filepath.Join(s.Dir, fmt.Sprintf("db%d", i))
	save := filepath.Join(s.Dir, fmt.Sprintf("save%d", i))
	defer os.Remove(file)
	defer os.Remove(save)
	cfg := vk.Cfg{EnableReplica: rng.Intn(2) == 0}
	if rng.Intn(4) > 0 {
		cfg.DatabaseFile = file
	}
	if rng.Intn(6) == 0 {
		cfg.MasterAddress = "127.0.0.1:1"
	}
	how := rng.Intn(9)
	conds := rng.Intn(256)
	if rng.Intn(8) == 0 {
		conds = 0
	}
	rep := map[string]any{"config": fmt.Sprintf("%+v", cfg), "how": how, "conditions": conds}
	fail := func(format string, args ...any) {
		if s.Alive() {
			rep["stacks"] = s.Stacks()
		} else {
			rep["crash"] = s.CrashReason()
		}
		r.Violate(rep, "case %d, %+v, conditions %08b, kind %d: %s", i, cfg, conds, how, fmt.Sprintf(format, args...))
	}
	stall := rng.Intn(4)
	if stall == 1 { // from the start on
		s.Stall(rng.Int63())
	}
	defer s.Stall(0)
	if how == 8 { // a signal between the initialization and the serve call
		s.StartSignal = int(syscall.SIGTERM)
	}
	err := s.Start(cfg, save)
	s.StartSignal = 0
	if err != nil {
		fail("does not start: %v", err)
	}
	cfg = s.Cfg
	var conns []net.Conn
	var names []string
	hold := func(name string) *vk.Client {
		c, err := vk.Dial(s.Addr())
		if err != nil {
			fail("cannot connect: %v", err)
		}
		conns = append(conns, c.C)
		names = append(names, name)
		return c
	}
	var ps []*pclient
	var wg sync.WaitGroup
	stopChurn := make(chan struct{})
	var lateMu sync.Mutex
	var late []net.Conn
	quick := how >= 7
	if !quick {
		if conds&1 != 0 { // idle
			c := hold("idle")
			if _, err := c.Do("SET", "idle", "1"); err != nil {
				fail("no reply: %v", err)
			}
			hold("idle and silent")
		}
		if conds&2 != 0 { // in the middle of a request
			c := hold("in the middle of a request")
			_ = c.Raw("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$100\r\nabc")
		}
		if conds&4 != 0 { // not reading its replies
			c := hold("not reading")
			if _, err := c.Do("SET", "big", strings.Repeat("b", 1<<19)); err != nil {
				fail("no reply: %v", err)
			}
			c.Timeout = 200 * time.Millisecond
			_ = c.Raw(strings.Repeat(vk.Cmd("GET", "big"), 60))
		}
		if conds&8 != 0 && cfg.EnableReplica { // snapshot transfer
			if cfg.DatabaseFile != "" {
				c, err := vk.Dial(s.Addr())
				if err != nil {
					fail("cannot connect: %v", err)
				}
				for j := 0; j < 8; j++ {
					if _, err := c.Do("SET", fmt.Sprint("snap", j), strings.Repeat("s", 1<<20)); err != nil {
						fail("no reply: %v", err)
					}
				}
				c.Close()
			}
			for j := 0; j < 2; j++ {
				c, err := net.DialTimeout("tcp", s.ReplicaAddr(), 20*time.Second)
				if err == nil {
					conns = append(conns, c)
					names = append(names, "replica")
				}
			}
		}
		if conds&(16|32) != 0 { // writers in the middle of traffic
			for k := 0; k < 1+rng.Intn(4); k++ {
				p := &pclient{g: newGen(r.Rng("client", i, k), fmt.Sprintf("%d:", k)), db: vk.NewDB()}
				ps = append(ps, p)
				wg.Add(1)
				go func() {
					defer wg.Done()
					p.run(r, s, s.Addr(), 1<<30, true)
				}()
			}
		}
		if conds&64 != 0 { // coming and going
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stopChurn:
						return
					default:
					}
					c, err := net.DialTimeout("tcp", s.Addr(), time.Second)
					if err != nil {
						time.Sleep(time.Millisecond)
						continue
					}
					_, _ = io.WriteString(c, vk.Cmd("GET", "x"))
					_ = c.Close()
				}
			}()
		}
		if conds&128 != 0 { // coming at the time of the shutdown and staying
			for k := 0; k < 2; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					var mine []net.Conn
					for len(mine) < 400 {
						select {
						case <-stopChurn:
						default:
							c, err := net.DialTimeout("tcp", s.Addr(), time.Second)
							if err == nil {
								mine = append(mine, c)
								continue
							}
						}
						break
					}
					lateMu.Lock()
					late = append(late, mine...)
					lateMu.Unlock()
				}()
			}
		}
		if rng.Intn(3) == 0 { // more requests than the parts of the server hold for each other
			c := hold("pipelining")
			go func() { _, _ = io.Copy(io.Discard, c.C) }()
			c.Timeout = vk.ReplyTimeout
			go func() { _ = c.Raw(strings.Repeat(vk.Cmd("GET", "nothing"), 30000)) }()
		}
		time.Sleep(time.Duration(rng.Intn(8000)) * time.Microsecond)
		if heavy := rng.Intn(10) == 0 && s.Plain(); heavy { // replies that take long to write
			c := hold("asking for much")
			x := []string{"RPUSH", "much"}
			for len(x) < 30002 {
				x = append(x, "element")
			}
			for j := 0; j < 4; j++ {
				if _, err := c.Do(x...); err != nil {
					fail("no reply: %v", err)
				}
			}
			c.Timeout = 200 * time.Millisecond
			_ = c.Raw(strings.Repeat(vk.Cmd("LRANGE", "much", "0", "-1"), 1+rng.Intn(6)))
			go func() { _, _ = io.Copy(io.Discard, c.C) }()
			time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
			r.Count("shutdowns_during_long_replies", 1)
		}
	}

	if stall > 1 { // from the stop on
		s.Stall(rng.Int63())
	}
	t0 := time.Now()
	switch how {
	case 0, 7:
		err = s.Stop(1)
	case 1:
		err = s.Stop(8)
	case 2:
		err = s.Signal(syscall.SIGTERM)
	case 3:
		err = s.Signal(syscall.SIGABRT)
	case 4:
		err = s.Signal(syscall.SIGINT)
	case 5: // a signal and calls at once
		errs := make(chan error, 1)
		go func() { errs <- s.Stop(3) }()
		err = s.Signal(syscall.SIGTERM)
		if e := <-errs; err == nil {
			err = e
		}
	case 8:
		err = s.Served()
	default: // calls one after the other
		for j := 0; j < 3 && err == nil; j++ {
			err = s.Stop(1)
		}
	}
	if err != nil {
		fail("%v", err)
	}
	r.Max("longest_shutdown_ms", time.Since(t0).Milliseconds())
	close(stopChurn)
	wg.Wait()

	// ports are free
	for name, port := range map[string]int{"client": cfg.Port, "replication": cfg.ReplicaPort} {
		if port == 0 || name == "replication" && !cfg.EnableReplica {
			continue
		}
		if err := vk.TryListen(port); err != nil {
			if s.Listens(port) {
				fail("the %s port is not free after the serve call returned: %v", name, err)
			}
			r.Count("ports_taken_by_another_process", 1)
		}
	}
	// connections are closed
	for _, c := range late {
		conns = append(conns, c)
		names = append(names, "connecting at the shutdown")
	}
	for j, c := range conns {
		_ = c.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
		if _, err := io.Copy(io.Discard, c); err != nil && vk.IsTimeout(err) {
			fail("the connection of a client that was %s is open %s after the shutdown", names[j], vk.ReplyTimeout)
		}
		_ = c.Close()
		r.Count("connections_seen_closed", 1)
	}
	// later stops
	if err := s.Stop(1 + rng.Intn(3)); err != nil {
		fail("a stop call after the shutdown: %v", err)
	}
	// again on the same ports, with the file as it was when the serve call returned
	again := cfg
	if cfg.DatabaseFile != "" {
		again.DatabaseFile = save
	}
	again.MasterAddress = ""
	if err := s.Start(again, ""); err != nil {
		fail("a new server does not start on the same ports: %v", err)
	}
	c, err := vk.Dial(s.Addr())
	if err != nil {
		fail("cannot connect to the new server: %v", err)
	}
	if cfg.DatabaseFile != "" {
		for k, p := range ps {
			if msg, err := p.settle(c); err != nil || msg != "" {
				rep["commands"] = quoteCmds(p.all[max(0, len(p.all)-60):])
				fail("data of client %d in the file when the serve call returned: %s %v", k, msg, err)
			}
			r.Count("clients_with_acknowledged_writes_compared", 1)
		}
		if !quick && conds&1 != 0 {
			if v, err := c.Do("GET", "idle"); err != nil || v.S != "1" {
				fail("an acknowledged write is not in the file when the serve call returned: %s %v", v, err)
			}
		}
	}
	if v, err := c.Do("SET", "x", "y"); err != nil || v.S != "OK" {
		fail("the new server does not work: %s %v", v, err)
	}
	if again.EnableReplica {
		x, err := net.DialTimeout("tcp", s.ReplicaAddr(), 20*time.Second)
		for j := 0; err != nil && j < 100; j++ {
			time.Sleep(20 * time.Millisecond)
			x, err = net.DialTimeout("tcp", s.ReplicaAddr(), 20*time.Second)
		}
		if err != nil {
			fail("the replication port of the new server: %v", err)
		}
		_ = x.Close()
	}
	if err := s.Stop(1); err != nil {
		fail("%v", err)
	}
	c.Close()
	r.Count("shutdowns", 2)
	sig := ""
	if len(conns)+len(ps) > 0 {
		sig = fmt.Sprint(i, rep["config"], how, conds)
	}
	r.Case(sig)
	if r.WantSample() {
		r.Sample(map[string]any{"config": rep["config"], "how": how, "conditions": fmt.Sprintf("%08b", conds), "clients": names[:min(len(names), 12)], "writers": len(ps), "took_ms": time.Since(t0).Milliseconds()})
	}
}

// c14Real stops the shipped binary in the middle of traffic.
func c14Real(r *vk.Run) {
	dir := r.Scratch()
	rng := r.Rng("real")
	var ps []*pclient
	for k := 0; k < 3; k++ {
		ps = append(ps, &pclient{g: newGen(r.Rng("realclient", k), fmt.Sprintf("%d:", k)), db: vk.NewDB()})
	}
	// only to know if the process lives
	for cyc := 0; cyc <= r.N(3, 20); cyc++ {
		p := startReal(r, dir)
		fail := func(format string, args ...any) {
			r.Violate(map[string]any{"output": p.output(), "cycle": cyc}, "server binary: %s", fmt.Sprintf(format, args...))
		}
		c, err := vk.Dial("127.0.0.1:6789")
		if err != nil {
			fail("cannot connect: %v", err)
		}
		for k, x := range ps {
			if msg, err := x.settle(c); err != nil || msg != "" {
				fail("data of client %d after %d restarts in traffic: %s %v", k, cyc, msg, err)
			}
		}
		s := &vk.Srv{Exited: make(chan struct{})}
		var wg sync.WaitGroup
		for _, x := range ps {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.run(r, s, "127.0.0.1:6789", 1<<30, true)
			}()
		}
		idle, err := vk.Dial("127.0.0.1:6789")
		if err != nil {
			fail("cannot connect: %v", err)
		}
		_ = idle.Raw("*1\r\n$10\r\nab")
		time.Sleep(time.Duration(rng.Intn(40)) * time.Millisecond)
		_ = p.cmd.Process.Signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGABRT}[cyc%3])
		select {
		case <-p.done:
		case <-time.After(vk.OpTimeout):
			fail("still runs %s after the signal", vk.OpTimeout)
		}
		if code := p.cmd.ProcessState.ExitCode(); code != 0 {
			fail("exit status %d after a termination signal", code)
		}
		wg.Wait()
		for _, x := range []*vk.Client{c, idle} {
			_ = x.C.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
			if _, err := io.Copy(io.Discard, x.C); err != nil && vk.IsTimeout(err) {
				fail("a connection is open after the exit")
			}
			x.Close()
		}
		r.Count("shutdowns_of_the_real_binary", 1)
		r.Case(fmt.Sprint("real", cyc, len(ps[0].all)))
	}
}
