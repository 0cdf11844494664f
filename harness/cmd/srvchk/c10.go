package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/vk"
)

func init() { checks["C10"] = c10 }

func c10() {
	r := vk.Begin("C10", "exploration", "cycles of start, concurrent random writes of several clients on own and shared names, and shutdown by stop calls, SIGTERM or SIGINT, when quiet or in the "+
		"middle of traffic; after each restart every client's data must equal its reference model (after a shutdown in traffic: the model after some number of its commands that is at least what was acknowledged) and the shared "+
		"data what it was. Also with large containers, many names and many commands, and with the real server binary. A cycle is non-trivial if at least one write was acknowledged in it; distinct by the commands.")
	total := int64(r.N(420, 8000))
	var next int64
	var real sync.WaitGroup
	real.Add(1)
	go func() {
		defer real.Done()
		c10Real(r)
	}()
	for _, family := range []string{"string", "list", "hash", "set"} {
		real.Add(1)
		go func(family string) {
			defer real.Done()
			volume(r, family, true)
		}(family)
	}
	vk.Parallel(workers(), func(wi int) {
		bin, level := "plain", 0
		if wi%2 == 1 {
			bin, level = "yield", 5+10*wi
		}
		dir := r.Scratch()
		s := vk.NewSrv(r, vk.SrvOpt{Bin: bin, Yield: level, Dir: dir})
		for {
			i := atomic.AddInt64(&next, 1)
			if i > total {
				break
			}
			s.StallSome(r, i)
			s = c10Case(r, s, vk.SrvOpt{Bin: bin, Yield: level, Dir: dir}, i)
		}
		r.Observe(s)
		s.Kill()
	})
	real.Wait()
	r.End()
}

// a client of a persistence check with what it did
type pclient struct {
	g      *gen
	db     *vk.DB
	keys   []string
	tail   [][]string // sent after db, in order
	acked  int        // of tail
	broken bool
	all    [][]string // everything so far, for the replay
}

// run sends random commands and judges the replies. With stop it runs until the connection breaks or stop is closed,
// and keeps apart what follows the last known state.
func (p *pclient) run(r *vk.Run, s *vk.Srv, addr string, n int, traffic bool) {
	c, err := vk.Dial(addr)
	if err != nil {
		if traffic {
			return
		}
		r.Violate(map[string]any{"crash": s.CrashReason()}, "cannot connect: %v", err)
	}
	defer c.Close()
	p.tail, p.acked = nil, 0
	for k := 0; k < n; {
		m := 1
		if p.g.r.Intn(3) == 0 {
			m = 1 + p.g.r.Intn(8)
		}
		var cmds [][]string
		for j := 0; j < m; j++ {
			x := p.g.anyCmd()
			for len(x) > 1 && x[1] == "" || traffic && strings.EqualFold(x[0], "spop") {
				x = p.g.anyCmd()
			}
			cmds = append(cmds, x)
		}
		k += m
		p.all = append(p.all, cmds...)
		if !traffic {
			vs, err := c.Pipe(cmds)
			for j, v := range vs {
				if msg := p.db.Step(cmds[j], v); msg != "" {
					r.Violate(map[string]any{"commands": quoteCmds(p.all)}, "%q: %s", quoteCmd(cmds[j]), msg)
				}
			}
			if err != nil {
				r.Violate(map[string]any{"commands": quoteCmds(p.all), "crash": s.CrashReason()}, "no well-formed reply: %v", err)
			}
			continue
		}
		p.tail = append(p.tail, cmds...)
		vs, err := c.Pipe(cmds)
		for j, v := range vs {
			if strings.HasPrefix(v.S, "TTL expired") || v.T == 0 {
				err = fmt.Errorf("closed")
				break
			}
			if msg := p.db.Step(cmds[j], v); msg != "" {
				r.Violate(map[string]any{"commands": quoteCmds(p.all)}, "%q: %s", quoteCmd(cmds[j]), msg)
			}
			p.acked++
		}
		if err != nil {
			if !s.Alive() {
				r.Violate(map[string]any{"commands": quoteCmds(p.all), "crash": s.CrashReason()}, "the server process died")
			}
			if vk.IsTimeout(err) {
				r.Violate(map[string]any{"commands": quoteCmds(p.all), "stacks": s.Stacks()}, "neither a reply nor the end of the connection while the server shuts down")
			}
			p.tail = p.tail[p.acked:]
			return
		}
	}
	p.tail = p.tail[p.acked:]
}

// settle finds which prefix of the unacknowledged commands was recovered and takes it over.
func (p *pclient) settle(c *vk.Client) (string, error) {
	got, msg, err := vk.ReadDump(c, p.g.keys)
	if err != nil || msg != "" {
		return msg, err
	}
	want := got.Canon()
	d := p.db.Clone()
	first := d.Canon()
	for j := 0; ; j++ {
		if d.Canon() == want {
			p.db, p.tail = d, nil
			return "", nil
		}
		if j == len(p.tail) {
			break
		}
		apply(d, p.tail[j])
	}
	if len(p.tail) > 0 {
		return fmt.Sprintf("contents are not those after the acknowledged commands, nor after any number of the %d commands sent after them:\ngot\n%sacknowledged\n%s", len(p.tail), vk.Clip(want, 1500), vk.Clip(first, 1500)), nil
	}
	return fmt.Sprintf("contents differ from all acknowledged commands:\ngot\n%sacknowledged\n%s", vk.Clip(want, 1500), vk.Clip(first, 1500)), nil
}

// apply executes a deterministic command on the model, whatever its reply.
func apply(d *vk.DB, cmd []string) { d.Step(cmd, vk.Val{T: '?'}) }

func c10Case(r *vk.Run, s *vk.Srv, opt vk.SrvOpt, i int64) *vk.Srv {
	rng := r.Rng("case", i)
	file := filepath.Join(s.Dir, fmt.Sprintf("db-%d", i))
	defer os.Remove(file)
	cfg := vk.Cfg{DatabaseFile: file, EnableReplica: rng.Intn(3) == 0}
	n := 1 + rng.Intn(5)
	var ps []*pclient
	for k := 0; k < n; k++ {
		ps = append(ps, &pclient{g: newGen(r.Rng("client", i, k), fmt.Sprintf("%d:", k)), db: vk.NewDB()})
	}
	sharedGen := newGen(r.Rng("shared", i), "shared:")
	shared := vk.NewDB()
	empties := vk.NewDB()
	cycles := 2 + rng.Intn(3)
	var history []string
	for cyc := 0; cyc <= cycles; cyc++ {
		if cyc > 0 && rng.Intn(3) == 0 { // a new process
			s.Kill()
			s = vk.NewSrv(r, opt)
		}
		if err := s.Start(cfg, ""); err != nil {
			r.Violate(map[string]any{"crash": s.CrashReason(), "cycles": history}, "the server does not start again: %v", err)
		}
		c, err := vk.Dial(s.Addr())
		if err != nil {
			r.Violate(map[string]any{"crash": s.CrashReason(), "cycles": history}, "cannot connect after a restart: %v", err)
		}
		fail := func(what, msg string, err error, all [][]string) {
			if err != nil {
				msg = fmt.Sprintf("%s (%v) %s", msg, err, vk.Clip(s.CrashReason(), 800))
			}
			r.Violate(map[string]any{"cycles": history, "commands": quoteCmds(all)}, "after cycles %v, %s: %s", history, what, msg)
		}
		for k, p := range ps {
			if msg, err := p.settle(c); err != nil || msg != "" {
				fail(fmt.Sprintf("data of client %d", k), msg, err, p.all)
			}
		}
		if msg, err := shared.CheckDump(c, sharedGen.keys); err != nil || msg != "" {
			fail("data of several clients", msg, err, nil)
		}
		if msg, err := empties.CheckDump(c, []string{""}); err != nil || msg != "" {
			fail("the empty key", msg, err, nil)
		}
		r.Count("restarts_compared", 1)
		if cyc == cycles {
			c.Close()
			_ = s.Stop(1)
			break
		}

		per := rng.Intn(60)
		if rng.Intn(6) == 0 {
			per = 0
		}
		traffic := rng.Intn(3) == 0
		how := rng.Intn(5)
		history = append(history, fmt.Sprintf("%d clients x %d commands, traffic at shutdown: %v, how: %d", n, per, traffic, how))
		if rng.Intn(2) == 0 {
			x := [][]string{{"SET", "", sharedGen.val()}, {"APPEND", "", sharedGen.val()}, {"MSET", "", sharedGen.val()}}[rng.Intn(3)]
			v, err := c.Do(x...)
			if err != nil {
				fail(fmt.Sprint(quoteCmd(x)), "no reply", err, nil)
			}
			empties.Step(x, v)
		}
		if !traffic {
			vk.Parallel(n+2, func(k int) {
				if k < n {
					ps[k].run(r, s, s.Addr(), per, false)
					return
				}
				// writers of the same names
				g := newGen(r.Rng("writer", i, cyc, k), "")
				g.keys = sharedGen.keys
				w, err := vk.Dial(s.Addr())
				if err != nil {
					fail("connect", "failed", err, nil)
				}
				defer w.Close()
				for j := 0; j < per; j++ {
					x := g.anyCmd()
					for len(x) > 1 && x[1] == "" {
						x = g.anyCmd()
					}
					if _, err := w.Do(x...); err != nil {
						fail(fmt.Sprint(quoteCmd(x)), "no reply", err, nil)
					}
				}
			})
			var msg string
			if shared, msg, err = vk.ReadDump(c, sharedGen.keys); err != nil || msg != "" {
				fail("shared data before the shutdown", msg, err, nil)
			}
			c10Shutdown(r, s, how, history)
		} else {
			var wg sync.WaitGroup
			for k := range ps {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					ps[k].run(r, s, s.Addr(), 1<<30, true)
				}(k)
			}
			time.Sleep(time.Duration(rng.Intn(15)) * time.Millisecond)
			c10Shutdown(r, s, how, history)
			wg.Wait()
		}
		c.Close()
		sig := ""
		if per > 0 || traffic {
			sig = fmt.Sprint(i, cyc, history, ps[0].all)
		}
		r.Case(sig)
	}
	if r.WantSample() {
		var first []any
		for _, x := range ps[0].all[:min(15, len(ps[0].all))] {
			first = append(first, quoteCmd(x))
		}
		r.Sample(map[string]any{"cycles": history, "first_commands_of_client_0": first})
	}
	return s
}

func c10Shutdown(r *vk.Run, s *vk.Srv, how int, history []string) {
	var err error
	switch how {
	case 0:
		err = s.Stop(1)
	case 1:
		err = s.Stop(4)
	case 2:
		err = s.Signal(syscall.SIGTERM)
	case 3:
		err = s.Signal(syscall.SIGABRT)
	default:
		err = s.Signal(syscall.SIGINT)
	}
	if err != nil {
		r.Violate(map[string]any{"cycles": history, "stacks": s.Stacks(), "crash": s.CrashReason()}, "shutdown: %v", err)
	}
}

// c10Real does the same with the server binary as it is shipped.
func c10Real(r *vk.Run) {
	const addr = "127.0.0.1:6789"
	dir := r.Scratch()
	rng := r.Rng("real")
	g := newGen(rng, "real:")
	db := vk.NewDB()
	var all [][]string
	for cyc := 0; cyc < r.N(4, 12); cyc++ {
		p := startReal(r, dir)
		c, err := vk.Dial(addr)
		if err != nil {
			r.Violate(map[string]any{"output": p.output()}, "cannot connect to the server binary: %v", err)
		}
		if msg, err := db.CheckDump(c, g.keys); err != nil || msg != "" {
			r.Violate(map[string]any{"commands": quoteCmds(all), "output": p.output()}, "contents after %d restarts of the server binary: %s %v", cyc, msg, err)
		}
		for k := 0; k < 40; k++ {
			x := g.anyCmd()
			for len(x) > 1 && x[1] == "" {
				x = g.anyCmd()
			}
			all = append(all, x)
			v, err := c.Do(x...)
			if err != nil {
				r.Violate(map[string]any{"commands": quoteCmds(all), "output": p.output()}, "no well-formed reply to %q: %v", quoteCmd(x), err)
			}
			if msg := db.Step(x, v); msg != "" {
				r.Violate(map[string]any{"commands": quoteCmds(all)}, "%q: %s", quoteCmd(x), msg)
			}
		}
		sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[cyc%2]
		_ = p.cmd.Process.Signal(sig)
		select {
		case <-p.done:
		case <-time.After(vk.OpTimeout):
			r.Violate(map[string]any{"output": p.output()}, "the server binary still runs %s after %s", vk.OpTimeout, sig)
		}
		c.Close()
		r.Count("restarts_of_the_real_binary", 1)
		r.Case(fmt.Sprint("real", cyc, all))
	}
}

type realProc struct {
	cmd  *exec.Cmd
	done chan struct{}
	out  string
}

func (p *realProc) output() string {
	b, _ := os.ReadFile(p.out)
	if len(b) > 4000 {
		b = b[len(b)-4000:]
	}
	return string(b)
}

// startReal starts the server binary in dir and waits until it listens on its fixed ports.
func startReal(r *vk.Run, dir string) *realProc {
	deadline := time.Now().Add(2 * time.Minute)
	for try := 0; ; try++ {
		p := &realProc{cmd: exec.Command(filepath.Join(vk.BinDir(), "realserver")), done: make(chan struct{}), out: filepath.Join(dir, "output.txt")}
		p.cmd.Dir = dir
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		f, err := os.Create(p.out)
		if err != nil {
			r.Infra("%v", err)
		}
		p.cmd.Stderr = f
		if err := p.cmd.Start(); err != nil {
			r.Infra("start the server binary: %v", err)
		}
		_ = f.Close()
		vk.AtExit(func() { _ = p.cmd.Process.Kill() })
		go func() {
			_ = p.cmd.Wait()
			close(p.done)
		}()
		for {
			if strings.Contains(p.output(), "Server is listening") {
				return p
			}
			select {
			case <-p.done:
			case <-time.After(5 * time.Millisecond):
				if time.Now().Before(deadline) {
					continue
				}
			}
			break
		}
		if time.Now().After(deadline) {
			if try > 0 && strings.Contains(p.output(), "address already in use") {
				r.Infra("the ports of the server binary are taken: %s", p.output())
			}
			r.Violate(map[string]any{"output": p.output()}, "the server binary does not start to listen")
		}
		// another program may hold the port for a moment
		_ = p.cmd.Process.Kill()
		time.Sleep(time.Duration(50+rand.Intn(200)) * time.Millisecond)
	}
}
