package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/vk"
)

// What takes long: no client, replica or master that is slow, and no data that nobody asks for, is given up or forgotten.

// late starts a server for cases that wait, and returns what waits for their end.
func late(r *vk.Run, cfg vk.Cfg, fn func(s *vk.Srv, d time.Duration)) func() {
	s := vk.NewSrv(r, vk.SrvOpt{})
	if cfg.DatabaseFile != "" {
		cfg.DatabaseFile = filepath.Join(s.Dir, cfg.DatabaseFile)
	}
	if err := s.Start(cfg, ""); err != nil {
		r.Infra("%v", err)
	}
	wait := r.Patient(func(d time.Duration) { fn(s, d) })
	return func() {
		wait()
		s.Kill()
	}
}

func lateFail(r *vk.Run, s *vk.Srv, d time.Duration, format string, args ...any) {
	rep := map[string]any{"wait": d.String()}
	if s.Alive() {
		rep["stacks"] = s.Stacks()
	} else {
		rep["crash"] = s.CrashReason()
	}
	r.Violate(rep, "after %s: %s", d, fmt.Sprintf(format, args...))
}

// c01Late has clients that are idle, that send a request in parts, and that read late.
func c01Late(r *vk.Run, s *vk.Srv, d time.Duration) {
	vk.Parallel(4, func(k int) {
		prefix := fmt.Sprintf("late%d.%s:", k, d)
		c, err := vk.Dial(s.Addr())
		if err != nil {
			lateFail(r, s, d, "cannot connect: %v", err)
		}
		defer c.Close()
		g, db := newGen(r.Rng("late", d, k), prefix), vk.NewDB()
		var cmds [][]string
		for j := 0; j < 60; j++ {
			q := g.anyCmd()
			for len(q) > 1 && q[1] == "" {
				q = g.anyCmd()
			}
			cmds = append(cmds, q)
		}
		judge := func(cmds [][]string) {
			for j, q := range cmds {
				v, err := c.Recv()
				if err != nil {
					lateFail(r, s, d, "client of kind %d gets no well-formed reply %d of %d: %v", k, j, len(cmds), err)
				}
				if msg := db.Step(q, v); msg != "" {
					lateFail(r, s, d, "client of kind %d, reply %d of %d to %q: %s", k, j, len(cmds), quoteCmd(q), msg)
				}
			}
		}
		send := func(b string) {
			if err := c.Raw(b); err != nil {
				lateFail(r, s, d, "client of kind %d cannot send: %v", k, err)
			}
		}
		var b strings.Builder
		for _, q := range cmds {
			b.WriteString(vk.Cmd(q...))
		}
		all := b.String()
		switch k {
		case 0: // idle from the start and between requests
			time.Sleep(d / 2)
			send(all)
			judge(cmds)
			time.Sleep(d)
			send(vk.Cmd("GET", prefix+"x"))
			judge([][]string{{"GET", prefix + "x"}})
		case 1: // a request in two parts
			at := len(all) - 1 - r.Rng("at", d).Intn(200)
			send(all[:at])
			time.Sleep(d)
			send(all[at:])
			judge(cmds)
		case 2: // reads late
			send(all)
			time.Sleep(d)
			judge(cmds)
		case 3: // some bytes now and then, for the whole time
			n := int(d / (50 * time.Millisecond))
			for i := 0; i < n; i++ {
				send(all[len(all)*i/n : len(all)*(i+1)/n])
				time.Sleep(50 * time.Millisecond)
			}
			judge(cmds)
		}
		if msg, err := db.CheckDump(c, g.keys); err != nil || msg != "" {
			lateFail(r, s, d, "client of kind %d: %s %v", k, msg, err)
		}
		r.Case(fmt.Sprint("late", d, k))
	})
}

// c07Late leaves data alone.
func c07Late(r *vk.Run, s *vk.Srv, d time.Duration) {
	c, err := vk.Dial(s.Addr())
	if err != nil {
		lateFail(r, s, d, "cannot connect: %v", err)
	}
	defer c.Close()
	g, db := newGen(r.Rng("late", d), fmt.Sprintf("late%s:", d)), vk.NewDB()
	for j := 0; j < 200; j++ {
		q := g.anyCmd()
		for len(q) > 1 && q[1] == "" {
			q = g.anyCmd()
		}
		v, err := c.Do(q...)
		if err != nil {
			lateFail(r, s, d, "no reply: %v", err)
		}
		if msg := db.Step(q, v); msg != "" {
			lateFail(r, s, d, "%q: %s", quoteCmd(q), msg)
		}
	}
	time.Sleep(d)
	if msg, err := db.CheckDump(c, g.keys); err != nil || msg != "" {
		lateFail(r, s, d, "contents that were left alone: %s %v", msg, err)
	}
	r.Case(fmt.Sprint("late", d))
}

// c27Late has a client that resumes reading after the time.
func c27Late(r *vk.Run, s *vk.Srv, d time.Duration) {
	c, err := vk.Dial(s.Addr())
	if err != nil {
		lateFail(r, s, d, "cannot connect: %v", err)
	}
	defer c.Close()
	c.Timeout = 10 * time.Minute
	key, big := fmt.Sprintf("late%s", d), strings.Repeat("l", 20000)
	if v, err := c.Do("SET", key, big); err != nil || v.S != "OK" {
		lateFail(r, s, d, "SET: %s %v", v, err)
	}
	const n = 800
	go func() {
		for j := 0; j < n; j++ {
			if c.Raw(vk.Cmd("GET", key)+vk.Cmd("APPEND", key+"n", "x")) != nil {
				return
			}
		}
	}()
	time.Sleep(d)
	for j := 0; j < n; j++ {
		c.Timeout = vk.ReplyTimeout
		v, err := c.Recv()
		if err != nil || v.S != big {
			lateFail(r, s, d, "a stalled client that reads again gets %s, %v as reply %d of %d", vk.Clip(v.String(), 200), err, 2*j, 2*n)
		}
		if v, err = c.Recv(); err != nil || v.T != ':' || v.I != int64(j+1) {
			lateFail(r, s, d, "a stalled client that reads again gets %s, %v as reply %d of %d", vk.Clip(v.String(), 200), err, 2*j+1, 2*n)
		}
	}
	if v, err := c.Do("STRLEN", key); err != nil || v.I != int64(len(big)) {
		lateFail(r, s, d, "a stalled client after all its replies: %s %v", v, err)
	}
	_, _ = c.Do("SET", key, "")
	r.Count("replies_of_stalled_clients_judged", 2*n)
	r.Case(fmt.Sprint("late", d))
}

// c13Late has slow replicas of a large master, and a replica of a slow one.
func c13Late(r *vk.Run) func() {
	const n = 24
	big := strings.Repeat("b", 1<<20)
	var once sync.Once
	return late(r, vk.Cfg{DatabaseFile: "late", EnableReplica: true}, func(m *vk.Srv, d time.Duration) {
		once.Do(func() {
			c, err := vk.Dial(m.Addr())
			if err != nil {
				lateFail(r, m, d, "cannot connect: %v", err)
			}
			for j := 0; j < n; j++ {
				if _, err := c.Do("SET", fmt.Sprint("big", j), big); err != nil {
					lateFail(r, m, d, "no reply: %v", err)
				}
			}
			c.Close()
		})
		vk.Parallel(2, func(k int) {
			if k == 0 {
				x, err := net.Dial("tcp", m.ReplicaAddr())
				if err != nil {
					lateFail(r, m, d, "cannot connect to the master: %v", err)
				}
				defer x.Close()
				time.Sleep(d)
				_ = x.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
				b, err := io.ReadAll(bufio.NewReader(x))
				if err != nil || len(b) < n*len(big) || int(binary.LittleEndian.Uint32(b)) != len(b)-4 {
					lateFail(r, m, d, "a slow replica gets %d bytes instead of at least %d, or they do not tell the length: %v", len(b), n*len(big), err)
				}
				r.Case(fmt.Sprint("late", d))
				return
			}
			if d > 6*time.Second { // giving up on a master that is silent for longer may be reasonable
				return
			}
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				r.Infra("%v", err)
			}
			go func() {
				x, err := l.Accept()
				_ = l.Close()
				if err != nil {
					return
				}
				defer x.Close()
				y, err := net.Dial("tcp", m.ReplicaAddr())
				if err != nil {
					return
				}
				defer y.Close()
				time.Sleep(d / 2)
				_, _ = io.CopyN(x, y, 3<<20)
				time.Sleep(d)
				_, _ = io.Copy(x, y)
			}()
			rp := vk.NewSrv(r, vk.SrvOpt{})
			defer rp.Kill()
			rep := map[string]any{"kind": "slow master", "wait": d.String()}
			rc := c13Replica(r, m, rp, l.Addr().String(), rep)
			defer rc.Close()
			for j := 0; j < n; j++ {
				if v, err := rc.Do("STRLEN", fmt.Sprint("big", j)); err != nil || v.I != int64(len(big)) {
					c13Fail(r, m, rp, rep, "a master that needs %s is not copied: value %d of %d is %s %v", 3*d/2, j, n, v, err)
				}
			}
			r.Case(fmt.Sprint("slow master", d))
		})
	})
}

// c22Late has clients whose user and server take their time.
func c22Late(r *vk.Run, l *net.TCPListener) func() {
	var rests sync.Map
	for _, d := range r.Waits() { // all of them are connected before anything else connects
		cmd := exec.Command(filepath.Join(vk.BinDir(), "realclient"))
		cmd.Dir = r.Scratch()
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		cmd.Stderr = os.Stderr
		if err := cmd.Start(); err != nil {
			r.Infra("start the client: %v", err)
		}
		vk.AtExit(func() { _ = cmd.Process.Kill() })
		fail := func(format string, args ...any) {
			r.Violate(map[string]any{"wait": d.String()}, "a user and a server that take %s: %s", d, fmt.Sprintf(format, args...))
		}
		_ = l.SetDeadline(time.Now().Add(vk.ReplyTimeout))
		conn, err := l.Accept()
		if err != nil {
			fail("the client does not connect: %v", err)
		}
		rests.Store(d, func() {
			defer conn.Close()
			cr, pr := bufio.NewReader(conn), &promptReader{bufio.NewReader(out)}
			prompt := func() string {
				var s string
				var err error
				if !vk.Within(vk.ReplyTimeout, func() { s, err = pr.next() }) || err != nil {
					fail("no prompt: %v", err)
				}
				return s
			}
			ask := func(word string) {
				if _, err := io.WriteString(in, "get "+word+"\n"); err != nil {
					fail("the client does not read: %v", err)
				}
				_ = conn.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
				if v, err := vk.ReadVal(cr); err != nil || len(v.A) != 2 || v.A[1].S != word {
					fail("the client sends %s, %v", v, err)
				}
			}
			prompt()
			time.Sleep(d)
			ask("first")
			_, _ = io.WriteString(conn, "$7\r\nreplied\r\n")
			if s := prompt(); !strings.Contains(s, "replied") {
				fail("shown %q", s)
			}
			if d < 6*time.Second {
				ask("second")
				time.Sleep(d)
				_, _ = io.WriteString(conn, "$6\r\nthe ")
				time.Sleep(d / 2)
				_, _ = io.WriteString(conn, "2nd"[1:]+"\r\n")
				if s := prompt(); !strings.Contains(s, "the nd") {
					fail("shown %q", s)
				}
			}
			_ = in.Close()
			go func() { _, _ = io.Copy(io.Discard, pr.r) }()
			if !vk.Within(vk.ReplyTimeout, func() { _ = cmd.Wait() }) || cmd.ProcessState.ExitCode() != 0 {
				fail("the client does not end with success")
			}
			r.Case(fmt.Sprint("late", d))
		})
	}
	return r.Patient(func(d time.Duration) {
		rest, _ := rests.Load(d)
		rest.(func())()
	})
}
