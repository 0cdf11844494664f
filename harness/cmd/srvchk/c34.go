package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/vk"
)

func init() { checks["C34"] = c34 }

// c34Obstacle makes something a server needs unusable until the returned function is called.
type c34Obstacle struct {
	name string
	// file: the obstacle is in the way of the database file
	file bool
	// put returns the configuration to use and how to remove the obstacle
	put func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error)
}

func c34Hold(port int, addr string) (func(), error) {
	l, err := net.Listen("tcp4", fmt.Sprintf("%s:%d", addr, port))
	if err != nil {
		return nil, err
	}
	return func() { _ = l.Close() }, nil
}

var c34Obstacles = []c34Obstacle{
	{"client port taken", false, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		f, err := c34Hold(cfg.Port, "0.0.0.0")
		return cfg, f, err
	}},
	{"client port taken on the local address", false, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		f, err := c34Hold(cfg.Port, "127.0.0.1")
		return cfg, f, err
	}},
	{"client port out of range", false, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		cfg.Port = []int{-1, 65536, 70000, 1 << 20}[cfg.Port%4]
		cfg.EnableReplica = false
		return cfg, func() {}, nil
	}},
	{"replication port taken", false, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		cfg.EnableReplica = true
		f, err := c34Hold(cfg.ReplicaPort, "0.0.0.0")
		return cfg, f, err
	}},
	{"replication port out of range", false, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		cfg.EnableReplica = true
		cfg.ReplicaPort = 65536 + cfg.ReplicaPort
		return cfg, func() {}, nil
	}},
	{"next port taken, no replication port given", false, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		cfg.EnableReplica = true
		cfg.ReplicaPort = []int{0, -1, cfg.Port}[cfg.Port%3]
		f, err := c34Hold(cfg.Port+1, "0.0.0.0")
		return cfg, f, err
	}},
	{"database file is a folder", true, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		cfg.DatabaseFile = filepath.Join(dir, "folder")
		return cfg, func() { _ = os.Remove(cfg.DatabaseFile) }, os.Mkdir(cfg.DatabaseFile, 0755)
	}},
	{"folder of the database file missing", true, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		parent := filepath.Join(dir, "missing")
		cfg.DatabaseFile = filepath.Join(parent, "db")
		return cfg, func() { _ = os.Mkdir(parent, 0755) }, nil
	}},
	{"folder of the database file is a file", true, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		parent := filepath.Join(dir, "plain")
		cfg.DatabaseFile = filepath.Join(parent, "db")
		return cfg, func() { _ = os.Remove(parent); _ = os.Mkdir(parent, 0755) }, os.WriteFile(parent, []byte("x"), 0644)
	}},
	{"database file is a link to itself", true, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		cfg.DatabaseFile = filepath.Join(dir, "loop")
		return cfg, func() { _ = os.Remove(cfg.DatabaseFile) }, os.Symlink(cfg.DatabaseFile, cfg.DatabaseFile)
	}},
	{"database file is a link into a missing folder", true, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		cfg.DatabaseFile = filepath.Join(dir, "dangling")
		to := filepath.Join(dir, "gone")
		return cfg, func() { _ = os.Mkdir(to, 0755) }, os.Symlink(filepath.Join(to, "db"), cfg.DatabaseFile)
	}},
	{"name of the database file too long", true, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		cfg.DatabaseFile = filepath.Join(dir, strings.Repeat("n", 300))
		return cfg, nil, nil
	}},
	{"database file is a running program", true, func(r *vk.Run, dir string, cfg vk.Cfg) (vk.Cfg, func(), error) {
		b, err := os.ReadFile("/bin/sleep")
		if err != nil {
			return cfg, nil, err
		}
		cfg.DatabaseFile = filepath.Join(dir, "program")
		syscall.ForkLock.RLock() // no other process may have it open for writing
		err = os.WriteFile(cfg.DatabaseFile, b, 0755)
		syscall.ForkLock.RUnlock()
		if err != nil {
			return cfg, nil, err
		}
		p := exec.Command(cfg.DatabaseFile, "600")
		p.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := p.Start(); err != nil {
			return cfg, nil, err
		}
		return cfg, func() { _ = p.Process.Kill(); _ = p.Wait(); _ = os.Remove(cfg.DatabaseFile) }, nil
	}},
}

func c34() {
	r := vk.Begin("C34", "exploration", "attempts to start the server with something it needs in the way: the client port or the replication port taken or out of range, or a database file that cannot be opened, "+
		"one attempt or several in a row, over prepared databases. Monitored: Init reports the failure, no port stays open, no goroutine or descriptor stays behind, no file was changed; once the obstacle is removed the same process starts with "+
		"the same configuration, has the data of the database file, keeps what is written through a restart, and serves replicas if told to. The real binary ends with a failure status and serves nothing. "+
		"A case is one obstacle; distinct by obstacle, configuration and number of attempts.")
	total := int64(r.N(900, 20000))
	var next int64
	var real sync.WaitGroup
	real.Add(1)
	go func() {
		defer real.Done()
		c34Real(r)
	}()
	vk.Parallel(workers(), func(wi int) {
		s := vk.NewSrv(r, vk.SrvOpt{})
		for {
			i := atomic.AddInt64(&next, 1)
			if i > total {
				break
			}
			c34Case(r, s, i)
		}
		s.Kill()
	})
	real.Wait()
	r.End()
}

// c34Tree is all that is below a folder.
func c34Tree(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		what := fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			what += string(b)
		}
		m[p] = what
		return nil
	})
	return m
}

func c34Case(r *vk.Run, s *vk.Srv, i int64) {
	rng := r.Rng("case", i)
	dir, err := os.MkdirTemp(s.Dir, "case")
	if err != nil {
		r.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	ob := c34Obstacles[int(i)%len(c34Obstacles)]
	cfg := vk.Cfg{EnableReplica: rng.Intn(2) == 0, Port: vk.FreePort()}
	for { // no other case gets the port after it
		p := vk.FreePort()
		if p == cfg.Port+1 {
			break
		}
		cfg.Port = p
	}
	cfg.ReplicaPort = vk.FreePort()
	if rng.Intn(4) > 0 {
		cfg.DatabaseFile = filepath.Join(dir, "db")
	}
	rep := map[string]any{"obstacle": ob.name}
	fail := func(format string, args ...any) {
		rep["config"] = fmt.Sprintf("%+v", cfg)
		if s.Alive() {
			rep["stacks"] = s.Stacks()
		} else {
			rep["crash"] = s.CrashReason()
		}
		r.Violate(rep, "case %d, %s: %s", i, ob.name, fmt.Sprintf(format, args...))
	}
	dial := func() *vk.Client {
		c, err := vk.Dial(fmt.Sprintf("127.0.0.1:%d", cfg.Port))
		if err != nil {
			fail("cannot connect: %v", err)
		}
		return c
	}
	// the port found free may have been taken by another process meanwhile: then the case says nothing
	start := func() bool {
		for try := 0; try < 50; try++ {
			a, err := s.Call("start", map[string]any{"Cfg": cfg}, vk.OpTimeout)
			if err != nil {
				fail("starting: %v", err)
			}
			if ok, _ := a["OK"].(bool); ok {
				return true
			}
			time.Sleep(20 * time.Millisecond)
		}
		return false
	}
	stop := func() {
		if err := s.Stop(1); err != nil {
			fail("stopping: %v", err)
		}
	}
	want := ""
	if cfg.DatabaseFile != "" && !ob.file && rng.Intn(3) > 0 {
		if !start() {
			for _, p := range []int{cfg.Port, cfg.Port + 1, cfg.ReplicaPort} {
				if s.Listens(p) {
					fail("does not start, and keeps port %d open", p)
				}
			}
			r.Count("ports_taken_by_others", 1)
			return
		}
		want = fmt.Sprintf("value %d\r\n", i)
		c := dial()
		if v, err := c.Do("SET", "before", want); err != nil || v.S != "OK" {
			fail("SET before: %v %v", v, err)
		}
		c.Close()
		stop()
	}

	bad, remove, err := ob.put(r, dir, cfg)
	if err != nil {
		if ob.file {
			r.Infra("obstacle %s: %v", ob.name, err)
		}
		r.Count("ports_taken_by_others", 1)
		return
	}
	before := c34Tree(dir)
	base, err := s.Stats()
	if err != nil {
		fail("%v", err)
	}
	attempts := 1 + rng.Intn(4)
	for a := 0; a < attempts; a++ {
		ans, err := s.Call("start", map[string]any{"Cfg": bad}, vk.OpTimeout)
		if err != nil {
			fail("attempt %d: %v", a, err)
		}
		if ok, _ := ans["OK"].(bool); ok {
			fail("attempt %d: Init reports success", a)
		}
		for _, p := range []int{cfg.Port, cfg.ReplicaPort, cfg.Port + 1, bad.Port, bad.ReplicaPort} {
			if s.Listens(p) {
				fail("attempt %d: Init failed, but port %d is open", a, p)
			}
		}
		after := c34Tree(dir)
		for p, was := range before {
			now, ok := after[p]
			if !ok {
				fail("attempt %d: %s is gone", a, p)
			} else if now != was {
				fail("attempt %d: %s changed from %s to %s", a, p, vk.Q(was), vk.Q(now))
			}
		}
	}
	r.Count("failed_starts", int64(attempts))
	// descriptors are closed and goroutines end in a moment
	var st vk.Stats
	settled := false
	for t0 := time.Now(); !settled && time.Since(t0) < 20*time.Second; {
		if st, err = s.Stats(); err != nil {
			fail("%v", err)
		}
		settled = st.Goroutines <= base.Goroutines && st.FDs <= base.FDs
		if !settled {
			time.Sleep(5 * time.Millisecond)
		}
	}
	if !settled {
		fail("%d attempts left goroutines or descriptors behind: %+v, before %+v", attempts, st, base)
	}

	if remove != nil {
		remove()
		if bad.Port >= 0 && bad.Port < 65536 {
			cfg.Port = bad.Port
		}
		if bad.ReplicaPort < 65536 {
			cfg.ReplicaPort = bad.ReplicaPort
		}
		cfg.DatabaseFile, cfg.EnableReplica = bad.DatabaseFile, bad.EnableReplica
	} else {
		cfg.DatabaseFile = filepath.Join(dir, "other")
	}
	if !start() {
		// another process may have the port now
		for _, p := range []int{cfg.Port, cfg.Port + 1, cfg.ReplicaPort} {
			if p > 0 && p < 65536 && vk.TryListen(p) != nil {
				if s.Listens(p) {
					fail("does not start once the obstacle is removed, and keeps port %d open", p)
				}
				r.Count("ports_taken_by_others", 1)
				return
			}
		}
		fail("does not start once the obstacle is removed")
	}
	c := dial()
	v, err := c.Do("GET", "before")
	if err != nil {
		fail("GET before: %v", err)
	}
	if want == "" && !v.Null || want != "" && v.S != want {
		fail("the data of the database file is not there: %v, want %q", v, want)
	}
	if v, err := c.Do("SET", "after", "x"); err != nil || v.S != "OK" {
		fail("SET after: %v %v", v, err)
	}
	if cfg.EnableReplica {
		port := cfg.ReplicaPort
		if port <= 0 || port == cfg.Port {
			port = cfg.Port + 1
		}
		n, err := c34Transfer(fmt.Sprintf("127.0.0.1:%d", port), cfg.DatabaseFile != "")
		if err != nil {
			fail("replicas are not served at port %d: %v", port, err)
		}
		r.Count("replica_bytes", int64(n))
	}
	c.Close()
	stop()
	if cfg.DatabaseFile != "" {
		if !start() {
			if vk.TryListen(cfg.Port) != nil && !s.Listens(cfg.Port) {
				r.Count("ports_taken_by_others", 1)
				return
			}
			fail("does not start again")
		}
		c := dial()
		if v, err := c.Do("GET", "after"); err != nil || v.S != "x" {
			fail("a write after the failed attempts is lost in a restart: %v %v", v, err)
		}
		c.Close()
		stop()
	}
	r.Case(fmt.Sprint(ob.name, cfg.EnableReplica, cfg.DatabaseFile != "", want != "", attempts, cfg.ReplicaPort <= 0, cfg.ReplicaPort == cfg.Port))
}

// c34Transfer gets a snapshot, which is one or more bytes behind its length; without a file the connection is closed.
func c34Transfer(addr string, file bool) (int, error) {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return 0, err
	}
	defer c.Close()
	_ = c.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
	b, err := io.ReadAll(c)
	if err != nil {
		return 0, err
	}
	if file && (len(b) <= 4 || !bytes.Contains(b, []byte("after"))) {
		return 0, fmt.Errorf("%d bytes that do not have the last write", len(b))
	}
	return len(b), nil
}

// c34Real is about the unmodified program.
func c34Real(r *vk.Run) {
	type obstacle struct {
		name string
		put  func(dir string) func()
	}
	for n, ob := range []obstacle{
		{"./database.vpf is a folder", func(dir string) func() {
			if err := os.Mkdir(filepath.Join(dir, "database.vpf"), 0755); err != nil {
				r.Infra("%v", err)
			}
			return func() { _ = os.Remove(filepath.Join(dir, "database.vpf")) }
		}},
		{"port 6789 taken", func(dir string) func() { return c34HoldReal(r, 6789) }},
		{"port 9999 taken", func(dir string) func() { return c34HoldReal(r, 9999) }},
	} {
		dir := r.Scratch()
		for t0 := time.Now(); vk.TryListen(6789) != nil || vk.TryListen(9999) != nil; time.Sleep(20 * time.Millisecond) {
			if time.Since(t0) > 2*time.Minute {
				r.Infra("the ports of the server binary are taken")
			}
		}
		remove := ob.put(dir)
		cmd := exec.Command(filepath.Join(vk.BinDir(), "realserver"))
		cmd.Dir = dir
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			r.Infra("%v", err)
		}
		vk.AtExit(func() { _ = cmd.Process.Kill() })
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(vk.OpTimeout):
			_ = cmd.Process.Kill()
			<-done
			r.Violate(map[string]any{"output": out.String()}, "server binary, %s: it still runs after %s", ob.name, vk.OpTimeout)
		}
		if code := cmd.ProcessState.ExitCode(); code <= 0 {
			r.Violate(map[string]any{"output": out.String()}, "server binary, %s: exit status %d", ob.name, code)
		}
		remove()
		p := startReal(r, dir)
		c, err := vk.Dial("127.0.0.1:6789")
		if err != nil {
			r.Violate(map[string]any{"output": p.output()}, "server binary, %s removed: cannot connect: %v", ob.name, err)
		}
		if v, err := c.Do("SET", "k", "v"); err != nil || v.S != "OK" {
			r.Violate(map[string]any{"output": p.output()}, "server binary, %s removed: SET: %v %v", ob.name, v, err)
		}
		c.Close()
		_ = p.cmd.Process.Signal(syscall.SIGTERM)
		select {
		case <-p.done:
		case <-time.After(vk.OpTimeout):
			r.Violate(map[string]any{"output": p.output()}, "server binary, %s removed: it still runs after the signal", ob.name)
		}
		r.Count("failed_starts_of_the_real_binary", 1)
		r.Case(fmt.Sprint("real", n))
	}
}

func c34HoldReal(r *vk.Run, port int) func() {
	f, err := c34Hold(port, "0.0.0.0")
	if err != nil {
		r.Infra("%v", err)
	}
	return f
}
