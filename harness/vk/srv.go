package vk

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Cfg configures a server.
type Cfg struct {
	Port, ReplicaPort int
	EnableReplica     bool
	DatabaseFile      string
	MasterAddress     string
}

// Srv is a process that runs the real server, one instance at a time.
type Srv struct {
	StartSignal int // sent by Start as soon as the server has been initialized
	opt         SrvOpt
	Dir         string
	Cfg         Cfg
	cmd         *exec.Cmd
	in          io.WriteCloser
	mu          sync.Mutex
	nextID      int
	wait        map[int]chan map[string]any
	Exited      chan struct{}
	served      chan struct{}
	errOut      string
	Race        bool
}

// SrvOpt says how to run the process.
type SrvOpt struct {
	Bin   string // "plain" or "yield" or "race", default plain
	Yield int    // 0..100
	Dir   string
	Env   []string
}

// BinDir is where the binaries of the check are.
func BinDir() string { return os.Getenv("VERIF_BIN") }

// NewSrv starts the process, without a server yet.
func NewSrv(r *Run, opt SrvOpt) *Srv {
	if opt.Bin == "" {
		opt.Bin = "plain"
	}
	if opt.Dir == "" {
		opt.Dir = r.Scratch()
	}
	s := &Srv{opt: opt, Dir: opt.Dir, wait: map[int]chan map[string]any{}, Exited: make(chan struct{}), Race: opt.Bin == "race"}
	s.cmd = exec.Command(filepath.Join(BinDir(), "vsrv-"+opt.Bin))
	s.cmd.Dir = opt.Dir
	s.cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_YIELD=%d", opt.Yield), "GORACE=halt_on_error=0 exitcode=0 history_size=3")
	s.cmd.Env = append(s.cmd.Env, opt.Env...)
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	f, err := os.CreateTemp(opt.Dir, "stderr-*.txt")
	if err != nil {
		r.Infra("stderr file: %v", err)
	}
	s.errOut = f.Name()
	s.cmd.Stderr = f
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		r.Infra("pipe: %v", err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		r.Infra("pipe: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		r.Infra("start server process: %v", err)
	}
	_ = f.Close()
	AtExit(s.Kill)
	go s.read(o)
	return s
}

func (s *Srv) read(o io.Reader) {
	br := bufio.NewReaderSize(o, 1<<16)
	for {
		line, err := br.ReadBytes('\n')
		if err != nil {
			break
		}
		var m map[string]any
		if json.Unmarshal(line, &m) != nil {
			continue
		}
		s.mu.Lock()
		if m["Event"] == "served" {
			if s.served != nil {
				close(s.served)
				s.served = nil
			}
		} else if idf, ok := m["ID"].(float64); ok {
			if ch, ok := s.wait[int(idf)]; ok {
				ch <- m
				delete(s.wait, int(idf))
			}
		}
		s.mu.Unlock()
	}
	_ = s.cmd.Wait()
	close(s.Exited)
}

// Call sends a command to the process and waits for its answer.
func (s *Srv) Call(op string, fields map[string]any, timeout time.Duration) (map[string]any, error) {
	ch := make(chan map[string]any, 1)
	s.mu.Lock()
	s.nextID++
	id := s.nextID
	s.wait[id] = ch
	m := map[string]any{"ID": id, "Op": op}
	for k, v := range fields {
		m[k] = v
	}
	b, _ := json.Marshal(m)
	_, err := s.in.Write(append(b, '\n'))
	s.mu.Unlock()
	if err != nil {
		return nil, fmt.Errorf("server process is gone: %w", err)
	}
	t := time.NewTimer(timeout)
	defer t.Stop()
	select {
	case a := <-ch:
		return a, nil
	case <-s.Exited:
		select {
		case a := <-ch:
			return a, nil
		default:
		}
		return nil, fmt.Errorf("server process exited during %s", op)
	case <-t.C:
		return nil, fmt.Errorf("%s did not return within %s", op, timeout)
	}
}

var nextPort = func() *atomic.Int64 {
	var x atomic.Int64
	x.Store(int64(rand.Intn(22000)))
	return &x
}()

// FreePort finds a port nobody listens on, outside of the range that outgoing connections use.
// Within a run, a port is not chosen again until all others were.
func FreePort() int {
	for i := 0; i < 200; i++ {
		p := 10000 + int(nextPort.Add(1)%22000)
		if TryListen(p) == nil {
			return p
		}
	}
	return 0
}

// TryListen reports if a port can be listened on.
func TryListen(port int) error {
	// A process started meanwhile would keep the port taken for a moment
	syscall.ForkLock.RLock()
	defer syscall.ForkLock.RUnlock()
	l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", port))
	if err == nil {
		_ = l.Close()
	}
	return err
}

// Listens reports if the process has a listening socket on a port.
func (s *Srv) Listens(port int) bool {
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, line := range strings.Split(string(b), "\n") {
			x := strings.Fields(line)
			if len(x) > 9 && x[3] == "0A" && strings.HasSuffix(x[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+x[9]+"]"] = true
			}
		}
	}
	dir := fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid)
	fds, _ := os.ReadDir(dir)
	for _, fd := range fds {
		if l, err := os.Readlink(dir + "/" + fd.Name()); err == nil && inodes[l] {
			return true
		}
	}
	return false
}

// OpTimeout bounds operations that have to finish.
var OpTimeout = 60 * time.Second

// Start starts a server. Ports that are 0 are chosen, again if they are taken meanwhile.
func (s *Srv) Start(cfg Cfg, save string) error {
	var last error
	for try := 0; try < 8; try++ {
		c := cfg
		if c.Port == 0 {
			c.Port = FreePort()
		}
		if c.EnableReplica && c.ReplicaPort == 0 {
			c.ReplicaPort = FreePort()
		}
		served := make(chan struct{})
		s.mu.Lock()
		s.served = served
		s.mu.Unlock()
		a, err := s.Call("start", map[string]any{"Cfg": c, "Save": save, "N": s.StartSignal}, OpTimeout)
		if err != nil {
			return err
		}
		if ok, _ := a["OK"].(bool); ok {
			s.Cfg = c
			return nil
		}
		last = fmt.Errorf("server refused to start on port %d", c.Port)
		if cfg.Port != 0 {
			time.Sleep(20 * time.Millisecond)
		}
	}
	return last
}

// Addr is where clients connect.
func (s *Srv) Addr() string { return fmt.Sprintf("127.0.0.1:%d", s.Cfg.Port) }

// ReplicaAddr is where replicas connect.
func (s *Srv) ReplicaAddr() string { return fmt.Sprintf("127.0.0.1:%d", s.Cfg.ReplicaPort) }

// Stop stops the server with n concurrent calls and waits until Serve has returned as well.
func (s *Srv) Stop(n int) error {
	if _, err := s.Call("stop", map[string]any{"N": n}, OpTimeout); err != nil {
		return err
	}
	_, err := s.Call("waitserved", nil, OpTimeout)
	if err != nil {
		err = fmt.Errorf("the serve call did not return after stop: %w", err)
	}
	return err
}

// Served waits until the serve call has returned.
func (s *Srv) Served() error {
	_, err := s.Call("waitserved", nil, OpTimeout)
	if err != nil {
		err = fmt.Errorf("the serve call did not return: %w", err)
	}
	return err
}

// Signal sends a termination signal and waits until Serve has returned.
func (s *Srv) Signal(sig syscall.Signal) error {
	if _, err := s.Call("signal", map[string]any{"N": int(sig)}, OpTimeout); err != nil {
		return err
	}
	_, err := s.Call("waitserved", nil, OpTimeout)
	if err != nil {
		err = fmt.Errorf("the serve call did not return after %s: %w", sig, err)
	}
	return err
}

// Stats of the process.
type Stats struct{ Goroutines, FDs, Heap, Statements, Sites, Adjacent, Stalls int64 }

// Stats measures the process.
func (s *Srv) Stats() (Stats, error) {
	a, err := s.Call("stats", nil, OpTimeout)
	if err != nil {
		return Stats{}, err
	}
	g := func(k string) int64 { f, _ := a[k].(float64); return int64(f) }
	return Stats{g("Goroutines"), g("FDs"), g("Heap"), g("Statements"), g("Sites"), g("Adjacent"), g("Stalls")}, nil
}

// Stacks of the server process.
func (s *Srv) Stacks() string {
	a, err := s.Call("stacks", nil, 10*time.Second)
	if err != nil {
		// the runtime writes them when told to quit
		before := len(s.Stderr())
		_ = s.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-s.Exited:
		case <-time.After(10 * time.Second):
		}
		text := s.Stderr()
		return err.Error() + "\n" + text[min(before, len(text)):]
	}
	t, _ := a["Text"].(string)
	return t
}

// Alive reports if the process runs.
func (s *Srv) Alive() bool {
	select {
	case <-s.Exited:
		return false
	default:
		return true
	}
}

// Kill ends the process at once.
func (s *Srv) Kill() {
	if s.cmd.Process != nil {
		_ = s.cmd.Process.Kill()
	}
	select {
	case <-s.Exited:
	case <-time.After(10 * time.Second):
	}
}

// Stderr is what the process wrote there.
func (s *Srv) Stderr() string {
	b, _ := os.ReadFile(s.errOut)
	return string(b)
}

// CrashReason extracts the panic from the stderr output.
func (s *Srv) CrashReason() string {
	t := s.Stderr()
	for _, k := range []string{"panic:", "fatal error:", "SIGSEGV"} {
		if i := strings.Index(t, k); i >= 0 {
			return Clip(t[i:], 3000)
		}
	}
	return Clip(t, 1000)
}

// RaceReports gives the data races reported so far.
func RaceReports(text string) []string {
	var out []string
	for _, part := range strings.Split(text, "==================") {
		if strings.Contains(part, "WARNING: DATA RACE") {
			out = append(out, strings.TrimSpace(part))
		}
	}
	return out
}

// Stall has an instrumented server hold up goroutines at a few statements, picked by the number, 0 for none.
func (s *Srv) Stall(n int64) {
	if s.opt.Bin == "yield" {
		_, _ = s.Call("stall", map[string]any{"Stall": n}, OpTimeout)
	}
}

// StallSome has goroutines of the server held up in one case of three, chosen by what identifies the case.
func (s *Srv) StallSome(r *Run, of ...any) {
	if s.opt.Bin != "yield" {
		return
	}
	if rng := r.Rng(append([]any{"stall"}, of...)...); rng.Intn(3) == 0 {
		s.Stall(1 + rng.Int63n(1<<62))
	} else {
		s.Stall(0)
	}
}

// Plain reports whether the server is not instrumented.
func (s *Srv) Plain() bool { return s.opt.Bin == "plain" || s.opt.Bin == "" }

// Observe adds what the instrumented server saw to the evidence.
func (r *Run) Observe(s *Srv) {
	st, err := s.Stats()
	if err != nil || st.Statements == 0 {
		return
	}
	r.Count("instrumented_statements_passed", st.Statements)
	if st.Stalls > 0 {
		r.Count("goroutines_held_up", st.Stalls)
	}
	r.Max("distinct_statements_passed_max", st.Sites)
	r.Max("distinct_adjacent_statement_pairs_max", st.Adjacent)
}
