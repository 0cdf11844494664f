package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/vk"
)

func init() { checks["C20"] = c20 }

// The race detector is the oracle here. Everything else that could go wrong is left to the other checks.
func c20() {
	r := vk.Begin("C20", "exploration", "the server and the library workloads of the other checks, built with the race detector and with a perturbed schedule that adds no synchronization; servers with and without a database file and replication run rounds of "+
		"pipelining clients, hostile and half-sent requests, resets, stalled readers, churn, replica transfers and starting replicas under load, and end with concurrent stop calls or a signal in the middle of it. Every report of the detector with an access in the "+
		"module's code is a violation. A case is one server round or library run; all are non-trivial; distinct by the drawn parameters.")
	r.Assume("the race detector sees a race only if both accesses happen in the run, in any order that nothing synchronizes")
	dir := r.Scratch()
	var wg sync.WaitGroup
	servers := r.N(4, 8)
	rounds := r.N(25, 500)
	for i := 0; i < servers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c20Servers(r, i, rounds)
		}(i)
	}
	libs := []string{"C15", "C16", "C17", "C18", "C19", "C24", "C25", "C31"}
	jobs := make(chan int, 100000)
	for k := 0; k < r.N(2, 40); k++ {
		for j := range libs {
			jobs <- k*len(libs) + j
		}
	}
	close(jobs)
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				c20Lib(r, dir, libs[j%len(libs)], j)
			}
		}()
	}
	wg.Wait()
	r.End()
}

// raceInModule tells if an access of the report is made by the module's code, rather than by the harness.
func raceInModule(report string) bool {
	for _, part := range strings.Split(report, "\n\n") {
		part = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(part), "WARNING: DATA RACE"))
		first := strings.SplitN(part, "\n", 2)[0]
		if !strings.Contains(first, " at 0x") {
			continue // where the goroutines were created
		}
		for _, line := range strings.Split(part, "\n")[1:] {
			line = strings.TrimSpace(line)
			if strings.HasPrefix(line, "main.") || strings.HasPrefix(line, "verif/") {
				break
			}
			if strings.HasPrefix(line, "github.com/lxdlam/vertex/") && !strings.Contains(line, "/verifyield.") {
				return true
			}
		}
	}
	return false
}

func c20Judge(r *vk.Run, what string, stderr string) {
	for _, rep := range vk.RaceReports(stderr) {
		if raceInModule(rep) {
			r.Violate(map[string]any{"run": what, "report": rep}, "data race in %s: %s", what, vk.Clip(rep, 1500))
		}
		r.Count("reports_outside_the_module", 1)
	}
}

func c20Lib(r *vk.Run, dir, id string, j int) {
	rng := r.Rng("lib", j)
	level := []int{0, 2, 10, 40, 100}[rng.Intn(5)]
	cmd := exec.Command(filepath.Join(vk.BinDir(), "libchk-race"), id)
	scale := "0.06"
	if id == "C15" || id == "C25" {
		scale = "0.12"
	}
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "VERIF_NO_EVIDENCE=1", "VERIF_TIER=quick", "VERIF_SCALE="+scale, fmt.Sprintf("VERIF_SEED=%d", rng.Int31()), "VERIF_ROOT="+dir,
		fmt.Sprintf("VERIF_YIELD=%d", level), "GORACE=halt_on_error=0 exitcode=0 history_size=3")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errOut strings.Builder
	cmd.Stderr = &errOut
	if err := cmd.Start(); err != nil {
		r.Infra("start the library workload: %v", err)
	}
	t := time.AfterFunc(5*time.Minute, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	what := fmt.Sprintf("the workload of %s, perturbation %d", id, level)
	c20Judge(r, what, errOut.String())
	if err == nil {
		r.Count("library_runs_complete", 1)
	} else {
		r.Count("library_runs_cut_short", 1)
	}
	r.Case(fmt.Sprint(what, j))
}

func c20Servers(r *vk.Run, i, rounds int) {
	rng := r.Rng("servers", i)
	level := []int{0, 3, 12, 40}[i%4]
	opt := vk.SrvOpt{Bin: "race", Yield: level}
	if i%2 == 1 {
		opt.Env = []string{"VERIF_LOG=DEBUG", "VERIF_LOGPATH=/dev/null"}
	}
	s := vk.NewSrv(r, opt)
	rp := vk.NewSrv(r, vk.SrvOpt{Bin: "race", Yield: level})
	judged := map[*vk.Srv]int{}
	judge := func(p **vk.Srv, o vk.SrvOpt, what string) {
		text := (*p).Stderr()
		c20Judge(r, what, text[min(judged[*p], len(text)):])
		judged[*p] = len(text)
		if !(*p).Alive() { // the reason is for another check
			r.Count("server_processes_lost", 1)
			*p = vk.NewSrv(r, o)
		}
	}
	for k := 0; k < rounds; k++ {
		what := c20Round(r, rng, s, rp, fmt.Sprintf("%d-%d", i, k))
		what = fmt.Sprintf("a server round, perturbation %d: %s", level, what)
		judge(&s, opt, what)
		judge(&rp, vk.SrvOpt{Bin: "race", Yield: level}, what+" (replica)")
		if r.WantSample() {
			r.Sample(what)
		}
		r.Case(what)
	}
}

func c20Round(r *vk.Run, rng *rand.Rand, s, rp *vk.Srv, tag string) string {
	file := filepath.Join(s.Dir, "db")
	if rng.Intn(3) == 0 {
		_ = os.Remove(file)
	}
	cfg := vk.Cfg{EnableReplica: rng.Intn(4) > 0}
	if rng.Intn(5) > 0 {
		cfg.DatabaseFile = file
	}
	clients, replicas, stops := 1+rng.Intn(6), rng.Intn(3), 1+rng.Intn(4)
	how := rng.Intn(4)
	life := time.Duration(30+rng.Intn(250)) * time.Millisecond
	quick := rng.Intn(12) == 0
	if quick {
		life = 0
	}
	what := fmt.Sprintf("file %v, replication %v, %d clients, %d replicas, %d stop calls, end %d, %s", cfg.DatabaseFile != "", cfg.EnableReplica, clients, replicas, stops, how, life)
	if err := s.Start(cfg, ""); err != nil {
		return what
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	if !quick {
		for k := 0; k < clients; k++ {
			g := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for !stop.Load() {
					c20Client(r, g, s, k, &stop)
				}
			}(k)
		}
		if cfg.EnableReplica {
			for k := 0; k < replicas; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					for !stop.Load() {
						if k == 0 {
							if rp.Start(vk.Cfg{MasterAddress: s.ReplicaAddr()}, "") == nil {
								if c, err := vk.Dial(rp.Addr()); err == nil {
									_, _ = c.Do("GET", "a")
									c.Close()
								}
								_ = rp.Stop(2)
								r.Count("replicas_started", 1)
							} else if !rp.Alive() {
								return
							}
						} else if _, err := c13Raw(s.ReplicaAddr()); err == nil {
							r.Count("transfers", 1)
						}
					}
				}(k)
			}
		}
		time.Sleep(life)
	}
	if how == 0 {
		_ = s.Signal(syscall.SIGTERM)
	} else {
		if how == 1 { // everybody leaves first
			stop.Store(true)
			wg.Wait()
		}
		_ = s.Stop(stops)
	}
	stop.Store(true)
	wg.Wait()
	r.Count("server_rounds", 1)
	return what
}

func c20Client(r *vk.Run, g *rand.Rand, s *vk.Srv, k int, stop *atomic.Bool) {
	c, err := vk.Dial(s.Addr())
	if err != nil {
		time.Sleep(2 * time.Millisecond)
		return
	}
	defer c.Close()
	c.Timeout = 2 * time.Second
	gn := newGen(g, []string{"", fmt.Sprint(k)}[g.Intn(2)])
	for n := 1 + g.Intn(20); n > 0 && !stop.Load(); n-- {
		var cmds [][]string
		for m := 1 + g.Intn(12); m > 0; m-- {
			cmds = append(cmds, gn.anyCmd())
		}
		v, err := c.Pipe(cmds)
		r.Count("requests_answered", int64(len(v)))
		if err != nil {
			break
		}
	}
	switch g.Intn(6) {
	case 0: // leaves in the middle
		_ = c.Raw("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$100\r\nabc")
	case 1:
		_ = c.Raw("*2\r\n$x\r\n")
		_ = c.C.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
		_, _ = io.Copy(io.Discard, c.R)
	case 2: // leaves without reading
		for m := 0; m < 50; m++ {
			_ = c.Raw(vk.Cmd(gn.anyCmd()...))
		}
	case 3:
		c.Reset()
	case 4: // stalls
		_ = c.Raw(vk.Cmd("SET", "big", strings.Repeat("b", 1<<16)) + strings.Repeat(vk.Cmd("GET", "big"), 40))
		time.Sleep(time.Duration(g.Intn(30)) * time.Millisecond)
	case 5:
		if t, ok := c.C.(*net.TCPConn); ok {
			_ = t.CloseWrite()
		}
		_ = c.C.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		_, _ = io.Copy(io.Discard, c.R)
	}
}
