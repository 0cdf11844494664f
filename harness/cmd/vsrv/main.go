// vsrv runs the real server under the control of a check, which writes commands to its standard input.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/network"
)

type request struct {
	ID  int
	Op  string
	Cfg struct {
		Port, ReplicaPort int
		EnableReplica     bool
		DatabaseFile      string
		MasterAddress     string
	}
	Save  string // where to copy the database file when Serve returns
	Level int
	N     int
	Stall int64
}

var (
	outMu sync.Mutex
	out   = bufio.NewWriter(os.Stdout)
)

func reply(m map[string]any) {
	b, _ := json.Marshal(m)
	outMu.Lock()
	defer outMu.Unlock()
	_, _ = out.Write(append(b, '\n'))
	_ = out.Flush()
}

type instance struct {
	s      network.Server
	served chan struct{}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	var cur *instance
	if lvl := os.Getenv("VERIF_LOG"); lvl != "" {
		common.InitLog(common.Config{LogPath: os.Getenv("VERIF_LOGPATH"), LogLevel: lvl}, lvl == "DEBUG")
	}
	if n, _ := strconv.ParseUint(os.Getenv("VERIF_NOFILE"), 10, 64); n > 0 {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			fmt.Fprintln(os.Stderr, "vsrv:", err)
			os.Exit(4)
		}
	}

	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var req request
		if err := json.Unmarshal(line, &req); err != nil {
			fmt.Fprintln(os.Stderr, "vsrv:", err)
			os.Exit(4)
		}
		switch req.Op {
		case "start":
			cfg := common.Config{Port: req.Cfg.Port, ReplicaPort: req.Cfg.ReplicaPort, EnableReplica: req.Cfg.EnableReplica,
				DatabaseFile: req.Cfg.DatabaseFile, MasterAddress: req.Cfg.MasterAddress}
			inst := &instance{s: network.NewServer(), served: make(chan struct{})}
			t0 := time.Now()
			if !inst.s.Init(cfg) {
				reply(map[string]any{"ID": req.ID, "OK": false})
				continue
			}
			if req.N != 0 {
				sendSignal(req.N)
			}
			cur = inst
			save, file := req.Save, req.Cfg.DatabaseFile
			id := req.ID
			go func() {
				inst.s.Serve()
				if save != "" {
					b, _ := os.ReadFile(file)
					_ = os.WriteFile(save, b, 0644)
				}
				close(inst.served)
				reply(map[string]any{"ID": -id, "Event": "served"})
			}()
			reply(map[string]any{"ID": req.ID, "OK": true, "InitMS": time.Since(t0).Milliseconds()})
		case "stop":
			// N concurrent stop calls; answers when all have returned
			inst, id, n := cur, req.ID, req.N
			if n < 1 {
				n = 1
			}
			go func() {
				t0 := time.Now()
				var wg sync.WaitGroup
				for i := 0; i < n; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						inst.s.Stop()
					}()
				}
				wg.Wait()
				reply(map[string]any{"ID": id, "OK": true, "MS": time.Since(t0).Milliseconds()})
			}()
		case "waitserved":
			inst, id := cur, req.ID
			go func() {
				<-inst.served
				reply(map[string]any{"ID": id, "OK": true})
			}()
		case "signal":
			sendSignal(req.N)
			reply(map[string]any{"ID": req.ID, "OK": true})
		case "stats":
			for i := 0; i < 2; i++ {
				runtime.GC()
			}
			debug.FreeOSMemory()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			fds, _ := os.ReadDir("/proc/self/fd")
			m := map[string]any{"ID": req.ID, "OK": true, "Goroutines": runtime.NumGoroutine(), "FDs": len(fds), "Heap": int64(ms.HeapAlloc)}
			addYield(m)
			reply(m)
		case "stacks":
			buf := make([]byte, 4<<20)
			reply(map[string]any{"ID": req.ID, "OK": true, "Text": string(buf[:runtime.Stack(buf, true)])})
		case "fsize":
			// from now on no file can be written beyond this size, as if the disk were full; a negative one is no limit
			signal.Ignore(syscall.SIGXFSZ)
			var lim syscall.Rlimit
			err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
			lim.Cur = lim.Max
			if req.N >= 0 {
				lim.Cur = uint64(req.N)
			}
			if err == nil {
				err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
			}
			reply(map[string]any{"ID": req.ID, "OK": err == nil})
		case "stall":
			setStall(req.Stall)
			reply(map[string]any{"ID": req.ID, "OK": true})
		case "level":
			setLevel(req.Level)
			reply(map[string]any{"ID": req.ID, "OK": true})
		case "exit":
			reply(map[string]any{"ID": req.ID, "OK": true})
			os.Exit(0)
		}
	}
}

// sendSignal waits until it has been handed to everyone who listens, so that a later server does not get it.
func sendSignal(n int) {
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.Signal(n))
	_ = syscall.Kill(os.Getpid(), syscall.Signal(n))
	<-ch
	signal.Stop(ch)
}
