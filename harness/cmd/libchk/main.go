// libchk judges the packages of the module through their exported functions.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/lxdlam/vertex/pkg/common"

	"verif/vk"
)

type check struct {
	level, rule string
	run         func(r *vk.Run)
}

var checks = map[string]check{}

// modes are what a process started by a check can do instead of the check.
var modes = map[string]func(){}

// hangLimit is how long an operation that must return may take.
const hangLimit = 60 * time.Second

func main() {
	c, ok := checks[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", os.Args[1])
		os.Exit(2)
	}
	if mode, ok := modes[os.Getenv("VERIF_MODE")]; ok {
		mode()
		os.Exit(0)
	}
	if os.Getenv("VERIF_CHILD") == "" {
		parent(os.Args[1], c)
	}
	common.InitLog(common.Config{LogPath: "/dev/null", LogLevel: "FATAL"}, false)
	r := vk.Begin(os.Args[1], c.level, c.rule)
	c.run(r)
	observe(r)
	r.End()
}

// parent runs the check in a process of its own: a panic of any goroutine of the code under test ends that process.
func parent(id string, c check) {
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdout = os.Stdout
	var keep tail
	cmd.Stderr = io.MultiWriter(os.Stderr, &keep)
	runtime.LockOSThread() // the death signal is bound to the thread that starts the process
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		s := <-sig
		_ = cmd.Process.Signal(s)
	}()
	err := cmd.Wait()
	text := keep.String()
	crashed := strings.Contains(text, "\npanic: ") || strings.HasPrefix(text, "panic: ") || strings.Contains(text, "fatal error: ")
	code := cmd.ProcessState.ExitCode()
	// a value torn by a race faults where it is used
	ours := strings.Contains(text, "lxdlam/vertex/pkg") || strings.Contains(text, "panic: runtime error: ") || strings.Contains(text, "fatal error: concurrent map")
	if err == nil || code == 1 || code == 3 || !crashed || !ours {
		if code < 0 {
			code = 2
		}
		os.Exit(code)
	}
	r := vk.Begin(id, c.level, c.rule)
	if i := strings.Index(text, "panic: "); i > 0 {
		text = text[i:]
	}
	r.Violate(map[string]any{"stderr": vk.Clip(text, 20000)}, "the code under test ended the process: %s", vk.Clip(text, 600))
}

// tail keeps the first part of what is written.
type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

// note is what a worker is doing, for the report if it panics or hangs.
type note struct {
	what  atomic.Value
	since int64
}

type holder struct{ v any }

func (n *note) set(v any) {
	n.what.Store(holder{v})
	atomic.StoreInt64(&n.since, time.Now().UnixNano())
}

func (n *note) get() any {
	if h, ok := n.what.Load().(holder); ok {
		return h.v
	}
	return nil
}

// patient is Run.Patient, which has nothing to add in the runs that look for races.
func patient(r *vk.Run, fn func(d time.Duration)) func() {
	if raceBuild {
		return func() {}
	}
	return r.Patient(fn)
}

// cases runs fn for the cases 0..n-1 on some workers. A panic or a case that takes forever is a violation.
func cases(r *vk.Run, workers, n int, fn func(k int, w *note)) {
	var next int64 = -1
	var done int32
	notes := make([]*note, workers)
	for i := range notes {
		notes[i] = &note{}
		notes[i].set("start")
	}
	idle := make([]int32, workers)
	go func() {
		for atomic.LoadInt32(&done) == 0 {
			time.Sleep(time.Second)
			for i, w := range notes {
				if atomic.LoadInt32(&idle[i]) == 0 && time.Since(time.Unix(0, atomic.LoadInt64(&w.since))) > 2*hangLimit {
					r.Violate(map[string]any{"case": w.get(), "stacks": vk.Clip(vk.Stacks(), 100000)}, "an operation has not returned for %s: %v", 2*hangLimit, vk.Clip(fmt.Sprint(w.get()), 1000))
				}
			}
		}
	}()
	vk.Parallel(workers, func(i int) {
		w := notes[i]
		defer atomic.StoreInt32(&idle[i], 1)
		defer func() {
			if p := recover(); p != nil {
				r.Violate(map[string]any{"case": w.get(), "stack": string(debug.Stack())}, "panic: %v in %s", p, vk.Clip(fmt.Sprint(w.get()), 1000))
			}
		}()
		for {
			k := int(atomic.AddInt64(&next, 1))
			if k >= n {
				return
			}
			w.set(fmt.Sprintf("case %d", k))
			fn(k, w)
		}
	})
	atomic.StoreInt32(&done, 1)
}
