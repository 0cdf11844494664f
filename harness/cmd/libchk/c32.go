package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/lxdlam/vertex/pkg/common"

	"verif/vk"
)

func init() {
	checks["C32"] = check{"exploration",
		"processes initialize the log with each level, debug mode and file (new, or with earlier contents) and write messages and formatted messages with arguments of many types through every function, from one or several goroutines, and end by shutting the log down, " +
			"by a recovered panic or by a fatal message; the file is compared with the messages that had to appear, and the returned errors, panics, exit codes and the standard error with the definition. A case is one process; non-trivial with a message that has to appear; distinct by its plan.",
		c32}
	modes["log"] = c32Child
}

var errInner = errors.New("inner error")

// logPlan is what one process does; both sides derive it from the seed.
type logPlan struct {
	Level   string
	Debug   bool
	Workers int
	Msgs    int
	End     string // "shutdown", "fatal", "fatalf", "kill"
	Burst   int    // the same message so many times in a row
	Seed    int64
	Path    string
	Before  string
}

type logCall struct {
	fn       string
	text     string // what has to be logged
	template string
	args     []any
}

func (p logPlan) calls(worker int) []logCall {
	rng := rand.New(rand.NewSource(p.Seed*1000 + int64(worker)))
	var out []logCall
	for i := 0; i < p.Msgs; i++ {
		mark := fmt.Sprintf("<%d:%d>", worker, i)
		c := logCall{fn: []string{"Debug", "Info", "Warn", "Error", "Panic"}[rng.Intn(5)]}
		if rng.Intn(2) == 0 {
			c.text = mark + p.words(rng)
			if rng.Intn(6) == 0 {
				c.text += " 100% sure %d %s"
			}
		} else {
			c.fn += "f"
			c.template = mark
			for n := 1 + rng.Intn(4); n > 0; n-- {
				verb, arg := p.arg(rng)
				c.template += " " + p.words(rng) + "=" + verb
				c.args = append(c.args, arg)
			}
			if rng.Intn(4) == 0 {
				c.template += " 100%%"
			}
			c.text = fmt.Sprintf(c.template, c.args...)
		}
		out = append(out, c)
	}
	return out
}

func (p logPlan) words(rng *rand.Rand) string {
	s := []string{"alpha", "ключ", "with \"quotes\"", "back\\slash", "", "a=b", "日本"}[rng.Intn(7)]
	if rng.Intn(300) == 0 {
		s += strings.Repeat("long ", 1+rng.Intn(1<<(4+rng.Intn(12))))
	}
	if !p.Debug && rng.Intn(5) == 0 {
		s += []string{"\n", "\ttab", "\r\n second line", "\x01"}[rng.Intn(4)]
	}
	return s
}

func (p logPlan) arg(rng *rand.Rand) (string, any) {
	switch rng.Intn(9) {
	case 0:
		return "%d", rng.Intn(1000)
	case 1:
		return "%s", p.words(rng)
	case 2:
		return "%q", p.words(rng)
	case 3:
		return "%+v", struct {
			A int
			B string
		}{rng.Intn(10), "b"}
	case 4:
		return "%s", errInner
	case 5:
		return "%v", []string{"x", "y"}
	case 6:
		return "%v", nil
	case 7:
		return "%x", []byte("bytes")
	}
	return "%5.2f", rng.Float64() * 100
}

// c32Child does what the plan says and reports what it got back.
func c32Child() {
	b, _ := io.ReadAll(os.Stdin)
	var p logPlan
	if json.Unmarshal(b, &p) != nil {
		os.Exit(4)
	}
	bad := func(format string, args ...any) {
		fmt.Printf("BAD "+format+"\n", args...)
		os.Exit(5)
	}
	if p.Seed%3 == 0 { // nothing is logged before the log is set up
		common.Debug("early")
		common.Debugf("early %d", 1)
		common.Info("early")
		common.Infof("early %d", 1)
		common.Warn("early")
		common.Warnf("early %d", 1)
		if err := common.Error("early"); err == nil || err.Error() != "early" {
			bad("Error before the log is set up returns %v", err)
		}
		if err := common.Errorf("early %d, %w", 1, errInner); err == nil || err.Error() != "early 1, inner error" || !errors.Is(err, errInner) {
			bad("Errorf before the log is set up returns %v", err)
		}
	}
	common.InitLog(common.Config{LogPath: p.Path, LogLevel: p.Level}, p.Debug)
	vk.Parallel(p.Workers, func(w int) {
		for _, c := range p.calls(w) {
			c := c
			var err error
			var panicked any
			func() {
				defer func() { panicked = recover() }()
				switch c.fn {
				case "Debug":
					common.Debug(c.text)
				case "Info":
					common.Info(c.text)
				case "Warn":
					common.Warn(c.text)
				case "Error":
					err = common.Error(c.text)
				case "Panic":
					common.Panic(c.text)
				case "Debugf":
					common.Debugf(c.template, c.args...)
				case "Infof":
					common.Infof(c.template, c.args...)
				case "Warnf":
					common.Warnf(c.template, c.args...)
				case "Errorf":
					err = common.Errorf(c.template, c.args...)
				case "Panicf":
					common.Panicf(c.template, c.args...)
				}
			}()
			if strings.HasPrefix(c.fn, "Panic") {
				if panicked == nil || fmt.Sprint(panicked) != c.text {
					bad("%s of %q panics with %v", c.fn, c.text, panicked)
				}
			} else if panicked != nil {
				bad("%s of %q panics: %v", c.fn, c.text, panicked)
			}
			if strings.HasPrefix(c.fn, "Error") && (err == nil || err.Error() != c.text) {
				bad("%s of %q returns %v", c.fn, c.text, err)
			}
		}
	})
	for i := 0; i < p.Burst; i++ {
		if i%2 == 0 {
			_ = common.Error("the same again")
		} else {
			_ = common.Errorf("the same %s", "again")
		}
	}
	if err := common.Errorf("wrapped {%w}", errInner); !errors.Is(err, errInner) || err.Error() != "wrapped {inner error}" {
		bad("Errorf does not wrap: %v", err)
	}
	fmt.Println("DONE")
	switch p.End {
	case "fatal":
		common.Fatal("the end")
		bad("Fatal returns")
	case "fatalf":
		common.Fatalf("the %s %d", "end", 7)
		bad("Fatalf returns")
	case "kill":
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	common.ShutdownLog()
	os.Exit(0)
}

func c32(r *vk.Run) {
	dir := r.Scratch()
	c32Uninitialized(r)
	n := r.N(2000, 60000)
	cases(r, 8, n, func(k int, w *note) { c32Case(r, dir, k, w) })
}

// c32Uninitialized uses the functions as a library does that nobody gave a log. It is run by a process without one.
func c32Uninitialized(r *vk.Run) {
	cmd := exec.Command("/proc/self/exe", "C32")
	cmd.Env = append(os.Environ(), "VERIF_MODE=nolog")
	out, err := cmd.CombinedOutput()
	if err != nil || !strings.Contains(string(out), "DONE") {
		r.Violate(map[string]any{"output": string(out)}, "logging before the log is initialized: %v %s", err, vk.Clip(string(out), 500))
	}
	r.Case("uninitialized")
}

func init() {
	modes["nolog"] = func() {
		common.Debug("x")
		common.Info("x")
		common.Warn("x")
		common.Debugf("x %d", 1)
		common.Infof("x %d", 1)
		common.Warnf("x %d", 1)
		if err := common.Error("text"); err == nil || err.Error() != "text" {
			fmt.Println("Error returns", err)
			os.Exit(5)
		}
		if err := common.Errorf("n %d {%w}", 1, errInner); !errors.Is(err, errInner) || err.Error() != "n 1 {inner error}" {
			fmt.Println("Errorf returns", err)
			os.Exit(5)
		}
		fmt.Println("DONE")
	}
}

var logLevels = []string{"DEBUG", "INFO", "WARN", "ERROR", "PANIC", "FATAL"}

func c32Case(r *vk.Run, dir string, k int, w *note) {
	rng := r.Rng("case", k)
	p := logPlan{Level: []string{"INFO", "WARN", "ERROR", "FATAL"}[k%4], Debug: rng.Intn(4) == 0, Workers: 1, Msgs: 1 + rng.Intn(60), Seed: rng.Int63n(1 << 40),
		End: []string{"shutdown", "shutdown", "fatal", "fatalf", "kill"}[rng.Intn(5)], Path: filepath.Join(dir, fmt.Sprint("log", k))}
	if rng.Intn(2) == 0 {
		p.Workers = 2 + rng.Intn(7)
	}
	if rng.Intn(3) == 0 {
		p.Burst = []int{2, 20, 150, 400, 1200}[rng.Intn(5)]
	}
	if k == 5 {
		p.Burst, p.Level = 70000, "INFO"
	}
	if rng.Intn(3) == 0 {
		p.Before = "an earlier line\nanother one\n"
		if rng.Intn(20) == 0 {
			p.Before = strings.Repeat(p.Before, 1<<(8+rng.Intn(9)))
		}
		_ = os.WriteFile(p.Path, []byte(p.Before), 0644)
	}
	defer func() { _ = os.Remove(p.Path) }()
	w.set(p)
	in, _ := json.Marshal(p)
	cmd := exec.Command("/proc/self/exe", "C32")
	cmd.Env = append(os.Environ(), "VERIF_MODE=log")
	cmd.Stdin = strings.NewReader(string(in))
	var out, errOut strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errOut
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		r.Infra("process: %v", err)
	}
	t := time.AfterFunc(hangLimit, func() { _ = cmd.Process.Kill() })
	_ = cmd.Wait()
	killed := !t.Stop()
	runtime.UnlockOSThread()
	b, err := os.ReadFile(p.Path)
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"plan": p, "stdout": out.String(), "stderr": vk.Clip(errOut.String(), 5000), "log": vk.Clip(string(b), 20000)}, "level %s, debug %v, %d goroutines: %s", p.Level, p.Debug, p.Workers, fmt.Sprintf(format, args...))
	}
	if killed {
		fail("the process does not end")
	}
	if i := strings.Index(out.String(), "BAD "); i >= 0 {
		fail("%s", vk.Clip(out.String()[i+4:], 600))
	}
	if !strings.Contains(out.String(), "DONE") {
		fail("the process ends early with code %d: %s", cmd.ProcessState.ExitCode(), vk.Clip(errOut.String(), 600))
	}
	want := map[string]int{"shutdown": 0, "fatal": 1, "fatalf": 1, "kill": -1}[p.End]
	if cmd.ProcessState.ExitCode() != want {
		fail("the process ends with code %d instead of %d", cmd.ProcessState.ExitCode(), want)
	}
	end := map[string]string{"fatal": "the end", "fatalf": "the end 7"}[p.End]
	if end != "" && !strings.Contains(errOut.String(), "Fatal: "+end) {
		fail("the standard error does not tell the fatal message %q: %q", end, vk.Clip(errOut.String(), 300))
	}
	if err != nil {
		fail("there is no log file: %v", err)
	}
	if !strings.HasPrefix(string(b), p.Before) {
		fail("the earlier contents of the file are gone")
	}
	// what has to be there
	lowest := p.Level
	if p.Debug {
		lowest = "DEBUG"
	}
	enabled := func(fn string) bool {
		lvl := strings.ToUpper(strings.TrimSuffix(fn, "f"))
		for _, l := range logLevels {
			if l == lowest {
				return true
			}
			if l == lvl {
				return false
			}
		}
		return false
	}
	type entry struct{ level, text string }
	var got []entry
	lines := strings.Split(string(b[len(p.Before):]), "\n")
	if p.End == "kill" {
		lines = lines[:len(lines)-1] // torn
	}
	for _, line := range lines {
		if line == "" {
			continue
		}
		if p.Debug {
			x := strings.SplitN(line, "\t", 4)
			if len(x) == 4 && len(x[0]) > 10 && x[0][4] == '-' {
				got = append(got, entry{x[1], x[3]})
			} // else a line of a stack trace
			continue
		}
		var m map[string]any
		if err := json.Unmarshal([]byte(line), &m); err != nil {
			fail("the line %q is torn: %v", vk.Clip(line, 300), err)
		}
		lvl, _ := m["level"].(string)
		msg, _ := m["msg"].(string)
		got = append(got, entry{strings.ToUpper(lvl), msg})
	}
	next := make([]int, p.Workers)
	plans := make([][]logCall, p.Workers)
	for i := range plans {
		for _, c := range p.calls(i) {
			if enabled(c.fn) {
				plans[i] = append(plans[i], c)
			}
		}
	}
	must, same := 0, 0
	for i, e := range got {
		if strings.HasPrefix(e.text, "wrapped {") {
			continue
		}
		if e.text == "the same again" && e.level == "ERROR" {
			same++
			continue
		}
		if end != "" && i == len(got)-1 {
			if e.level != "FATAL" || e.text != end {
				fail("the last entry is %s %q instead of FATAL %q", e.level, e.text, end)
			}
			continue
		}
		worker := -1
		if x := strings.SplitN(strings.TrimPrefix(e.text, "<"), ":", 2); len(x) == 2 {
			worker, _ = strconv.Atoi(x[0])
		}
		if !strings.HasPrefix(e.text, "<") || worker < 0 || worker >= p.Workers {
			fail("the entry %s %q was never logged", e.level, e.text)
		}
		if next[worker] >= len(plans[worker]) {
			fail("the entry %s %q is too much", e.level, e.text)
		}
		c := plans[worker][next[worker]]
		next[worker]++
		if e.text != c.text {
			fail("an entry is %q instead of %q, of %s with %q", e.text, c.text, c.fn, c.template)
		}
		if e.level != strings.ToUpper(strings.TrimSuffix(c.fn, "f")) {
			fail("the entry %q of %s has the level %s", e.text, c.fn, e.level)
		}
		must++
	}
	for i := range plans {
		if next[i] != len(plans[i]) && p.End != "kill" { // what is buffered may be lost then
			c := plans[i][next[i]]
			fail("the entry %q of %s is missing", c.text, c.fn)
		}
	}
	if end != "" && (len(got) == 0 || got[len(got)-1].text != end) {
		fail("the fatal message is not in the log")
	}
	burst := p.Burst
	if !enabled("Error") {
		burst = 0
	}
	if same > burst || same < burst && p.End != "kill" {
		fail("a message logged %d times in a row appears %d times", burst, same)
	}
	r.Count("repetitions_of_one_message", int64(same))
	r.Count("entries_that_had_to_appear", int64(must))
	r.Count("messages", int64(p.Msgs*p.Workers))
	r.Count("ended_by_"+p.End, 1)
	if r.WantSample() {
		s := p.calls(0)
		r.Sample(map[string]any{"level": p.Level, "debug": p.Debug, "goroutines": p.Workers, "end": p.End, "first": s[0].fn + ": " + s[0].text})
	}
	sig := ""
	if must > 0 {
		sig = string(in)
	}
	r.Case(sig)
}
