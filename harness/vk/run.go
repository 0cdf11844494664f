// Package vk is the kit shared by all checks: reporting, a RESP client, the reference model and server control.
package vk

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Run collects what one check observed and reports the outcome.
type Run struct {
	ID    string
	Tier  string
	Seed  int64
	Level string
	Rule  string

	t0       time.Time
	mu       sync.Mutex
	evals    int64
	bulk     int64
	distinct map[uint64]struct{}
	samples  []any
	counters map[string]*int64
	facts    map[string]any
	assume   []string
	done     bool
}

var (
	cleanupMu sync.Mutex
	cleanups  []func()
)

// AtExit registers something to undo when the check ends, whatever the outcome.
func AtExit(f func()) {
	cleanupMu.Lock()
	defer cleanupMu.Unlock()
	cleanups = append(cleanups, f)
}

func runCleanups() {
	cleanupMu.Lock()
	fs := cleanups
	cleanups = nil
	cleanupMu.Unlock()
	for i := len(fs) - 1; i >= 0; i-- {
		fs[i]()
	}
}

// Root is the directory of /verif, whose evidence directory is written.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Begin starts a check.
func Begin(id, level, rule string) *Run {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Run{ID: id, Tier: tier, Seed: seed, Level: level, Rule: rule, t0: time.Now(),
		distinct: map[uint64]struct{}{}, counters: map[string]*int64{}, facts: map[string]any{}}

	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-ch
		runCleanups()
		os.Exit(3)
	}()

	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	time.AfterFunc(limit, func() {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "check %s did not finish in %s\n%s\n", id, limit, buf)
		runCleanups()
		os.Exit(2)
	})
	return r
}

// Thorough reports if the deep exploration was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks the amount of work for the tier.
func (r *Run) N(quick, thorough int) int {
	n := quick
	if r.Thorough() {
		n = thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" { // only used while developing
		f, _ := strconv.ParseFloat(s, 64)
		if n = int(float64(n) * f); n < 1 {
			n = 1
		}
	}
	return n
}

// Waits lists the long waits of the tier.
func (r *Run) Waits() []time.Duration {
	ms := []int{1200, 2300, 3400, 5600, 11000}
	if r.Thorough() {
		ms = append(ms, 16000, 31000, 62000, 125000)
	}
	if os.Getenv("VERIF_SCALE") != "" && r.N(100, 100) < 100 {
		ms = ms[:2]
	}
	var ds []time.Duration
	for _, m := range ms {
		ds = append(ds, time.Duration(m)*time.Millisecond)
	}
	return ds
}

// Patient runs fn for waits of some seconds, all at once and in the background, and returns what waits for them: the code under test
// must not give up where nothing says so.
func (r *Run) Patient(fn func(d time.Duration)) (wait func()) {
	var wg sync.WaitGroup
	for _, d := range r.Waits() {
		wg.Add(1)
		go func(d time.Duration) {
			defer wg.Done()
			fn(d)
			r.Count("long_waits", 1)
			r.Max("longest_wait_ms", int64(d/time.Millisecond))
		}(d)
	}
	return wg.Wait
}

// Rng returns an independent, reproducible source.
func (r *Run) Rng(parts ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, r.ID, r.Seed, parts)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Case counts one evaluation; sig identifies it for the count of distinct non-trivial ones ("" is trivial).
func (r *Run) Case(sig string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if sig != "" {
		h := fnv.New64a()
		h.Write([]byte(sig))
		r.distinct[h.Sum64()] = struct{}{}
	}
}

// Count adds to a named, measured quantity of the evidence.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	c, ok := r.counters[name]
	if !ok {
		c = new(int64)
		r.counters[name] = c
	}
	r.mu.Unlock()
	atomic.AddInt64(c, n)
}

// Max keeps the largest value of a measured quantity.
func (r *Run) Max(name string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if old, ok := r.facts[name].(int64); !ok || n > old {
		r.facts[name] = n
	}
}

// Fact records a measured value.
func (r *Run) Fact(name string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.facts[name] = v
}

// Sample keeps up to six cases, written out.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// WantSample reports if another sample would be kept.
func (r *Run) WantSample() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.samples) < 6
}

// Assume notes an assumption.
func (r *Run) Assume(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.assume = append(r.assume, s)
}

func (r *Run) writeEvidence(violations int) {
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": int64(len(r.distinct)) + r.bulk,
		"rule":                r.Rule,
		"samples":             r.samples,
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	obs := map[string]any{}
	for k, v := range r.counters {
		obs[k] = atomic.LoadInt64(v)
	}
	for k, v := range r.facts {
		obs[k] = v
	}
	cov["observed"] = obs
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"assumptions": r.assume, "wall_s": float64(time.Since(r.t0).Milliseconds()) / 1000, "violations": violations,
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(Root(), "evidence")
	_ = os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		b, _ = json.Marshal(map[string]any{"property": r.ID, "error": err.Error()})
	}
	_ = os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0644)
}

// End reports that the property held on everything explored.
func (r *Run) End() {
	r.mu.Lock()
	if r.done {
		r.mu.Unlock()
		select {}
	}
	r.done = true
	if os.Getenv("VERIF_NO_EVIDENCE") == "" {
		r.writeEvidence(0)
	}
	names := []string{}
	for k := range r.counters {
		names = append(names, k)
	}
	sort.Strings(names)
	s := ""
	for _, k := range names {
		s += fmt.Sprintf(" %s=%d", k, *r.counters[k])
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs%s\n", r.ID, r.evals, int64(len(r.distinct))+r.bulk, time.Since(r.t0).Seconds(), s)
	r.mu.Unlock()
	runCleanups()
	os.Exit(0)
}

// Violate reports a violation and ends the check.
func (r *Run) Violate(replay any, format string, args ...any) {
	r.mu.Lock()
	if r.done {
		r.mu.Unlock()
		select {}
	}
	r.done = true
	msg := fmt.Sprintf(format, args...)
	dir := filepath.Join(Root(), "evidence", "replay")
	_ = os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%s.json", r.ID, r.Seed, r.Tier))
	b, err := json.MarshalIndent(map[string]any{"property": r.ID, "seed": r.Seed, "tier": r.Tier, "what": msg, "case": replay}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%s\n%+v\n", msg, replay))
	}
	_ = os.WriteFile(path, append(b, '\n'), 0644)
	r.writeEvidence(1)
	fmt.Printf("%s\n", clip(msg, 2000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
	runCleanups()
	os.Exit(1)
}

// Infra ends the check without a verdict: the sandbox, not the code, failed.
func (r *Run) Infra(format string, args ...any) {
	r.mu.Lock()
	if r.done {
		r.mu.Unlock()
		select {}
	}
	r.done = true
	fmt.Fprintf(os.Stderr, "check %s cannot run: %s\n", r.ID, fmt.Sprintf(format, args...))
	r.mu.Unlock()
	runCleanups()
	os.Exit(2)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// Clip shortens a text for messages.
func Clip(s string, n int) string { return clip(s, n) }

// Q quotes a byte string for messages and replays.
func Q(s string) string { return clip(strconv.QuoteToASCII(s), 300) }

// Scratch makes a scratch directory that is removed when the check ends.
func (r *Run) Scratch() string {
	d, err := os.MkdirTemp("", "verif-"+r.ID+"-")
	if err != nil {
		r.Infra("scratch directory: %v", err)
	}
	AtExit(func() { _ = os.RemoveAll(d) })
	return d
}

// Parallel runs fn(0..workers-1) concurrently.
func Parallel(workers int, fn func(w int)) {
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			fn(w)
		}(w)
	}
	wg.Wait()
}

// Within runs fn and reports if it returned in time.
func Within(d time.Duration, fn func()) bool {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		fn()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

// Stacks dumps all goroutines of the harness process.
func Stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// Bulk counts evaluations that are distinct by construction, of which some are non-trivial.
func (r *Run) Bulk(evals, nontrivial int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals += evals
	r.bulk += nontrivial
}
