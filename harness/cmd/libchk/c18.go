package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"

	"verif/vk"
)

func init() {
	checks["C18"] = check{"exploration",
		"futures of tasks of random duration under concurrent cancels, gets, waits and limited waits at random moments with a perturbed schedule, and again after everything is over. All answers are logged and checked against one outcome: " +
			"exactly one or no cancel succeeds; if one does, everybody else is told so, else everybody gets the task's own result and error; nothing reports fulfilment before the task has ended, a timeout only after its time; the task runs once. " +
			"A case is one future; non-trivial if something is concurrent with the task; distinct by its drawn parameters.",
		c18}
}

func c18(r *vk.Run) {
	r.Assume("a limited wait may report a timeout on a future that is finished, once its time has passed")
	var mu sync.Mutex
	levels := r.Rng("levels")
	var done int64
	defer patient(r, func(d time.Duration) { c18Late(r, d) })()
	defer c18Volume(r)()
	cases(r, 12, r.N(200000, 10000000), func(k int, w *note) {
		if atomic.AddInt64(&done, 1)%1000 == 0 {
			mu.Lock()
			perturb(levels)
			mu.Unlock()
		}
		c18Case(r, r.Rng("case", k), w)
	})
}

// c18Late has futures that are waited for, fulfilled and cancelled late.
func c18Late(r *vk.Run, d time.Duration) {
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"wait": d.String(), "stacks": vk.Clip(vk.Stacks(), 50000)}, "a task of %s: %s", d, fmt.Sprintf(format, args...))
	}
	for _, cancelled := range []bool{false, true} {
		cancelled := cancelled
		release := make(chan struct{})
		ended := make(chan struct{})
		fut := concurrency.NewFuture(concurrency.NewTask(func() (any, error) {
			<-release
			defer close(ended)
			return d, nil
		}))
		want := error(nil)
		if cancelled {
			want = concurrency.ErrCancelled
		}
		var wg sync.WaitGroup
		for _, f := range []func() error{
			fut.Wait,
			func() error { return fut.WaitFor(d + time.Hour) },
			func() error {
				v, err := fut.Get()
				if err == nil && v != any(d) {
					fail("get gives %v", v)
				}
				return err
			},
		} {
			wg.Add(1)
			go func(f func() error) {
				defer wg.Done()
				if err := f(); err != want {
					fail("a get or wait gives %v instead of %v", err, want)
				}
			}(f)
		}
		begun := time.Now()
		if err := fut.WaitFor(d / 2); err != concurrency.ErrTimeout {
			fail("a wait of %s gives %v", d/2, err)
		}
		if took := time.Since(begun); took < d/2 {
			fail("a wait of %s gives up after %s", d/2, took)
		}
		time.Sleep(d / 2)
		if cancelled {
			if err := fut.Cancel(); err != nil {
				fail("cancel gives %v", err)
			}
		}
		close(release)
		<-ended
		if !vk.Within(hangLimit, wg.Wait) {
			fail("a get or wait has not returned after %s", hangLimit)
		}
		time.Sleep(50 * time.Millisecond)
		if err := fut.Wait(); err != want {
			fail("a later wait gives %v instead of %v", err, want)
		}
		r.Case(fmt.Sprint("late", d, cancelled))
	}
}

type futAnswer struct {
	op    string
	err   error
	val   any
	early bool // returned although the task had not ended
	limit time.Duration
	took  time.Duration
}

func c18Case(r *vk.Run, rng *rand.Rand, w *note) {
	moment := func() time.Duration { return time.Duration(rng.Intn(3)*rng.Intn(200)) * time.Microsecond }
	taskTime := moment()
	cancels, gets, waits, waitFors := 0, rng.Intn(3), rng.Intn(3), rng.Intn(3)
	if rng.Intn(3) > 0 {
		cancels = 1 + rng.Intn(4)
	}
	kind := rng.Intn(4)
	what := fmt.Sprintf("task of kind %d for %s, %d cancels, %d gets, %d waits, %d limited waits", kind, taskTime, cancels, gets, waits, waitFors)
	var wantVal any = &struct{ n int }{rng.Int()}
	wantErr := errors.New("the task's error")
	if kind == 0 {
		wantErr = nil
	}
	if kind == 1 {
		wantVal = nil
	}
	var runs int32
	var ended atomic.Bool
	body := func() (any, error) {
		atomic.AddInt32(&runs, 1)
		if taskTime > 0 {
			time.Sleep(taskTime)
		}
		if !raceBuild {
			ended.Store(true)
		}
		return wantVal, wantErr
	}
	task := concurrency.NewTask(body)
	counted := int32(1)
	switch {
	case kind == 0:
		task = concurrency.NewNoErrorTask(func() any { v, _ := body(); return v })
	case kind == 1 && taskTime == 0:
		task = concurrency.NewErrorTask(wantErr)
		ended.Store(true)
		counted = 0
	}
	type op struct {
		name string
		at   time.Duration
		d    time.Duration
	}
	var ops []op
	for i := 0; i < cancels; i++ {
		ops = append(ops, op{"cancel", moment(), 0})
	}
	for i := 0; i < gets; i++ {
		ops = append(ops, op{"get", moment(), 0})
	}
	for i := 0; i < waits; i++ {
		ops = append(ops, op{"wait", moment(), 0})
	}
	for i := 0; i < waitFors; i++ {
		d := time.Duration(rng.Intn(500)) * time.Microsecond
		if rng.Intn(2) == 0 {
			d = time.Hour
		}
		ops = append(ops, op{"waitfor", moment(), d})
	}
	for _, o := range ops {
		what += fmt.Sprintf(" %s@%s", o.name, o.at)
	}
	w.set(what)
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"case": what, "stacks": vk.Clip(vk.Stacks(), 50000)}, "%s: %s", what, fmt.Sprintf(format, args...))
	}
	fut := concurrency.NewFuture(task)
	do := func(o op) futAnswer {
		a := futAnswer{op: o.name, limit: o.d}
		begun := time.Now()
		switch o.name {
		case "cancel":
			a.err = fut.Cancel()
		case "get":
			a.val, a.err = fut.Get()
		case "wait":
			a.err = fut.Wait()
		case "waitfor":
			a.err = fut.WaitFor(o.d)
		}
		a.took = time.Since(begun)
		a.early = !raceBuild && !ended.Load()
		return a
	}
	answers := make([]futAnswer, len(ops))
	var wg sync.WaitGroup
	for i, o := range ops {
		wg.Add(1)
		go func(i int, o op) {
			defer wg.Done()
			if o.at > 0 {
				time.Sleep(o.at)
			}
			answers[i] = do(o)
		}(i, o)
	}
	if !vk.Within(hangLimit, wg.Wait) {
		fail("an operation has not returned for %s", hangLimit)
	}
	// now an outcome is sought, then everything again once the task is certainly over
	if !vk.Within(hangLimit, func() {
		answers = append(answers, do(op{name: "get"}))
		for i := 0; counted == 1 && i < 100000 && !(ended.Load() || raceBuild); i++ {
			time.Sleep(50 * time.Microsecond)
		}
		if rng.Intn(8) == 0 {
			time.Sleep(100 * time.Microsecond)
		}
		for _, n := range []string{"wait", "get", "cancel", "waitfor", "cancel", "get", "wait"} {
			answers = append(answers, do(op{name: n, d: time.Hour}))
		}
	}) {
		fail("an operation on a finished future has not returned for %s", hangLimit)
	}
	won := 0
	for _, a := range answers {
		if a.op == "cancel" && a.err == nil {
			won++
		}
	}
	if won > 1 {
		fail("%d cancels succeed", won)
	}
	cancelled := won == 1
	for i, a := range answers {
		if a.op == "waitfor" && errors.Is(a.err, concurrency.ErrTimeout) {
			if a.took < a.limit {
				fail("a wait limited to %s reports a timeout after %s", a.limit, a.took)
			}
			r.Count("timeouts", 1)
			continue
		}
		var ok bool
		switch {
		case cancelled && a.op == "cancel":
			ok = a.err == nil || errors.Is(a.err, concurrency.ErrCancelled)
		case cancelled:
			ok = errors.Is(a.err, concurrency.ErrCancelled) && a.val == nil
		case a.op == "cancel":
			ok = errors.Is(a.err, concurrency.ErrFulfilled) && !a.early
		case a.op == "get":
			ok = a.err == wantErr && a.val == wantVal && !a.early
			if counted == 0 {
				ok = a.err == wantErr && a.val == nil
			}
		default:
			ok = a.err == nil && !a.early
		}
		if !ok {
			fail("answer %d, a %s, is %v, %v (before the task's end: %v), but the future was cancelled: %v", i, a.op, a.val, a.err, a.early, cancelled)
		}
	}
	if n := atomic.LoadInt32(&runs); !raceBuild && n != counted && (ended.Load() || n > 1) {
		fail("the task runs %d times", n)
	}
	r.Count("answers", int64(len(answers)))
	if cancelled {
		r.Count("outcome_cancelled", 1)
	} else {
		r.Count("outcome_fulfilled", 1)
	}
	sig := ""
	if len(ops) > 0 {
		sig = what
	}
	if r.WantSample() {
		r.Sample(what)
	}
	r.Case(sig)
}
