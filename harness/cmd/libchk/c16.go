package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"

	"verif/vk"
)

func init() {
	checks["C16"] = check{"exploration",
		"data channels of random capacity and expiry time under several senders, receivers and closers with random delays and a perturbed schedule. Every send and receive is logged by its goroutine; the logs are then checked: " +
			"each received event was sent with success, once, each receiver sees each sender's events in order, without a close all successful sends are received, expiry takes at least the expiry time, and what begins after a close reports it; " +
			"an operation that never returns is a violation. A case is one channel; non-trivial if it has two senders, a buffer or a close; distinct by its drawn parameters.",
		c16}
}

func c16(r *vk.Run) {
	var mu sync.Mutex
	levels := r.Rng("levels")
	var done int64
	defer patient(r, func(d time.Duration) { c16Late(r, d) })()
	defer c16Volume(r)()
	cases(r, 12, r.N(12000, 600000), func(k int, w *note) {
		if atomic.AddInt64(&done, 1)%200 == 0 {
			mu.Lock()
			perturb(levels)
			mu.Unlock()
		}
		c16Case(r, r.Rng("case", k), w)
	})
}

// c16Late has sends, receives and buffered events wait for a long time.
func c16Late(r *vk.Run, d time.Duration) {
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"wait": d.String(), "stacks": vk.Clip(vk.Stacks(), 50000)}, "after %s: %s", d, fmt.Sprintf(format, args...))
	}
	event := concurrency.NewEvent("late", d, nil)
	receive := func(rc concurrency.Receiver) {
		if !vk.Within(d+hangLimit, func() {
			if e, err := rc.Receive(); err != nil || e != event {
				fail("receive gives %v, %v", e, err)
			}
		}) {
			fail("a receive has not returned %s after the send", hangLimit)
		}
	}
	send := func(s concurrency.Sender, want int) {
		if !vk.Within(d+hangLimit, func() {
			if got := s.Send(event); got != want {
				fail("send gives %d instead of %d", got, want)
			}
		}) {
			fail("a send has not returned after %s", d+hangLimit)
		}
	}
	vk.Parallel(5, func(k int) {
		switch k {
		case 0: // a receive waits
			rc, s := concurrency.NewDataChannelWithOption(0, time.Hour)
			time.AfterFunc(d, func() { send(s, concurrency.Success) })
			receive(rc)
		case 1: // a send waits
			rc, s := concurrency.NewDataChannelWithOption(0, time.Hour)
			time.AfterFunc(d, func() { receive(rc) })
			send(s, concurrency.Success)
		case 2: // a send expires, but not before its time
			rc, s := concurrency.NewDataChannelWithOption(0, d)
			begun := time.Now()
			send(s, concurrency.Expired)
			if took := time.Since(begun); took < d {
				fail("a send that may take that long expires after %s", took)
			}
			rc.Close()
			send(s, concurrency.Closed)
		case 3: // events wait in the buffer
			rc, s := concurrency.NewDataChannelWithOption(3, concurrency.DefaultExpireTime)
			for i := 0; i < 3; i++ {
				send(s, concurrency.Success)
			}
			time.Sleep(d)
			for i := 0; i < 3; i++ {
				receive(rc)
			}
		case 4: // a receive waits for the close
			rc, _ := concurrency.NewDataChannel()
			time.AfterFunc(d, rc.Close)
			if !vk.Within(d+hangLimit, func() {
				if e, err := rc.Receive(); e != nil || err != concurrency.ErrChannelClosed {
					fail("receive gives %v, %v at the close", e, err)
				}
			}) {
				fail("a receive has not returned %s after the close", hangLimit)
			}
		}
	})
	r.Case(fmt.Sprint("late", d))
}

type chanID struct{ sender, seq int }

type sendRec struct {
	result     int
	begun      time.Time
	took       time.Duration
	afterClose bool
}

func c16Case(r *vk.Run, rng *rand.Rand, w *note) {
	senders, receivers, closers := 1+rng.Intn(4), rng.Intn(4), 0
	if rng.Intn(2) == 0 {
		closers = 1 + rng.Intn(3)
	}
	size := []int{0, 0, 1, 2, 5, 50, -1}[rng.Intn(7)]
	expire := []time.Duration{time.Millisecond, 3 * time.Millisecond, concurrency.DefaultExpireTime, time.Hour, 0}[rng.Intn(5)]
	events := 1 + rng.Intn(30)
	if rng.Intn(60) == 0 { // large buffers, just enough of them
		size = []int{64, 100, 255, 256, 1000, 4096}[rng.Intn(6)]
		events = (size + rng.Intn(3)) / senders
		if rng.Intn(2) == 0 {
			receivers, closers, expire = 0, 0, []time.Duration{time.Hour, time.Millisecond}[rng.Intn(2)]
			events = size / senders
			if expire != time.Hour {
				events += rng.Intn(2)
			}
		}
	}
	full := rng.Intn(20) == 0 // exactly as many events as there is room for, and nobody receives
	if full {
		size = 1 + rng.Intn(4)
		receivers, closers, expire = 0, 0, time.Hour
		senders, events = 1, size
		if size > 1 && rng.Intn(2) == 0 {
			senders, events = size, 1
		}
		r.Count("buffers_filled_exactly", 1)
	}
	fixed := !full && rng.Intn(4) == 0
	if fixed {
		size, expire = 0, concurrency.DefaultExpireTime
	}
	if expire == time.Hour && receivers == 0 && closers == 0 && senders*events > size {
		receivers = 1
	}
	closeAfter := time.Duration(rng.Intn(3000)) * time.Microsecond
	recvDelay := rng.Intn(3) * rng.Intn(2) * 1000 // microseconds, now and then
	what := fmt.Sprintf("capacity %d, expiry %s, %d senders of %d events, %d receivers with delays up to %d us, %d closers after %s", size, expire, senders, events, receivers, recvDelay, closers, closeAfter)
	w.set(what)
	var rc concurrency.Receiver
	var sd concurrency.Sender
	if fixed {
		rc, sd = concurrency.NewDataChannel()
	} else {
		rc, sd = concurrency.NewDataChannelWithOption(size, expire)
	}
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"case": what, "stacks": vk.Clip(vk.Stacks(), 50000)}, "%s: %s", what, fmt.Sprintf(format, args...))
	}
	var closed atomic.Bool // set when a close has returned
	isClosed := func() bool { return !raceBuild && closed.Load() }
	sent := make([][]sendRec, senders)
	got := make([][]chanID, receivers)
	var sendWG, recvWG, closeWG sync.WaitGroup
	pause := func(g *rand.Rand, us int) {
		if us > 0 && g.Intn(4) == 0 {
			time.Sleep(time.Duration(g.Intn(us)) * time.Microsecond)
		}
	}
	for i := 0; i < senders; i++ {
		g := rand.New(rand.NewSource(rng.Int63()))
		sendWG.Add(1)
		go func(i int) {
			defer sendWG.Done()
			for k := 0; k < events; k++ {
				after := isClosed()
				e := concurrency.NewEvent("t", chanID{i, k}, nil)
				begun := time.Now()
				res := sd.Send(e)
				sent[i] = append(sent[i], sendRec{res, begun, time.Since(begun), after})
				pause(g, 500)
			}
		}(i)
	}
	var receivedTotal int64
	for i := 0; i < receivers; i++ {
		g := rand.New(rand.NewSource(rng.Int63()))
		recvWG.Add(1)
		go func(i int) {
			defer recvWG.Done()
			for {
				after := isClosed()
				e, err := rc.Receive()
				if err != nil {
					if e != nil || !errors.Is(err, concurrency.ErrChannelClosed) {
						fail("a receive gives %v, %v", e, err)
					}
					if closers == 0 && !closed.Load() {
						fail("a receive reports a close, but there was none")
					}
					return
				}
				if after {
					fail("a receive begun after the close returns event %v", e.Data())
				}
				id, ok := e.Data().(chanID)
				if !ok || id.sender < 0 || id.sender >= senders || e.Topic() != "t" || e.Error() != nil {
					fail("a receive returns an event that was never sent: %v", e)
				}
				got[i] = append(got[i], id)
				if !raceBuild {
					atomic.AddInt64(&receivedTotal, 1)
				}
				pause(g, recvDelay)
			}
		}(i)
	}
	for i := 0; i < closers; i++ {
		d := closeAfter + time.Duration(rng.Intn(2)*rng.Intn(300))*time.Microsecond
		closeWG.Add(1)
		go func() {
			defer closeWG.Done()
			time.Sleep(d)
			rc.Close()
			if !raceBuild {
				closed.Store(true)
			}
		}()
	}
	if !vk.Within(hangLimit, closeWG.Wait) {
		fail("a close has not returned for %s", hangLimit)
	}
	if !vk.Within(hangLimit, sendWG.Wait) {
		fail("a send has not returned for %s", hangLimit)
	}
	success := map[chanID]int{}
	results := [3]int{}
	for i := range sent {
		for k, s := range sent[i] {
			if s.result < 0 || s.result > 2 {
				fail("a send returns %d", s.result)
			}
			results[s.result]++
			switch s.result {
			case concurrency.Success:
				success[chanID{i, k}] = 0
			case concurrency.Expired:
				if s.took < expire {
					fail("send %d of sender %d reports expiry after %s", k, i, s.took)
				}
			case concurrency.Closed:
				if closers == 0 {
					fail("send %d of sender %d reports a close, but there was none", k, i)
				}
			}
			if s.afterClose && s.result != concurrency.Closed {
				fail("send %d of sender %d begun after the close returns %d", k, i, s.result)
			}
		}
	}
	if closers == 0 {
		if receivers > 0 && !raceBuild {
			limit := time.Now().Add(hangLimit)
			for atomic.LoadInt64(&receivedTotal) < int64(len(success)) {
				if time.Now().After(limit) {
					fail("%d of the %d events sent with success are received", receivedTotal, len(success))
				}
				time.Sleep(50 * time.Microsecond)
			}
		} else if receivers > 0 {
			time.Sleep(50 * time.Millisecond)
		} else if want := max(0, size); len(success) > want {
			fail("%d sends succeed without a receiver", len(success))
		} else if expire == time.Hour && len(success) != senders*events {
			fail("%d of %d sends succeed though there is room for all", len(success), senders*events)
		}
		closed.Store(true)
		rc.Close()
	}
	if !vk.Within(hangLimit, recvWG.Wait) {
		fail("a receive blocked at the close has not returned for %s", hangLimit)
	}
	for i := range got {
		last := map[int]int{}
		for _, id := range got[i] {
			n, ok := success[id]
			if !ok {
				fail("event %v is received, but its send did not report success", id)
			}
			if n > 0 {
				fail("event %v is received twice", id)
			}
			success[id] = 1
			if prev, seen := last[id.sender]; seen && prev >= id.seq {
				fail("receiver %d gets event %d of sender %d after event %d", i, id.seq, id.sender, prev)
			}
			last[id.sender] = id.seq
			r.Count("events_received", 1)
		}
	}
	if closers == 0 && receivers > 0 && !raceBuild {
		for id, n := range success {
			if n == 0 {
				fail("event %v was sent with success, but is not received", id)
			}
		}
	}
	// all of it is over
	if !vk.Within(hangLimit, func() {
		rc.Close()
		for i := 0; i < 4; i++ {
			if e, err := rc.Receive(); e != nil || !errors.Is(err, concurrency.ErrChannelClosed) {
				fail("a receive after the close gives %v, %v", e, err)
			}
			if res := sd.Send(concurrency.NewEvent("t", chanID{0, 0}, nil)); res != concurrency.Closed {
				fail("a send after the close returns %d", res)
			}
		}
	}) {
		fail("an operation after the close has not returned for %s", hangLimit)
	}
	r.Count("sends_success", int64(results[0]))
	r.Count("sends_closed", int64(results[1]))
	r.Count("sends_expired", int64(results[2]))
	sig := ""
	if senders > 1 || size > 0 || closers > 0 {
		sig = what
	}
	if r.WantSample() && receivers > 0 {
		r.Sample(map[string]any{"case": what, "success": results[0], "closed": results[1], "expired": results[2]})
	}
	r.Case(sig)
}
