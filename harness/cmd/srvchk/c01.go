package main

import (
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/vk"
)

func init() { checks["C01"] = c01 }

// one request of a client: a command, or raw bytes that are answered with an error
type req struct {
	cmd []string
	raw string
}

func (q req) bytes() string {
	if q.cmd != nil {
		return vk.Cmd(q.cmd...)
	}
	return q.raw
}

func (q req) text() any {
	if q.cmd != nil {
		return quoteCmd(q.cmd)
	}
	return vk.Q(q.raw)
}

func c01() {
	r := vk.Begin("C01", "exploration", "many clients at once, each pipelining a random script (commands of all kinds, unknown and malformed ones, requests that are not arrays, large values, "+
		"a growing APPEND that numbers the replies) in random fragments; a per-connection monitor judges each reply against the private model of that client and "+
		"unique sentinels decide loss and duplication. A client script is non-trivial if it had at least two requests in flight at once; distinct by script.")
	rounds := int64(r.N(240, 3000))
	wait := late(r, vk.Cfg{}, func(s *vk.Srv, d time.Duration) { c01Late(r, s, d) })
	waitBusy := c01Busy(r)
	waitMany := c01Many(r)
	replies := make(chan struct{})
	go func() {
		volume(r, "replies", false)
		close(replies)
	}()
	var next int64
	w := workers()
	vk.Parallel(w, func(wi int) {
		bin, level := "plain", 0
		if wi%2 == 1 {
			bin, level = "yield", 10+20*(wi/2)
		}
		s := vk.NewSrv(r, vk.SrvOpt{Bin: bin, Yield: level})
		if err := s.Start(vk.Cfg{}, ""); err != nil {
			r.Infra("%v", err)
		}
		for {
			i := atomic.AddInt64(&next, 1)
			if i > rounds {
				break
			}
			s.StallSome(r, i)
			c01Round(r, s, i)
		}
		r.Observe(s)
		s.Kill()
	})
	wait()
	waitBusy()
	waitMany()
	<-replies
	r.End()
}

func c01Round(r *vk.Run, s *vk.Srv, round int64) {
	rng := r.Rng("round", round)
	n := 1 + rng.Intn(30)
	per := 20 + rng.Intn(200)
	if rng.Intn(5) == 0 {
		n, per = 2, 1500
	}
	stop := make(chan struct{})
	var churn sync.WaitGroup
	churn.Add(1)
	go func() { // others come and go
		defer churn.Done()
		cr := rand.New(rand.NewSource(rng.Int63()))
		for k := 0; ; k++ {
			select {
			case <-stop:
				return
			default:
			}
			c, err := vk.Dial(s.Addr())
			if err != nil {
				return
			}
			_ = c.Raw(strings.Repeat(vk.Cmd("GET", "churn"), cr.Intn(20)))
			if cr.Intn(2) == 0 {
				_, _ = c.Do("SET", "churn", fmt.Sprint(k))
			}
			if cr.Intn(2) == 0 {
				c.Reset()
			} else {
				c.Close()
			}
			time.Sleep(time.Duration(cr.Intn(3000)) * time.Microsecond)
		}
	}()
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			c01Client(r, s, round, k, per)
		}(k)
	}
	wg.Wait()
	close(stop)
	churn.Wait()
}

func c01Client(r *vk.Run, s *vk.Srv, round int64, k, per int) {
	rng := r.Rng("client", round, k)
	prefix := fmt.Sprintf("%d.%d:", round, k)
	g := newGen(rng, prefix)
	var script []req
	for i := 0; i < per; i++ {
		switch x := rng.Intn(20); {
		case x < 8:
			script = append(script, req{cmd: []string{"APPEND", prefix + "n", "x"}})
		case x < 10:
			script = append(script, req{raw: g.badObject()})
		case x == 10 && rng.Intn(10) == 0:
			script = append(script, req{cmd: []string{"SET", g.key(), strings.Repeat("z", rng.Intn(300000))}})
		default:
			script = append(script, req{cmd: g.anyCmd()})
		}
	}
	c, err := vk.Dial(s.Addr())
	if err != nil {
		r.Violate(map[string]any{"stacks": s.Stacks()}, "cannot connect: %v", err)
	}
	defer c.Close()

	// the writer
	fail := make(chan error, 1)
	var sent int64
	go func() {
		wr := rand.New(rand.NewSource(rng.Int63()))
		mode := wr.Intn(4)
		var buf string
		flush := func() error {
			if mode == 0 && len(buf) < 3000 { // tiny fragments
				for len(buf) > 0 {
					n := 1 + wr.Intn(20)
					if n > len(buf) {
						n = len(buf)
					}
					if err := c.Raw(buf[:n]); err != nil {
						return err
					}
					buf = buf[n:]
					if wr.Intn(200) == 0 {
						time.Sleep(time.Millisecond)
					}
				}
				return nil
			}
			err := c.Raw(buf)
			buf = ""
			return err
		}
		for i, q := range script {
			buf += q.bytes()
			if i == len(script)-1 || mode == 3 && len(buf) > 200000 || mode != 3 && wr.Intn(8) == 0 {
				if err := flush(); err != nil {
					fail <- err
					return
				}
				atomic.StoreInt64(&sent, int64(i+1))
			}
		}
		fail <- nil
	}()

	db := vk.NewDB()
	inflight := int64(0)
	report := func(i int, what string, args ...any) {
		lo := i - 40
		if lo < 0 {
			lo = 0
		}
		var texts []any
		for _, q := range script[lo:min(i+3, len(script))] {
			texts = append(texts, q.text())
		}
		rep := map[string]any{"round": round, "client": k, "requests_around": texts, "index": i, "stacks": ""}
		if !s.Alive() {
			rep["crash"] = s.CrashReason()
		} else {
			rep["stacks"] = s.Stacks()
		}
		r.Violate(rep, "client %d.%d, reply to request %d of %d: %s", round, k, i, len(script), fmt.Sprintf(what, args...))
	}
	recv := func(i int) vk.Val {
		c.Timeout = 8 * time.Second
		if _, err := c.R.Peek(1); err == nil {
			v, err := c.Recv()
			if err != nil {
				report(i, "not a well-formed reply: %v (%s)", err, v)
			}
			return v
		}
		// a stall: a sentinel behind all requests shows if the reply was lost or is late
		_ = c.C.SetReadDeadline(time.Now().Add(8 * time.Second))
		_, err := c.R.Peek(1)
		if err != nil && vk.IsTimeout(err) && atomic.LoadInt64(&sent) == int64(len(script)) {
			_ = c.Raw(vk.Cmd("GET", prefix+"sentinel of a lost reply"))
		}
		c.Timeout = vk.ReplyTimeout
		v, err := c.Recv()
		if err != nil {
			report(i, "none: %v", err)
		}
		return v
	}
	for i, q := range script {
		_ = c.C.SetReadDeadline(time.Now().Add(10 * time.Second))
		v := recv(i)
		if f := atomic.LoadInt64(&sent) - int64(i); f > inflight {
			inflight = f
		}
		var msg string
		if q.cmd != nil {
			msg = db.Step(q.cmd, v)
		} else if v.T != '-' {
			msg = "expected an error reply, got " + vk.Clip(v.String(), 300)
		}
		if msg != "" {
			report(i, "%s", msg)
		}
	}
	if err := <-fail; err != nil {
		report(len(script), "the connection broke: %v", err)
	}
	c.Timeout = vk.ReplyTimeout
	for j := 0; j < 2; j++ {
		if j == 1 {
			time.Sleep(time.Duration(rng.Intn(4)) * time.Millisecond)
		}
		want := fmt.Sprintf("%ssentinel %d %d", prefix, j, rng.Int63())
		if err := c.Raw(vk.Cmd("SET", prefix+"sentinel", want) + vk.Cmd("GET", prefix+"sentinel")); err != nil {
			report(len(script), "the connection broke: %v", err)
		}
		for t := 0; t < 2; t++ {
			v, err := c.Recv()
			if err == io.EOF || err != nil {
				report(len(script), "no reply to a sentinel: %v", err)
			}
			if t == 0 && (v.T != '+' || v.S != "OK") || t == 1 && (v.T != '$' || v.S != want) {
				report(len(script), "an extra or wrong reply %s before the reply to the sentinel", v)
			}
		}
	}
	r.Count("replies_judged", int64(len(script)+4))
	r.Max("max_requests_in_flight_on_a_connection", inflight)
	sig := ""
	if inflight >= 2 {
		sig = prefix + fmt.Sprint(script)
	}
	r.Case(sig)
	if r.WantSample() && len(script) < 40 {
		var t []any
		for _, q := range script {
			t = append(t, q.text())
		}
		r.Sample(map[string]any{"client": prefix, "script": t, "in_flight": inflight})
	}
}
