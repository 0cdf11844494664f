package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/vk"
)

func init() { checks["C08"] = c08 }

// byte sequences that no continuation makes RESP
var notRESP = []string{"!x\r\n", "$abc\r\n", "*abc\r\n", ":xyz\r\n", "$-7\r\n", "\n", "*1\r\n!x\r\n", "GET a\r\n", "PING\r\n", "\r\n", "$\r\n", "*\r\n", ":\r\n", "*2\r\n$3\r\nGET\r\nx\r\n",
	"$1.5\r\n", "*9223372036854775808\r\n", "$9223372036854775808\r\n", "*1\r\n$-2\r\n", "\x00\x00\r\n", "\xff\r\n", "*1\r\n*1\r\n?\r\n", "{\"a\":1}\r\n",
	"*3\r\n$3\r\nSET\r\n$1\r\na\r\n@\r\n", "*1\r\n:1x\r\n", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "*1\r\n\n", "*x\r\n$3\r\nGET\r\n",
	"*1\r\n$2\r\nGETX\r\n", "*2\r\n$3\r\nGET\r\n$1\r\nkept\r\n", "*3\r\n$3\r\nSET\r\n$4\r\nkeptxx$1\r\nv\r\n", "*-2\r\n", "*1\r\n*-5\r\n", "*-9223372036854775808\r\n"}

func c08() {
	r := vk.Begin("C08", "exploration", "hostile connections (random bytes, mutated and truncated requests, huge lengths, deep nesting, every command with extreme arguments and all wrong types, "+
		"floods that are never read, resets at any byte, garbage on the replication port) next to clients whose every reply is judged by the reference model; bytes that cannot be RESP "+
		"must get the connection closed. A hostile connection is non-trivial if it sent at least one byte; distinct by what it sent.")
	total := int64(r.N(240, 2400))
	var next int64
	vk.Parallel(workers(), func(wi int) {
		bin, level := "plain", 0
		if wi%2 == 1 {
			bin, level = "yield", 20*wi
		}
		s := vk.NewSrv(r, vk.SrvOpt{Bin: bin, Yield: level, Env: []string{"GOMEMLIMIT=3GiB"}})
		cfg := vk.Cfg{}
		if wi%4 >= 2 { // with a file the commands are logged as well
			cfg = vk.Cfg{DatabaseFile: filepath.Join(s.Dir, "db"), EnableReplica: true}
		}
		if err := s.Start(cfg, ""); err != nil {
			r.Infra("%v", err)
		}
		// data that nobody touches again
		keep := &c08Canary{r: r, s: s, g: newGen(r.Rng("keep", wi), "kept:"), db: vk.NewDB()}
		keep.run(150, nil)
		for {
			i := atomic.AddInt64(&next, 1)
			if i > total {
				break
			}
			s.StallSome(r, i)
			c08Round(r, s, i, keep)
		}
		r.Observe(s)
		s.Kill()
	})
	r.End()
}

type c08Canary struct {
	r    *vk.Run
	s    *vk.Srv
	g    *gen
	db   *vk.DB
	c    *vk.Client
	seen []string // what the hostile connections sent last
	mu   *sync.Mutex
}

func (k *c08Canary) violate(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	rep := map[string]any{}
	if k.mu != nil {
		k.mu.Lock()
		rep["hostile_connections_sent"] = k.seen
	}
	time.Sleep(300 * time.Millisecond)
	if !k.s.Alive() {
		rep["crash"] = k.s.CrashReason()
		msg += "; the server process died: " + vk.Clip(k.s.CrashReason(), 500)
	} else {
		rep["stacks"] = k.s.Stacks()
	}
	k.r.Violate(rep, "%s", msg)
}

// run executes random commands and judges them, n of them or until stop.
func (k *c08Canary) run(n int, stop chan struct{}) {
	for i := 0; ; i++ {
		if stop != nil {
			select {
			case <-stop:
				return
			default:
			}
		} else if i >= n {
			return
		}
		if k.c == nil || k.g.r.Intn(50) == 0 {
			if k.c != nil {
				k.c.Close()
			}
			c, err := vk.Dial(k.s.Addr())
			if err != nil {
				k.violate("another client cannot connect: %v", err)
			}
			k.c = c
		}
		cmd := k.g.anyCmd()
		for len(cmd) > 1 && cmd[1] == "" {
			cmd = k.g.anyCmd()
		}
		v, err := k.c.Do(cmd...)
		if err != nil {
			k.violate("another client's %q got no well-formed reply: %v", quoteCmd(cmd), err)
		}
		if msg := k.db.Step(cmd, v); msg != "" {
			k.violate("another client's %q: %s", quoteCmd(cmd), msg)
		}
		k.r.Count("replies_of_other_clients_judged", 1)
	}
}

func (k *c08Canary) dump() {
	if k.c != nil {
		k.c.Close()
	}
	c, err := vk.Dial(k.s.Addr())
	if err != nil {
		k.violate("another client cannot connect: %v", err)
	}
	k.c = c
	if msg, err := k.db.CheckDump(k.c, k.g.keys); err != nil || msg != "" {
		k.violate("data of another client: %s %v", msg, err)
	}
}

func c08Round(r *vk.Run, s *vk.Srv, round int64, keep *c08Canary) {
	stop := make(chan struct{})
	var mu sync.Mutex
	can := &c08Canary{r: r, s: s, g: newGen(r.Rng("canary", round), fmt.Sprintf("canary%d:", round)), db: vk.NewDB(), mu: &mu}
	note := func(what string) {
		mu.Lock()
		defer mu.Unlock()
		if len(can.seen) > 60 {
			can.seen = can.seen[30:]
		}
		can.seen = append(can.seen, vk.Q(what))
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		can.run(0, stop)
	}()
	vk.Parallel(6, func(w int) {
		rng := r.Rng("hostile", round, w)
		for j := 0; j < 25; j++ {
			c08Hostile(r, s, rng, can, note)
		}
	})
	close(stop)
	wg.Wait()
	can.dump()
	keep.mu, keep.seen = &mu, can.seen
	keep.dump()
	can.c.Close()
	if !s.Alive() {
		can.violate("the server process is gone")
	}
}

func c08Hostile(r *vk.Run, s *vk.Srv, rng *rand.Rand, can *c08Canary, note func(string)) {
	g := newGen(rng, "hostile:")
	addr := s.Addr()
	kind := rng.Intn(14)
	if kind == 12 {
		if s.Cfg.EnableReplica {
			addr = s.ReplicaAddr()
		} else {
			kind = 0
		}
	}
	c, err := vk.Dial(addr)
	if err != nil {
		can.violate("cannot connect: %v", err)
	}
	valid := func() string {
		var b strings.Builder
		for i, n := 0, 1+rng.Intn(6); i < n; i++ {
			switch rng.Intn(3) {
			case 0:
				b.WriteString(g.badObject())
			default:
				b.WriteString(vk.Cmd(g.anyCmd()...))
			}
		}
		return b.String()
	}
	leave := func() {
		switch rng.Intn(4) {
		case 0:
			c.Reset()
		case 1:
			if t, ok := c.C.(*net.TCPConn); ok {
				_ = t.CloseWrite()
			}
			_ = c.C.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
			_, _ = io.Copy(io.Discard, c.R)
			c.Close()
		case 2:
			_ = c.C.SetReadDeadline(time.Now().Add(time.Duration(rng.Intn(5)) * time.Millisecond))
			_, _ = io.Copy(io.Discard, c.R)
			c.Close()
		default:
			c.Close()
		}
	}
	c.Timeout = 2 * time.Second
	send := func(s string) {
		note(s)
		if rng.Intn(3) == 0 && len(s) < 2000 {
			for len(s) > 0 {
				n := min(1+rng.Intn(9), len(s))
				if c.Raw(s[:n]) != nil {
					return
				}
				s = s[n:]
			}
			return
		}
		_ = c.Raw(s)
	}
	sent := ""
	switch kind {
	case 0, 1: // random bytes, with a bias to those of the protocol
		b := make([]byte, 1+rng.Intn(300))
		rng.Read(b)
		if kind == 1 {
			for i := range b {
				b[i] = "*$+-:\r\n\r\n0123456789GETSx"[int(b[i])%24]
			}
		}
		sent = string(b)
		send(sent)
		leave()
	case 2, 3: // mutated requests
		b := []byte(valid())
		for i, n := 0, 1+rng.Intn(4); i < n && len(b) > 0; i++ {
			p := rng.Intn(len(b))
			switch rng.Intn(4) {
			case 0:
				b[p] ^= byte(1 << rng.Intn(8))
			case 1:
				b = append(b[:p], b[p+1:]...)
			case 2:
				b = append(b[:p], append([]byte{"*$+-:\r\n09"[rng.Intn(9)]}, b[p:]...)...)
			default:
				q := p + rng.Intn(len(b)-p)
				b = append(b, b[p:q]...)
			}
		}
		sent = string(b)
		send(sent)
		leave()
	case 4: // cut at any byte
		v := valid()
		sent = v[:rng.Intn(len(v)+1)]
		send(sent)
		leave()
	case 5: // huge lengths
		sent = []string{"$9223372036854775807\r\n", "$9223372036854775806\r\nabc", "$99999999999\r\nabc", "*9223372036854775807\r\n", "*2147483648\r\n$3\r\nGET\r\n", "*99999999999\r\n:1\r\n:1\r\n",
			"$-9223372036854775808\r\n", "*-9223372036854775808\r\n", "$4294967296\r\n", "*3\r\n$3\r\nSET\r\n$1\r\na\r\n$9223372036854775805\r\nzz", "*-2\r\n", "$2147483647\r\nx"}[rng.Intn(12)]
		if rng.Intn(2) == 0 {
			sent = valid() + sent
		}
		send(sent)
		leave()
	case 6: // deep nesting
		n := []int{5, 400, 511, 512, 513, 514, 2000, 100000, 1500000}[rng.Intn(9)]
		sent = fmt.Sprintf("nesting of %d", n)
		note(sent)
		_ = c.Raw(strings.Repeat("*1\r\n", n))
		if rng.Intn(2) == 0 {
			_ = c.Raw(":1\r\n")
		}
		leave()
	case 7, 8: // every command with extreme arguments, replies well-formed
		ext := []string{"-9223372036854775808", "9223372036854775807", "0", "-1", "1", "-9223372036854775807", "2147483648", "", "x", "\r\n", "-2147483649", "4294967296"}
		var cmds [][]string
		key := []string{"hostile", "", "hostile:x"}[rng.Intn(3)]
		for i, n := 0, 1+rng.Intn(30); i < n; i++ {
			if rng.Intn(3) == 0 {
				cmds = append(cmds, [][]string{{"SET", key, ext[rng.Intn(12)]}, {"RPUSH", key, "a", "b", ""}, {"HSET", key, "", "1"}, {"SADD", key, "a", ""}}[rng.Intn(4)])
			}
			x := []string{g.mixCase(allNames[rng.Intn(len(allNames))])}
			for j, m := 0, rng.Intn(6); j < m; j++ {
				if j == 0 && rng.Intn(5) > 0 {
					x = append(x, key)
				} else if strings.EqualFold(x[0], "linsert") && j == 1 {
					x = append(x, "before")
				} else {
					x = append(x, ext[rng.Intn(12)])
				}
			}
			cmds = append(cmds, x)
		}
		sent = fmt.Sprint(quoteCmds(cmds))
		note(sent)
		c.Timeout = vk.ReplyTimeout
		for _, x := range cmds {
			if _, err := c.Do(x...); err != nil {
				can.violate("%q got no well-formed reply: %v", quoteCmd(x), err)
			}
		}
		leave()
	case 13: // arguments of wrong types at any place, each answered with an error
		c.Timeout = vk.ReplyTimeout
		for i, n := 0, 1+rng.Intn(20); i < n; i++ {
			q := vk.Cmd([][]string{g.strCmd(), g.listCmd(), g.hashCmd(), g.setCmd()}[rng.Intn(4)]...)
			bad := rng.Intn(3) > 0
			if bad {
				q = g.badObject()
			}
			note(q)
			sent += q
			if c.Raw(q) != nil {
				can.violate("a connection that sent only well-formed requests, the last of them %s, was closed", vk.Q(q))
			}
			v, err := c.Recv()
			if err != nil {
				can.violate("%s got no well-formed reply: %v", vk.Q(q), err)
			}
			if bad && v.T != '-' {
				can.violate("%s, in which not everything is a text, got no error but %v", vk.Q(q), v)
			}
		}
		leave()
	case 9: // must be closed
		sent = notRESP[rng.Intn(len(notRESP))]
		if rng.Intn(3) == 0 {
			sent = valid() + sent
		}
		send(sent)
		_ = c.C.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
		if _, err := io.Copy(io.Discard, c.R); err != nil && vk.IsTimeout(err) {
			can.violate("a connection that sent %s, which is not RESP, is still open after %s", vk.Q(sent), vk.ReplyTimeout)
		}
		r.Count("connections_closed_for_garbage", 1)
		c.Close()
	case 10: // a flood that is not read, then gone
		one := vk.Cmd("LRANGE", "kept:x", "0", "-1") + vk.Cmd("SET", "hostile", strings.Repeat("f", 3000)) + vk.Cmd("GET", "hostile")
		sent = fmt.Sprintf("flood %d", rng.Intn(1000))
		note(sent)
		_ = c.Raw(strings.Repeat(one, 1+rng.Intn(150)))
		leave()
	case 11: // nothing at all, or one byte
		if rng.Intn(2) == 0 {
			sent = string([]byte{byte(rng.Intn(256))})
			send(sent)
		}
		leave()
	case 12: // the replication port
		b := make([]byte, rng.Intn(100))
		rng.Read(b)
		sent = "replication port " + string(b)
		send(string(b))
		leave()
	}
	r.Count("hostile_connections", 1)
	sig := ""
	if sent != "" {
		sig = sent
	}
	r.Case(sig)
	if len(sent) < 300 && sent != "" {
		r.Sample(vk.Q(sent))
	}
}
