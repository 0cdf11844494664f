package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lxdlam/vertex/pkg/network"

	"verif/vk"
)

func init() {
	checks["C15"] = check{"exploration",
		"connection objects over loopback TCP with a peer of the harness, scheduling perturbed. Churn: several goroutines read, write and close at random moments, with a reading, a stalled or a vanishing peer; exactly one close may " +
			"succeed, everything begun after it reports closed, everything in progress returns, and each write that succeeded before reaches a reading peer whole and in order. Expiry: random operation schedules; " +
			"the close must come at least the expiry time after the start of the last operation and must come, and schedules whose measured gaps stay under half the expiry time must never see it. " +
			"A case is one connection; all are non-trivial; distinct by the drawn schedule.",
		c15}
}

func tcpPair(r *vk.Run, l net.Listener) (net.Conn, net.Conn) {
	var peer net.Conn
	var err error
	done := make(chan struct{})
	go func() {
		defer close(done)
		peer, err = net.Dial("tcp", l.Addr().String())
	}()
	c, aerr := l.Accept()
	<-done
	if err != nil || aerr != nil {
		r.Infra("loopback connection: %v %v", err, aerr)
	}
	return c, peer
}

func c15(r *vk.Run) {
	r.Assume("the peer leaves no unread input at the connection when it is closed; with some, TCP itself may discard what was written")
	r.Assume("one goroutine at a time reads from a connection")
	r.Assume("a farewell text that follows the written bytes is tolerated")
	n := r.N(1500, 60000)
	var mu sync.Mutex
	levels := r.Rng("levels")
	listeners := make(chan net.Listener, 16)
	for i := 0; i < 16; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			r.Infra("listen: %v", err)
		}
		listeners <- l
	}
	// connections nobody says an expiry time for are there for minutes
	type idleConn struct {
		conn network.Conn
		peer net.Conn
	}
	var idles []idleConn
	begun := time.Now()
	for i := 0; i < 8; i++ {
		l := <-listeners
		c, peer := tcpPair(r, l)
		listeners <- l
		idles = append(idles, idleConn{network.NewConn(c), peer})
	}
	defer func() {
		idle := time.Since(begun)
		for i, x := range idles {
			rep := map[string]any{"kind": "default expiry", "idle": idle.String()}
			if i%2 == 0 {
				go func() { _, _ = io.WriteString(x.peer, ":1\r\n") }()
				if o, err := x.conn.Read(); err != nil || o.String() != ":1\r\n" {
					r.Violate(rep, "a connection with the default expiry time that was idle for %s: read gives %v, %v", idle, o, err)
				}
			}
			if err := x.conn.Write("hello"); err != nil {
				r.Violate(rep, "a connection with the default expiry time that was idle for %s: write gives %v", idle, err)
			}
			if err := x.conn.Close(); err != nil {
				r.Violate(rep, "a connection with the default expiry time that was idle for %s: close gives %v", idle, err)
			}
			_ = x.peer.SetReadDeadline(time.Now().Add(hangLimit))
			b := make([]byte, 5)
			if _, err := io.ReadFull(x.peer, b); err != nil || string(b) != "hello" {
				r.Violate(rep, "the peer of a connection that was idle for %s gets %q, %v", idle, b, err)
			}
			_ = x.peer.Close()
		}
		if idle > time.Second {
			r.Count("connections_left_idle", int64(len(idles)))
			r.Max("seconds_idle", int64(idle/time.Second))
		}
	}()
	defer c15Volume(r, listeners)()
	var long sync.WaitGroup
	for i := 0; i < r.N(16, 200) && !raceBuild; i++ {
		rng := r.Rng("long", i)
		l := <-listeners
		c, peer := tcpPair(r, l)
		listeners <- l
		long.Add(1)
		go func() {
			defer long.Done()
			defer peer.Close()
			c15Expiry(r, rng, &note{}, c, peer, true)
		}()
	}
	defer long.Wait()
	defer patient(r, func(d time.Duration) { c15Late(r, d, listeners) })()
	var done int64
	cases(r, 16, n, func(k int, w *note) {
		if atomic.AddInt64(&done, 1)%50 == 0 {
			mu.Lock()
			perturb(levels)
			mu.Unlock()
		}
		l := <-listeners
		defer func() { listeners <- l }()
		rng := r.Rng("case", k)
		c, peer := tcpPair(r, l)
		defer peer.Close()
		switch rng.Intn(7) {
		case 6:
			if rng.Intn(4) == 0 {
				c15Garbage(r, rng, w, c, peer)
			} else {
				c15Leaving(r, rng, w, c, peer)
			}
		case 0, 1:
			c15Expiry(r, rng, w, c, peer, false)
		default:
			c15Churn(r, rng, w, c, peer)
		}
	})
	if r.N(1, 1) == 1 && !raceBuild {
		time.Sleep(300 * time.Millisecond)
		r.Fact("goroutines_at_the_end", runtime.NumGoroutine())
	}
}

// c15Late has reads and writes that the peer lets wait.
func c15Late(r *vk.Run, d time.Duration, listeners chan net.Listener) {
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"wait": d.String(), "stacks": vk.Clip(vk.Stacks(), 50000)}, "a peer that lets reads and writes wait for %s: %s", d, fmt.Sprintf(format, args...))
	}
	pair := func() (network.Conn, net.Conn) {
		l := <-listeners
		defer func() { listeners <- l }()
		c, peer := tcpPair(r, l)
		return network.NewConnWithExpire(c, time.Hour), peer
	}
	vk.Parallel(2, func(k int) {
		conn, peer := pair()
		defer peer.Close()
		if k == 0 { // the object comes in two parts
			_, _ = io.WriteString(peer, "*2\r\n$5\r\nhel")
			time.AfterFunc(d, func() { _, _ = io.WriteString(peer, "lo\r\n:7\r\n") })
			if !vk.Within(d+hangLimit, func() {
				if o, err := conn.Read(); err != nil || o.String() != "*2\r\n$5\r\nhello\r\n:7\r\n" {
					fail("read gives %v, %v", o, err)
				}
			}) {
				fail("a read has not returned")
			}
		} else { // more than the sockets hold
			text := string(bytes.Repeat([]byte("0123456789abcdef"), 1<<20))
			got := make(chan string)
			go func() {
				time.Sleep(d)
				b := make([]byte, len(text))
				_, _ = io.ReadFull(peer, b)
				got <- string(b)
			}()
			begun := time.Now()
			if !vk.Within(d+hangLimit, func() {
				if err := conn.Write(text); err != nil {
					fail("write gives %v after %s", err, time.Since(begun))
				}
			}) {
				fail("a write has not returned")
			}
			if <-got != text {
				fail("the peer does not get what was written")
			}
		}
		if err := conn.Close(); err != nil {
			fail("close gives %v", err)
		}
	})
	r.Case(fmt.Sprint("late", d))
}

func c15Churn(r *vk.Run, rng *rand.Rand, w *note, c net.Conn, peer net.Conn) {
	closers, writers, readers := 1+rng.Intn(4), rng.Intn(4), rng.Intn(2)
	kind := []string{"reading", "reading", "stalled", "vanishing"}[rng.Intn(4)]
	size := []int{5, 100, 5000, 200000}[rng.Intn(4)]
	closeAfter := time.Duration(rng.Intn(4000)) * time.Microsecond
	what := fmt.Sprintf("%d closers, %d writers of %d bytes, %d readers, peer %s, close after %s", closers, writers, size, readers, kind, closeAfter)
	w.set(what)
	if kind == "stalled" { // make writes block early
		_ = c.(*net.TCPConn).SetWriteBuffer(4096)
		_ = peer.(*net.TCPConn).SetReadBuffer(4096)
	}
	conn := network.NewConnWithExpire(c, time.Hour)
	var received bytes.Buffer
	peerDone := make(chan struct{})
	go func() {
		defer close(peerDone)
		switch kind {
		case "reading":
			_, _ = io.Copy(&received, peer)
		case "vanishing":
			time.Sleep(closeAfter / 2)
			_ = peer.Close()
		}
	}()
	var wg sync.WaitGroup
	var closeNil int32
	var closing atomic.Bool   // set before the first close begins
	var closedAt atomic.Int64 // time at which the first close was known to have returned
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"case": what, "stacks": vk.Clip(vk.Stacks(), 50000)}, "%s: %s", what, fmt.Sprintf(format, args...))
	}
	for i := 0; i < closers; i++ {
		d := closeAfter + time.Duration(rng.Intn(3)*rng.Intn(500))*time.Microsecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			closing.Store(true)
			err := conn.Close()
			if err == nil {
				atomic.AddInt32(&closeNil, 1)
			} else if !errors.Is(err, network.ErrConnIsClosed) {
				fail("close reports %v", err)
			}
			if !raceBuild {
				closedAt.CompareAndSwap(0, time.Now().UnixNano())
			}
			if !conn.IsClosed() {
				fail("IsClosed is false after a close")
			}
		}()
	}
	okWrites := make([]int, writers)
	for i := 0; i < writers; i++ {
		pause := time.Duration(rng.Intn(2)*rng.Intn(300)) * time.Microsecond
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for seq := 0; ; seq++ {
				after := !raceBuild && closedAt.Load() != 0
				err := conn.Write(message(i, seq, size))
				if err == nil {
					if after {
						fail("a write begun after the close succeeds")
					}
					if !closing.Load() { // what is still in progress at the close may follow the farewell
						okWrites[i]++
					}
				} else {
					if after && !errors.Is(err, network.ErrConnIsClosed) {
						fail("a write begun after the close reports %v", err)
					}
					return
				}
				if pause > 0 {
					time.Sleep(pause)
				}
			}
		}(i)
	}
	for i := 0; i < readers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if o, err := conn.Read(); err == nil {
				fail("a read returns %v, but nothing was sent", o)
			}
		}()
	}
	if !vk.Within(hangLimit, wg.Wait) {
		fail("operations in progress at the close have not returned for %s", hangLimit)
	}
	if !vk.Within(hangLimit, func() {
		if err := conn.Write("x"); !errors.Is(err, network.ErrConnIsClosed) {
			fail("a later write reports %v", err)
		}
		if o, err := conn.Read(); o != nil || !errors.Is(err, network.ErrConnIsClosed) {
			fail("a later read reports %v, %v", o, err)
		}
		if err := conn.Close(); !errors.Is(err, network.ErrConnIsClosed) {
			fail("a later close reports %v", err)
		}
	}) {
		fail("an operation after the close has not returned for %s", hangLimit)
	}
	// a vanished peer may lead the connection to close itself
	if closeNil > 1 || (closeNil == 0 && kind != "vanishing") {
		fail("%d closes succeed", closeNil)
	}
	if kind == "reading" {
		if !vk.Within(hangLimit, func() { <-peerDone }) {
			fail("the peer of a closed connection does not see the end")
		}
		if s := checkMessages(received.Bytes(), okWrites, size); s != "" {
			fail("%s", s)
		}
		for _, n := range okWrites {
			r.Count("writes_delivered", int64(n))
		}
	}
	r.Count("closes", int64(closers))
	r.Count("peer_"+kind, 1)
	if r.WantSample() {
		r.Sample(what)
	}
	r.Case(what)
}

// c15Leaving has the peer end the connection after some objects.
func c15Leaving(r *vk.Run, rng *rand.Rand, w *note, c, peer net.Conn) {
	n, half, late := rng.Intn(20), rng.Intn(2) == 0, rng.Intn(2) == 0
	what := fmt.Sprintf("a peer that leaves after %d objects, closes only its sending side: %v, the reader comes later: %v", n, half, late)
	w.set(what)
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"case": what, "stacks": vk.Clip(vk.Stacks(), 50000)}, "%s: %s", what, fmt.Sprintf(format, args...))
	}
	conn := network.NewConnWithExpire(c, time.Hour)
	send := func() {
		for i := 0; i < n; i++ {
			_, _ = fmt.Fprintf(peer, ":%d\r\n", i)
		}
		if half {
			_ = peer.(*net.TCPConn).CloseWrite()
		} else {
			_ = peer.Close()
		}
	}
	if late {
		send()
	} else {
		go send()
	}
	if !vk.Within(hangLimit, func() {
		for i := 0; i < n; i++ {
			o, err := conn.Read()
			if err != nil || o.String() != fmt.Sprintf(":%d\r\n", i) {
				fail("read %d gives %v, %v", i, o, err)
			}
		}
		if o, err := conn.Read(); o != nil || !errors.Is(err, network.ErrConnIsClosed) {
			fail("the read at the end gives %v, %v", o, err)
		}
	}) {
		fail("a read has not returned for %s", hangLimit)
	}
	limit := time.Now().Add(hangLimit)
	for !conn.IsClosed() {
		if time.Now().After(limit) {
			fail("not closed %s after the peer left", hangLimit)
		}
		time.Sleep(50 * time.Microsecond)
	}
	if err := conn.Close(); !errors.Is(err, network.ErrConnIsClosed) {
		fail("a close after that reports %v", err)
	}
	if half && !vk.Within(hangLimit, func() { _, _ = io.Copy(io.Discard, peer) }) {
		fail("the peer does not see the end")
	}
	r.Count("peers_that_left", 1)
	r.Case(what)
}

// c15Garbage has the peer send what is no object: the read fails, and reports a close only if there is one.
func c15Garbage(r *vk.Run, rng *rand.Rand, w *note, c, peer net.Conn) {
	n, garbage := rng.Intn(10), []string{"garbage\r\n", ":1x\r\n", "*x\r\n", "$5\r\nabcdefg\r\n", "*1\r\n?\r\n"}[rng.Intn(5)]
	what := fmt.Sprintf("%q after %d objects", garbage, n)
	w.set(what)
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"case": what, "stacks": vk.Clip(vk.Stacks(), 50000)}, "%s: %s", what, fmt.Sprintf(format, args...))
	}
	conn := network.NewConnWithExpire(c, time.Hour)
	for i := 0; i < n; i++ {
		_, _ = fmt.Fprintf(peer, ":%d\r\n", i)
	}
	_, _ = io.WriteString(peer, garbage)
	if !vk.Within(hangLimit, func() {
		for i := 0; i < n; i++ {
			o, err := conn.Read()
			if err != nil || o.String() != fmt.Sprintf(":%d\r\n", i) {
				fail("read %d gives %v, %v", i, o, err)
			}
		}
		o, err := conn.Read()
		if err == nil {
			fail("the read of it gives %v", o)
		}
		if errors.Is(err, network.ErrConnIsClosed) {
			for t0 := time.Now(); !conn.IsClosed(); time.Sleep(50 * time.Microsecond) {
				if time.Since(t0) > 5*time.Second {
					fail("the read of it reports %v, but the connection is open", err)
				}
			}
		}
		closed := conn.IsClosed()
		if err := conn.Close(); (err == nil) == closed {
			fail("closed %v, and then the close reports %v", closed, err)
		}
		if o, err := conn.Read(); o != nil || !errors.Is(err, network.ErrConnIsClosed) {
			fail("a read after the close gives %v, %v", o, err)
		}
	}) {
		fail("an operation has not returned for %s", hangLimit)
	}
	r.Count("malformed_objects_read", 1)
	r.Case(what)
}

// message is a text that names its writer and position.
func message(writer, seq, size int) string {
	b := make([]byte, size)
	head := fmt.Sprintf("<%d.%d>", writer, seq)
	n := copy(b, head)
	for i := n; i < size; i++ {
		b[i] = byte('a' + (writer*7+seq*3+i)%26)
	}
	if size < len(head) {
		return head
	}
	return string(b)
}

// checkMessages checks that all successful writes are there, whole and in each writer's order. What follows, at most
// one partial write per writer and a farewell, is not judged.
func checkMessages(got []byte, ok []int, size int) string {
	next := make([]int, len(ok))
	left := 0
	for _, n := range ok {
		left += n
	}
	for len(got) > 0 {
		var i, seq int
		if n, err := fmt.Sscanf(string(got[:min(len(got), 30)]), "<%d.%d>", &i, &seq); n != 2 || err != nil || i < 0 || i >= len(ok) {
			break
		}
		m := message(i, seq, size)
		if !bytes.HasPrefix(got, []byte(m)) {
			break
		}
		if seq != next[i] {
			return fmt.Sprintf("message %d of writer %d arrives when %d is due", seq, i, next[i])
		}
		next[i]++
		if seq < ok[i] {
			left--
		}
		got = got[len(m):]
	}
	if left > 0 {
		return fmt.Sprintf("%v writes succeeded, but only the first %v arrive whole, followed by %s", ok, next, vk.Q(string(got)))
	}
	return ""
}

func c15Expiry(r *vk.Run, rng *rand.Rand, w *note, c net.Conn, peer net.Conn, long bool) {
	expire := time.Duration(60+rng.Intn(200)) * time.Millisecond
	gap := expire / time.Duration(4+rng.Intn(6))
	ops := rng.Intn(30)
	slack := expire / 2
	if long { // many operations, and none of them can be missed
		expire = time.Duration(150+rng.Intn(150)) * time.Millisecond
		gap, slack = expire*6/10, expire*9/10
		ops = 70 + rng.Intn(70)
	}
	blocked := rng.Intn(2) == 0 // a read waits while the time passes
	what := fmt.Sprintf("expiry after %s, %d operations %s apart, blocked read at the end: %v", expire, ops, gap, blocked)
	w.set(what)
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"case": what, "stacks": vk.Clip(vk.Stacks(), 50000)}, "%s: %s", what, fmt.Sprintf(format, args...))
	}
	peerEOF := make(chan struct{})
	go func() {
		defer close(peerEOF)
		_, _ = io.Copy(io.Discard, peer)
	}()
	last := time.Now()
	conn := network.NewConnWithExpire(c, expire)
	valid := true
	for i := 0; i < ops; i++ {
		time.Sleep(gap)
		read := rng.Intn(2) == 0
		if read {
			if _, err := io.WriteString(peer, ":7\r\n"); err != nil {
				read = false
			}
		}
		begun := time.Now()
		var err error
		if read {
			_, err = conn.Read()
		} else {
			err = conn.Write("+x\r\n")
		}
		// the operation resets the time at some point before it returns
		if time.Since(last) > slack {
			valid = false // this machine was too slow for a verdict
		}
		if err != nil {
			if valid {
				fail("operation %d, %s after the one before, reports %v", i, begun.Sub(last), err)
			}
			break
		}
		last = begun
		if valid && conn.IsClosed() && time.Since(last) < slack {
			fail("closed right after operation %d", i)
		}
	}
	if valid {
		r.Count("schedules_without_a_long_gap", 1)
	} else {
		r.Count("schedules_too_slow_for_a_verdict", 1)
	}
	if blocked {
		last2 := time.Now()
		if !conn.IsClosed() {
			var err error
			if !vk.Within(hangLimit, func() { _, err = conn.Read() }) {
				fail("a read is blocked %s after the expiry", hangLimit)
			}
			if err == nil {
				fail("a read returns without input")
			}
			if valid && time.Since(last2) < expire && time.Since(last) < expire {
				fail("closed %s after the start of the last operation", time.Since(last))
			}
		}
	} else {
		limit := time.Now().Add(hangLimit)
		for !conn.IsClosed() {
			if time.Now().After(limit) {
				fail("not closed %s after the last operation", time.Since(last))
			}
			time.Sleep(2 * time.Millisecond)
		}
		if d := time.Since(last); d < expire {
			fail("closed %s after the start of the last operation", d)
		}
	}
	if !vk.Within(hangLimit, func() { <-peerEOF }) {
		fail("the peer of an expired connection does not see the end")
	}
	if err := conn.Write("x"); !errors.Is(err, network.ErrConnIsClosed) {
		fail("a write after the expiry reports %v", err)
	}
	if err := conn.Close(); !errors.Is(err, network.ErrConnIsClosed) {
		fail("a close after the expiry reports %v", err)
	}
	r.Count("expiries", 1)
	r.Case(what)
}
