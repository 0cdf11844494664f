package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/replication"

	"verif/vk"
)

func init() { checks["C13"] = c13 }

func c13() {
	r := vk.Begin("C13", "exploration", "real replicas that start against a real master: from a quiet master with random contents (must equal the reference model), from one whose clients write "+
		"(must hold everything acknowledged before the start and a prefix in execution order of the rest; raw transfers must be a prefix of the final file ending at a record), through a proxy that cuts the transfer at every byte (must be empty), "+
		"and from masters that stop or have no file (must return). A transfer is non-trivial if the master had data; distinct by contents and time or cut.")
	total := int64(r.N(200, 4000))
	wait := c13Late(r)
	waitBusy := c13Busy(r)
	c13Huge(r)
	var next int64
	vk.Parallel(workers(), func(wi int) {
		bin, level := "plain", 0
		if wi%2 == 1 {
			bin, level = "yield", 5+10*wi
		}
		m := vk.NewSrv(r, vk.SrvOpt{Bin: bin, Yield: level})
		rp := vk.NewSrv(r, vk.SrvOpt{})
		for {
			i := atomic.AddInt64(&next, 1)
			if i > total {
				break
			}
			m.StallSome(r, i)
			switch i % 5 {
			case 0:
				c13Quiet(r, m, rp, i)
			case 1, 2:
				c13Load(r, m, rp, i)
			case 3:
				c13Cut(r, m, rp, i)
			default:
				c13Gone(r, m, rp, i)
			}
		}
		r.Observe(m)
		m.Kill()
		rp.Kill()
	})
	wait()
	waitBusy()
	r.End()
}

func c13Fail(r *vk.Run, m, rp *vk.Srv, rep map[string]any, format string, args ...any) {
	for n, s := range map[string]*vk.Srv{"master": m, "replica": rp} {
		if !s.Alive() {
			rep[n+"_crash"] = s.CrashReason()
		} else {
			rep[n+"_stacks"] = s.Stacks()
		}
	}
	r.Violate(rep, format, args...)
}

// c13Replica starts a replica of the address and gives a connection to it.
func c13Replica(r *vk.Run, m, rp *vk.Srv, addr string, rep map[string]any) *vk.Client {
	file := filepath.Join(rp.Dir, fmt.Sprintf("replica-%d", rand.Int63()))
	err := rp.Start(vk.Cfg{DatabaseFile: file, MasterAddress: addr}, "")
	_ = os.Remove(file)
	if err != nil {
		c13Fail(r, m, rp, rep, "the replica does not start: %v", err)
	}
	c, err := vk.Dial(rp.Addr())
	if err != nil {
		c13Fail(r, m, rp, rep, "cannot connect to the replica: %v", err)
	}
	return c
}

func c13Stop(r *vk.Run, m, rp, s *vk.Srv, rep map[string]any) {
	if err := s.Stop(1); err != nil {
		c13Fail(r, m, rp, rep, "stop: %v", err)
	}
}

func c13Master(r *vk.Run, m, rp *vk.Srv, file string, rep map[string]any) *vk.Client {
	for try := 0; try < 5; try++ {
		if err := m.Start(vk.Cfg{DatabaseFile: file, EnableReplica: true}, ""); err != nil {
			c13Fail(r, m, rp, rep, "the master does not start: %v", err)
		}
		c, err := vk.Dial(m.Addr())
		if err != nil {
			c13Fail(r, m, rp, rep, "cannot connect to the master: %v", err)
		}
		for j := 0; j < 100; j++ {
			x, err := net.Dial("tcp", m.ReplicaAddr())
			if err == nil {
				_, _ = io.Copy(io.Discard, x)
				_ = x.Close()
				return c
			}
			time.Sleep(20 * time.Millisecond)
		}
		// something else may have taken the port, so try another one
		c.Close()
		c13Stop(r, m, rp, m, rep)
	}
	c13Fail(r, m, rp, rep, "the port for replicas is not open")
	return nil
}

// c13Fill executes random commands on the master and the model.
func c13Fill(r *vk.Run, m, rp *vk.Srv, c *vk.Client, g *gen, db *vk.DB, n int, rep map[string]any) {
	var all [][]string
	for len(all) < n {
		x := g.anyCmd()
		for len(x) > 1 && x[1] == "" {
			x = g.anyCmd()
		}
		all = append(all, x)
		rep["commands"] = quoteCmds(all)
		v, err := c.Do(x...)
		if err != nil {
			c13Fail(r, m, rp, rep, "no well-formed reply to %q: %v", quoteCmd(x), err)
		}
		if msg := db.Step(x, v); msg != "" {
			c13Fail(r, m, rp, rep, "%q: %s", quoteCmd(x), msg)
		}
	}
}

func c13Quiet(r *vk.Run, m, rp *vk.Srv, i int64) {
	rng := r.Rng("quiet", i)
	file := filepath.Join(m.Dir, fmt.Sprintf("db%d", i))
	defer os.Remove(file)
	rep := map[string]any{"kind": "quiet master"}
	c := c13Master(r, m, rp, file, rep)
	g, db := newGen(rng, "q:"), vk.NewDB()
	for k := 0; k < 6; k++ {
		c13Fill(r, m, rp, c, g, db, rng.Intn(40), rep)
		rc := c13Replica(r, m, rp, m.ReplicaAddr(), rep)
		if msg, err := db.CheckDump(rc, g.keys); err != nil || msg != "" {
			c13Fail(r, m, rp, rep, "the replica differs from the master: %s %v", msg, err)
		}
		rc.Close()
		c13Stop(r, m, rp, rp, rep)
		r.Count("replicas_of_a_quiet_master", 1)
		r.Case(fmt.Sprint("quiet", i, k, rep["commands"]))
	}
	if msg, err := db.CheckDump(c, g.keys); err != nil || msg != "" {
		c13Fail(r, m, rp, rep, "the master changed: %s %v", msg, err)
	}
	c.Close()
	c13Stop(r, m, rp, m, rep)
}

func c13Load(r *vk.Run, m, rp *vk.Srv, i int64) {
	rng := r.Rng("load", i)
	file := filepath.Join(m.Dir, fmt.Sprintf("db%d", i))
	defer os.Remove(file)
	rep := map[string]any{"kind": "master under load"}
	ctl := c13Master(r, m, rp, file, rep)
	n := 1 + rng.Intn(5)
	size := rng.Intn(50)
	if rng.Intn(4) == 0 {
		size = 2000 + rng.Intn(5000)
	}
	type op struct{ sent, acked int64 }
	ops := make([][]op, n)
	var mu sync.Mutex
	t0 := time.Now()
	now := func() int64 { return int64(time.Since(t0)) }
	var acked [16]int64
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			cl, err := vk.Dial(m.Addr())
			if err != nil {
				c13Fail(r, m, rp, rep, "cannot connect to the master: %v", err)
			}
			defer cl.Close()
			pad := strings.Repeat("p", size)
			for j := 0; ; j++ {
				select {
				case <-stop:
					return
				default:
				}
				mu.Lock()
				ops[k] = append(ops[k], op{now(), -1})
				mu.Unlock()
				v, err := cl.Do("RPUSH", fmt.Sprintf("list%d", k), fmt.Sprintf("%d.%s", j, pad), fmt.Sprint(j))
				if err != nil || v.T != ':' || v.I != int64(2*(j+1)) {
					c13Fail(r, m, rp, rep, "client %d of the master: push %d got %s %v", k, j, v, err)
				}
				mu.Lock()
				ops[k][j].acked = now()
				mu.Unlock()
				atomic.StoreInt64(&acked[k], int64(j+1))
			}
		}(k)
	}
	var raws [][]byte
	judge := func(c *vk.Client, before []int64, what string) {
		var last int64
		got := make([]int, n)
		mu.Lock()
		defer mu.Unlock()
		for k := 0; k < n; k++ {
			v, err := c.Do("LRANGE", fmt.Sprintf("list%d", k), "0", "-1")
			if err != nil {
				c13Fail(r, m, rp, rep, "no reply of the %s: %v", what, err)
			}
			if len(v.A)%2 != 0 {
				c13Fail(r, m, rp, rep, "the %s has a part of a push", what)
			}
			for j := 0; j < len(v.A); j += 2 {
				num, _, _ := strings.Cut(v.A[j].S, ".")
				if num != fmt.Sprint(j/2) || v.A[j+1].S != num {
					c13Fail(r, m, rp, rep, "element %d of client %d in the %s is %s, %s", j, k, what, v.A[j], v.A[j+1])
				}
			}
			got[k] = len(v.A) / 2
			if int64(got[k]) < before[k] {
				c13Fail(r, m, rp, rep, "the %s has %d pushes of client %d, %d were acknowledged before it connected", what, got[k], k, before[k])
			}
			if got[k] > len(ops[k]) {
				c13Fail(r, m, rp, rep, "the %s has %d pushes of client %d, %d were sent", what, got[k], k, len(ops[k]))
			}
			if got[k] > 0 && ops[k][got[k]-1].sent > last {
				last = ops[k][got[k]-1].sent
			}
		}
		for k := 0; k < n; k++ {
			for j := got[k]; j < len(ops[k]); j++ {
				if a := ops[k][j].acked; a >= 0 && a < last {
					c13Fail(r, m, rp, rep, "the %s is not a prefix: push %d of client %d is missing though acknowledged before one that it has was sent", what, j, k)
				}
			}
		}
		r.Case(fmt.Sprint(what, i, got))
		if r.WantSample() {
			r.Sample(map[string]any{"clients": n, "padding": size, "acknowledged_before": before, "pushes_in_the_" + what: got})
		}
	}
	snapshot := func() []int64 {
		var b []int64
		for k := 0; k < n; k++ {
			b = append(b, atomic.LoadInt64(&acked[k]))
		}
		return b
	}
	var rawLengths []int
	var rawMore sync.WaitGroup
	for x := 0; x < 2; x++ { // and many more that only their lengths are kept of
		rawMore.Add(1)
		go func() {
			defer rawMore.Done()
			for j := 0; j < 150; j++ {
				select {
				case <-stop:
					return
				default:
				}
				b, err := c13Raw(m.ReplicaAddr())
				if err != nil {
					c13Fail(r, m, rp, rep, "transfer: %v", err)
				}
				mu.Lock()
				rawLengths = append(rawLengths, len(b))
				mu.Unlock()
			}
		}()
	}
	for t := 0; t < 5; t++ {
		time.Sleep(time.Duration(rng.Intn(8000)) * time.Microsecond)
		rep["transfer"] = t
		var side sync.WaitGroup
		for x := 0; x < rng.Intn(6); x++ { // others at the same time
			side.Add(1)
			go func() {
				defer side.Done()
				b, err := c13Raw(m.ReplicaAddr())
				if err != nil {
					c13Fail(r, m, rp, rep, "transfer: %v", err)
				}
				mu.Lock()
				raws = append(raws, b)
				mu.Unlock()
			}()
		}
		before := snapshot()
		rc := c13Replica(r, m, rp, m.ReplicaAddr(), rep)
		judge(rc, before, "replica")
		rc.Close()
		side.Wait()
		c13Stop(r, m, rp, rp, rep)
		r.Count("replicas_of_a_master_under_load", 1)
	}
	close(stop)
	wg.Wait()
	rawMore.Wait()
	ctl.Close()
	c13Stop(r, m, rp, m, rep)
	final, _ := os.ReadFile(file)
	ends := map[int]bool{}
	for _, e := range recordEnds(final) {
		ends[e] = true
	}
	for _, l := range rawLengths {
		if len(ends) > 0 && !ends[l] {
			c13Fail(r, m, rp, rep, "a transfer of %d bytes ends inside a record", l)
		}
		r.Count("raw_transfers", 1)
		r.Case(fmt.Sprint("raw", i, l))
	}
	for _, b := range raws {
		if len(b) > len(final) || string(final[:len(b)]) != string(b) {
			c13Fail(r, m, rp, rep, "a transfer of %d bytes is not a prefix of the final file of %d bytes", len(b), len(final))
		}
		if len(ends) > 0 && !ends[len(b)] {
			c13Fail(r, m, rp, rep, "a transfer of %d bytes ends inside a record", len(b))
		}
		r.Count("raw_transfers", 1)
		r.Case(fmt.Sprint("raw", i, len(b)))
	}
}

// c13Raw receives a transfer: 4 bytes of length, little endian, and as many bytes.
func c13Raw(addr string) ([]byte, error) {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	_ = c.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
	b, err := io.ReadAll(bufio.NewReader(c))
	if err != nil {
		return nil, err
	}
	if len(b) < 4 || int(binary.LittleEndian.Uint32(b)) != len(b)-4 {
		return nil, fmt.Errorf("%d bytes, of which the first 4 do not tell the length", len(b))
	}
	return b[4:], nil
}

// c13Huge asks a master for a file that is longer than a transfer can tell: it must not pass off a part of it as all of it.
// The file is sparse and the master one without a server, which would have to read all of it.
func c13Huge(r *vk.Run) {
	dir, err := os.MkdirTemp("", "verif-huge-")
	if err != nil {
		r.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "huge")
	f, err := os.OpenFile(path, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0600)
	if err != nil {
		r.Infra("%v", err)
	}
	defer f.Close()
	for _, size := range []int64{1 << 32, 1<<32 + 100, 1<<33 + 4096} {
		if err := f.Truncate(size); err != nil { // no such file system
			return
		}
		port := vk.FreePort()
		m := replication.NewMaster(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
		if m == nil {
			r.Violate(map[string]any{"port": port}, "no master can be made on a free port")
		}
		m.SetFile(log.NewPersistentFile(f), path)
		m.Start()
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 20*time.Second)
		if err != nil {
			r.Violate(map[string]any{"port": port}, "the master cannot be reached: %v", err)
		}
		_ = c.SetReadDeadline(time.Now().Add(2 * vk.ReplyTimeout))
		in := bufio.NewReader(c)
		head := make([]byte, 4)
		wrong := ""
		if _, err := io.ReadFull(in, head); err == nil {
			told := int64(binary.LittleEndian.Uint32(head))
			if n, err := io.Copy(io.Discard, io.LimitReader(in, told)); err == nil && n == told && told < size {
				wrong = fmt.Sprintf("gets a transfer that is complete with %d bytes", told)
				_, _ = io.Copy(io.Discard, in) // until the master has cleaned up
			}
		} else if e, ok := err.(net.Error); ok && e.Timeout() {
			wrong = fmt.Sprintf("has got nothing for %s", 2*vk.ReplyTimeout)
		}
		c.Close()
		m.Stop()
		if wrong != "" {
			f.Close()
			_ = os.RemoveAll(dir)
			r.Violate(map[string]any{"size": size}, "the replica of a file of %d bytes %s", size, wrong)
		}
		r.Count("huge_files", 1)
		r.Case(fmt.Sprint("huge", size))
	}
}

// proxy forwards the first n bytes from the address and then ends the connection.
func proxy(addr string, n int, rst bool) (string, func(), *int64, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", nil, nil, err
	}
	total := new(int64)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				m, err := net.Dial("tcp", addr)
				if err != nil {
					return
				}
				defer m.Close()
				k, _ := io.Copy(c, io.LimitReader(m, int64(n)))
				atomic.AddInt64(total, k)
				if rst && n < 1<<30 {
					time.Sleep(time.Millisecond)
					_ = c.(*net.TCPConn).SetLinger(0)
				}
			}()
		}
	}()
	return l.Addr().String(), func() { _ = l.Close() }, total, nil
}

// lingering passes the whole transfer on and then leaves it to the replica to close the connection; the channel tells when it has not.
func lingering(addr string) (string, chan error, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", nil, err
	}
	res := make(chan error, 1)
	go func() {
		c, err := l.Accept()
		_ = l.Close()
		if err != nil {
			res <- nil
			return
		}
		defer c.Close()
		m, err := net.Dial("tcp", addr)
		if err != nil {
			res <- nil
			return
		}
		defer m.Close()
		_, _ = io.Copy(c, m)
		_ = c.SetReadDeadline(time.Now().Add(30 * time.Second))
		_, err = c.Read(make([]byte, 1))
		if e, ok := err.(net.Error); ok && e.Timeout() {
			res <- err
			return
		}
		res <- nil
	}()
	return l.Addr().String(), res, nil
}

func c13Cut(r *vk.Run, m, rp *vk.Srv, i int64) {
	rng := r.Rng("cut", i)
	file := filepath.Join(m.Dir, fmt.Sprintf("db%d", i))
	defer os.Remove(file)
	rep := map[string]any{"kind": "transfer cut off"}
	c := c13Master(r, m, rp, file, rep)
	g, db := newGen(rng, "q:"), vk.NewDB()
	c13Fill(r, m, rp, c, g, db, 3+rng.Intn(6), rep)
	x := []string{"SET", g.keys[0], "there"}
	v, err := c.Do(x...)
	if err != nil {
		c13Fail(r, m, rp, rep, "no reply: %v", err)
	}
	db.Step(x, v)
	raw, err := c13Raw(m.ReplicaAddr())
	if err != nil {
		c13Fail(r, m, rp, rep, "transfer: %v", err)
	}
	total := len(raw) + 4
	empty := vk.NewDB()
	step := 1 + total/600
	for cut := 0; cut <= total; cut++ {
		if step > 1 && cut%step != int(i)%step && cut > 8 && cut < total-3 {
			continue
		}
		rep["cut_at"] = cut
		rep["of"] = total
		rst := rng.Intn(3) == 0
		addr, done, _, err := proxy(m.ReplicaAddr(), cut, rst)
		if err != nil {
			r.Infra("%v", err)
		}
		rc := c13Replica(r, m, rp, addr, rep)
		done()
		want := empty
		if cut == total {
			want = db
		}
		if msg, err := want.CheckDump(rc, g.keys); err != nil || msg != "" {
			// A reset may overtake the last bytes, so everything or nothing may have arrived
			if rst && cut == total && err == nil {
				if m2, _ := empty.CheckDump(rc, g.keys); m2 == "" {
					msg = ""
				}
			}
			if err != nil || msg != "" {
				c13Fail(r, m, rp, rep, "transfer cut off after %d of %d bytes: %s %v", cut, total, msg, err)
			}
		}
		rc.Close()
		c13Stop(r, m, rp, rp, rep)
		r.Count("transfers_cut_off", 1)
		r.Case(fmt.Sprint("cut", i, cut))
	}
	// a master that keeps the connection open
	addr, res, err := lingering(m.ReplicaAddr())
	if err != nil {
		r.Infra("%v", err)
	}
	rep["cut_at"] = "not at all, the master leaves the connection open"
	rc := c13Replica(r, m, rp, addr, rep)
	if msg, err := db.CheckDump(rc, g.keys); err != nil || msg != "" {
		c13Fail(r, m, rp, rep, "a transfer whose connection stays open: %s %v", msg, err)
	}
	if err := <-res; err != nil {
		c13Fail(r, m, rp, rep, "30 s after its sync the replica still holds the connection to the master")
	}
	rc.Close()
	c13Stop(r, m, rp, rp, rep)
	r.Count("transfers_left_open_by_the_master", 1)
	r.Case(fmt.Sprint("open", i))
	c.Close()
	c13Stop(r, m, rp, m, rep)
}

// c13Gone has a master that stops or has nothing to send.
func c13Gone(r *vk.Run, m, rp *vk.Srv, i int64) {
	rng := r.Rng("gone", i)
	rep := map[string]any{"kind": "no file"}
	// no file
	if err := m.Start(vk.Cfg{EnableReplica: true}, ""); err != nil {
		c13Fail(r, m, rp, rep, "the master does not start: %v", err)
	}
	c, err := vk.Dial(m.Addr())
	if err != nil {
		c13Fail(r, m, rp, rep, "cannot connect: %v", err)
	}
	if _, err := c.Do("SET", "a", "1"); err != nil {
		c13Fail(r, m, rp, rep, "no reply: %v", err)
	}
	rc := c13Replica(r, m, rp, m.ReplicaAddr(), rep)
	if v, err := rc.Do("GET", "a"); err != nil || !v.Null {
		c13Fail(r, m, rp, rep, "a replica of a master without a file has %s %v", v, err)
	}
	rc.Close()
	c13Stop(r, m, rp, rp, rep)
	if v, err := c.Do("GET", "a"); err != nil || v.S != "1" {
		c13Fail(r, m, rp, rep, "the master has %s %v", v, err)
	}
	c.Close()
	c13Stop(r, m, rp, m, rep)
	r.Case(fmt.Sprint("nofile", i))

	// stopped in the middle of transfers
	rep = map[string]any{"kind": "stopped master"}
	file := filepath.Join(m.Dir, fmt.Sprintf("db%d", i))
	defer os.Remove(file)
	c = c13Master(r, m, rp, file, rep)
	big := strings.Repeat("b", 1<<20)
	n := 1 + rng.Intn(16)
	patient := rng.Intn(3) == 0 // a replica next to transfers that are held up
	held := 3
	if patient {
		n, held = 24, []int{3, 12, 40}[rng.Intn(3)] // more than the buffers take
	}
	for j := 0; j < n; j++ {
		if _, err := c.Do("SET", fmt.Sprint("big", j), big); err != nil {
			c13Fail(r, m, rp, rep, "no reply: %v", err)
		}
	}
	c.Close()
	var conns []net.Conn
	for j := 0; j < held; j++ {
		x, err := net.Dial("tcp", m.ReplicaAddr())
		if err != nil {
			c13Fail(r, m, rp, rep, "cannot connect: %v", err)
		}
		conns = append(conns, x)
		if j == 0 {
			_, _ = io.ReadFull(x, make([]byte, 100))
		}
	}
	started := make(chan *vk.Client, 1)
	go func() { started <- c13Replica(r, m, rp, m.ReplicaAddr(), rep) }()
	if patient {
		select {
		case rc := <-started:
			for j := 0; j < n; j++ {
				if v, err := rc.Do("STRLEN", fmt.Sprint("big", j)); err != nil || v.I != int64(len(big)) {
					c13Fail(r, m, rp, rep, "next to replicas that do not read, another has %s %v for value %d of %d", v, err, j, n)
				}
			}
			started <- rc
		case <-time.After(vk.ReplyTimeout):
			c13Fail(r, m, rp, rep, "next to replicas that do not read, another has not finished for %s", vk.ReplyTimeout)
		}
		r.Count("replicas_next_to_transfers_held_up", 1)
		r.Max("transfers_held_up", int64(held))
	}
	time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
	c13Stop(r, m, rp, m, rep)
	for j, x := range conns {
		_ = x.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
		if _, err := io.Copy(io.Discard, x); err != nil && vk.IsTimeout(err) {
			c13Fail(r, m, rp, rep, "transfer %d still open %s after the master stopped", j, vk.ReplyTimeout)
		}
		_ = x.Close()
	}
	rc = <-started
	got := 0
	for j := 0; j < n; j++ {
		v, err := rc.Do("STRLEN", fmt.Sprint("big", j))
		if err != nil {
			c13Fail(r, m, rp, rep, "no reply of the replica: %v", err)
		}
		if v.I == int64(len(big)) {
			got++
		} else if v.I != 0 {
			c13Fail(r, m, rp, rep, "the replica has a part of a value: %s", v)
		}
	}
	if got != 0 && got != n {
		c13Fail(r, m, rp, rep, "the master stopped during the transfer and the replica has %d of %d values", got, n)
	}
	r.Count("masters_stopped_in_transfer", 1)
	if got == 0 {
		r.Count("of_which_left_nothing", 1)
	}
	rc.Close()
	c13Stop(r, m, rp, rp, rep)
	r.Case(fmt.Sprint("stopped", i, got, n))
}
