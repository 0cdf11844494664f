package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/vk"
)

func init() { checks["C11"] = c11 }

func c11() {
	r := vk.Begin("C11", "fault_enumeration", "the database file of a random command sequence cut off at every byte and recovered by a real start: the contents must be a state of the "+
		"reference model, never an earlier one for a longer file, and move on exactly at the ends of records; after some cuts more is written and restarted twice. Also SIGKILL of the server under concurrent load, where "+
		"exactly a prefix of the execution order must be left, and a disk that is full from some byte on, for good or for a while, before a stop or a kill. A cut is non-trivial if the file was cut inside or after a record; distinct by file and offset.")
	files := int64(r.N(12, 260))
	var next int64
	vk.Parallel(workers(), func(wi int) {
		opt := vk.SrvOpt{Dir: r.Scratch()}
		s := vk.NewSrv(r, opt)
		for {
			i := atomic.AddInt64(&next, 1)
			if i > files {
				break
			}
			c11Cuts(r, s, i)
		}
		s.Kill()
	})
	kills := int64(r.N(64, 1500))
	next = 0
	vk.Parallel(workers(), func(wi int) {
		for {
			i := atomic.AddInt64(&next, 1)
			if i > kills {
				break
			}
			c11Kill(r, i)
		}
	})
	fulls := int64(r.N(120, 4000))
	next = 0
	vk.Parallel(workers(), func(wi int) {
		s := vk.NewSrv(r, vk.SrvOpt{Dir: r.Scratch()})
		for {
			i := atomic.AddInt64(&next, 1)
			if i > fulls {
				break
			}
			c11Full(r, &s, i)
		}
		s.Kill()
	})
	r.Assume("a crash leaves a prefix of the bytes written to the file: the file system is not made to reorder or lose what the process had written")
	r.End()
}

// recordEnds reads the framing of the file: 4 bytes of length, little endian, and the record. It is not used if it does not fit.
func recordEnds(b []byte) []int {
	ends := []int{0}
	p := 0
	for p < len(b) {
		if p+4 > len(b) {
			return nil
		}
		n := int(binary.LittleEndian.Uint32(b[p:]))
		if n <= 0 || p+4+n > len(b) {
			return nil
		}
		p += 4 + n
		ends = append(ends, p)
	}
	return ends
}

func c11Start(r *vk.Run, s *vk.Srv, file string, rep map[string]any) *vk.Client {
	if err := s.Start(vk.Cfg{DatabaseFile: file}, ""); err != nil {
		rep["crash"] = s.CrashReason()
		r.Violate(rep, "the server does not start: %v", err)
	}
	c, err := vk.Dial(s.Addr())
	if err != nil {
		rep["crash"] = s.CrashReason()
		r.Violate(rep, "cannot connect after the start: %v", err)
	}
	return c
}

func c11Stop(r *vk.Run, s *vk.Srv, c *vk.Client, rep map[string]any) {
	c.Close()
	if err := s.Stop(1); err != nil {
		rep["stacks"] = s.Stacks()
		r.Violate(rep, "stop: %v", err)
	}
}

func c11Cuts(r *vk.Run, s *vk.Srv, i int64) {
	rng := r.Rng("file", i)
	file := filepath.Join(s.Dir, fmt.Sprintf("base-%d", i))
	defer os.Remove(file)
	g := newGen(rng, "k:")
	g.keys = g.keys[:2]
	rep := map[string]any{"file": i}
	c := c11Start(r, s, file, rep)
	db := vk.NewDB()
	var all [][]string
	states := []string{db.Canon()}
	n := 12 + rng.Intn(20)
	for k := 0; k < n; k++ {
		x := g.anyCmd()
		for len(x) > 1 && x[1] == "" || vk.ReadOnly[strings.ToLower(x[0])] {
			x = g.anyCmd()
		}
		if rng.Intn(20) == 0 {
			x = []string{"SET", g.key(), strings.Repeat("B", rng.Intn(9000))}
		}
		all = append(all, x)
		rep["commands"] = quoteCmds(all)
		v, err := c.Do(x...)
		if err != nil {
			c02Died(r, s, fmt.Sprint(quoteCmd(x)), err)
		}
		if msg := db.Step(x, v); msg != "" {
			r.Violate(rep, "%q: %s", quoteCmd(x), msg)
		}
		if cn := db.Canon(); cn != states[len(states)-1] {
			states = append(states, cn)
		}
	}
	c11Stop(r, s, c, rep)
	full, err := os.ReadFile(file)
	if err != nil {
		r.Violate(rep, "no database file: %v", err)
	}
	ends := recordEnds(full)
	if ends != nil {
		r.Count("records", int64(len(ends)-1))
	}
	cutFile := filepath.Join(s.Dir, fmt.Sprintf("cut-%d", i))
	defer os.Remove(cutFile)
	at := 0 // index into states
	rec := 0
	atRec := 0 // the state at the last end of a record
	step := 1
	if len(full) > 6000 {
		step = len(full) / 4000
	}
	for b := 0; b <= len(full); b++ {
		near := ends == nil
		for ends != nil && rec+1 < len(ends) && ends[rec+1] <= b {
			rec++
			atRec = -1
		}
		if ends != nil {
			near = b-ends[rec] < 6 || rec+1 < len(ends) && ends[rec+1]-b < 3
		}
		if step > 1 && !near && b%step != 0 && b != len(full) {
			continue
		}
		if err := os.WriteFile(cutFile, full[:b], 0644); err != nil {
			r.Infra("%v", err)
		}
		rep["cut_at"] = b
		rep["file_size"] = len(full)
		c := c11Start(r, s, cutFile, rep)
		got, msg, err := vk.ReadDump(c, g.keys)
		if err != nil || msg != "" {
			rep["crash"] = s.CrashReason()
			r.Violate(rep, "file cut at byte %d of %d: %s %v", b, len(full), msg, err)
		}
		cn := got.Canon()
		k := at
		for k < len(states) && states[k] != cn {
			k++
		}
		if k == len(states) {
			r.Violate(rep, "file cut at byte %d of %d (records end at %v): the contents are those of no prefix that is at least as long as for the byte before:\n%s", b, len(full), ends, vk.Clip(cn, 1500))
		}
		if ends != nil {
			if atRec < 0 { // at the end of a record the state moves on by at most one change
				if k > at+1 {
					r.Violate(rep, "one record more, at byte %d, has the effect of %d commands", b, k-at)
				}
				atRec = k
			} else if k != atRec {
				r.Violate(rep, "file cut at byte %d of %d, inside a record (records end at %v): %d changes are recovered, %d at the end of the record before", b, len(full), ends, k, atRec)
			}
		}
		at = k
		r.Count("cuts_recovered", 1)
		sig := ""
		if b > 0 {
			sig = fmt.Sprintf("%d/%d", i, b)
		}
		r.Case(sig)
		if r.WantSample() && b == len(full)/3 {
			r.Sample(map[string]any{"commands": quoteCmds(all), "file_size": len(full), "cut_at": b, "changes_recovered": k, "of": len(states) - 1})
		}
		if rng.Intn(12) == 0 || near && rng.Intn(6) == 0 { // goes on from there
			var more [][]string
			for j, m := 0, 1+rng.Intn(5); j < m; j++ {
				x := g.anyCmd()
				for len(x) > 1 && x[1] == "" {
					x = g.anyCmd()
				}
				more = append(more, x)
				rep["written_after_recovery"] = quoteCmds(more)
				v, err := c.Do(x...)
				if err != nil {
					c02Died(r, s, fmt.Sprint(quoteCmd(x)), err)
				}
				if msg := got.Step(x, v); msg != "" {
					r.Violate(rep, "after recovery, %q: %s", quoteCmd(x), msg)
				}
			}
			for j := 0; j < 2; j++ {
				c11Stop(r, s, c, rep)
				c = c11Start(r, s, cutFile, rep)
				if msg, err := got.CheckDump(c, g.keys); err != nil || msg != "" {
					r.Violate(rep, "file cut at byte %d of %d, then written to and restarted %d times: %s %v", b, len(full), j+1, msg, err)
				}
			}
			delete(rep, "written_after_recovery")
			r.Count("continued_after_recovery", 1)
		}
		c11Stop(r, s, c, rep)
	}
	if at != len(states)-1 {
		r.Violate(rep, "the whole file gives %d of %d changes", at, len(states)-1)
	}
}

// c11Kill kills the server under load. Client k appends numbered tokens to its own key, some with MSET of two keys.
func c11Kill(r *vk.Run, i int64) {
	rng := r.Rng("kill", i)
	bin, level := "plain", 0
	if i%4 == 3 {
		bin, level = "yield", 10
	}
	s := vk.NewSrv(r, vk.SrvOpt{Bin: bin, Yield: level, Dir: r.Scratch()})
	file := filepath.Join(s.Dir, "db")
	rep := map[string]any{"case": i}
	n := 1 + rng.Intn(6)
	tokens := make([]int, n) // recovered so far
	type op struct{ sent, acked int64 }
	history := []string{}
	for round := 0; round < 2; round++ {
		c := c11Start(r, s, file, rep)
		s.StallSome(r, i, round)
		ops := make([][]op, n)
		t0 := time.Now()
		now := func() int64 { return int64(time.Since(t0)) }
		size := rng.Intn(60)
		if rng.Intn(6) == 0 {
			size = 3000 + rng.Intn(3000)
		}
		var wg sync.WaitGroup
		var ready sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			ready.Add(1)
			go func(k int) {
				defer wg.Done()
				cl, err := vk.Dial(s.Addr())
				ready.Done()
				if err != nil {
					return
				}
				defer cl.Close()
				cl.Timeout = 20 * time.Second
				pad := strings.Repeat("p", size)
				for j := tokens[k]; ; j++ {
					o := op{sent: now(), acked: -1}
					ops[k] = append(ops[k], o)
					if cl.Raw(vk.Cmd("RPUSH", fmt.Sprintf("list%d", k), fmt.Sprintf("%d.%s", j, pad), fmt.Sprintf("%d", j))) != nil {
						return
					}
					v, err := cl.Recv()
					if err != nil || v.T != ':' {
						if err == nil {
							r.Violate(rep, "RPUSH got %s", v)
						}
						return
					}
					if v.I != int64(2*(j+1)) {
						r.Violate(rep, "client %d: the length is %d after %d pushes of 2", k, v.I, j+1)
					}
					ops[k][len(ops[k])-1].acked = now()
				}
			}(k)
		}
		ready.Wait()
		wait := time.Duration(rng.Intn(40000)) * time.Microsecond
		clean := rng.Intn(4) == 0
		time.Sleep(wait)
		if clean { // killed in the middle of a shutdown
			_, _ = s.Call("signal", map[string]any{"N": int(syscall.SIGTERM)}, vk.OpTimeout)
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
		}
		if !s.Alive() {
			r.Violate(map[string]any{"crash": s.CrashReason()}, "the server process died under load")
		}
		s.Kill()
		wg.Wait()
		c.Close()
		history = append(history, fmt.Sprintf("%d clients, padding %d, killed after %s, while shutting down: %v", n, size, wait, clean))
		rep["rounds"] = history

		s = vk.NewSrv(r, vk.SrvOpt{Bin: bin, Yield: level, Dir: r.Scratch()})
		c = c11Start(r, s, file, rep)
		lost, sentTotal := 0, 0
		var last int64 // when the last recovered command was sent
		recovered := make([]int, n)
		for k := 0; k < n; k++ {
			v, err := c.Do("LRANGE", fmt.Sprintf("list%d", k), "0", "-1")
			if err != nil {
				c02Died(r, s, "LRANGE", err)
			}
			if len(v.A)%2 != 0 {
				r.Violate(rep, "a part of a push of client %d was recovered: %d elements", k, len(v.A))
			}
			for j := 0; j < len(v.A); j += 2 {
				num, _, _ := strings.Cut(v.A[j].S, ".")
				if num != fmt.Sprint(j/2) || v.A[j+1].S != num {
					r.Violate(rep, "client %d: element %d is %s, %s", k, j, v.A[j], v.A[j+1])
				}
			}
			recovered[k] = len(v.A) / 2
			if recovered[k] < tokens[k] {
				r.Violate(rep, "client %d: %d pushes recovered, %d after the recovery before", k, recovered[k], tokens[k])
			}
			m := recovered[k] - tokens[k]
			if m > len(ops[k]) {
				r.Violate(rep, "client %d: %d pushes recovered, %d sent", k, m, len(ops[k]))
			}
			if m > 0 && ops[k][m-1].sent > last {
				last = ops[k][m-1].sent
			}
			sentTotal += len(ops[k])
			lost += len(ops[k]) - m
		}
		for k := 0; k < n; k++ {
			for j := recovered[k] - tokens[k]; j < len(ops[k]); j++ {
				if a := ops[k][j].acked; a >= 0 && a < last {
					r.Violate(rep, "not a prefix: push %d of client %d was acknowledged %d ns before a push was sent that is recovered, and is itself lost", j, k, last-a)
				}
			}
		}
		r.Count("kills", 1)
		r.Count("pushes_sent", int64(sentTotal))
		r.Count("pushes_lost_in_crashes", int64(lost))
		r.Case(fmt.Sprint("kill", i, round, recovered))
		tokens = recovered
		if round == 1 || rng.Intn(2) == 0 { // written after the recovery, and kept by a clean restart
			v, err := c.Do("RPUSH", "after", "x")
			if err != nil || v.T != ':' {
				r.Violate(rep, "RPUSH after recovery: %s %v", v, err)
			}
			c11Stop(r, s, c, rep)
			c = c11Start(r, s, file, rep)
			if w, err := c.Do("LLEN", "after"); err != nil || w.I != v.I {
				r.Violate(rep, "written and cleanly persisted after a recovery: %s elements, now %s %v", v, w, err)
			}
			for k := 0; k < n; k++ {
				if w, err := c.Do("LLEN", fmt.Sprintf("list%d", k)); err != nil || w.I != int64(2*tokens[k]) {
					r.Violate(rep, "after recovery and a clean restart client %d has %s elements instead of %d %v", k, w, 2*tokens[k], err)
				}
			}
		}
		c11Stop(r, s, c, rep)
	}
	s.Kill()
	_ = os.RemoveAll(filepath.Dir(file))
	_ = os.RemoveAll(s.Dir)
}

// c11Full lets the database file not grow beyond some size, for good or for a while.
func c11Full(r *vk.Run, sp **vk.Srv, i int64) {
	s := *sp
	rng := r.Rng("full", i)
	file := filepath.Join(s.Dir, fmt.Sprintf("full-%d", i))
	defer os.Remove(file)
	g := newGen(rng, "k:")
	g.keys = g.keys[:2]
	rep := map[string]any{"case": i}
	limit := func(n int) {
		if _, err := s.Call("fsize", map[string]any{"N": n}, vk.OpTimeout); err != nil {
			r.Infra("%v", err)
		}
	}
	c := c11Start(r, s, file, rep)
	db := vk.NewDB()
	var all [][]string
	states := []string{db.Canon()}
	run := func(n int) {
		for k := 0; k < n; k++ {
			x := g.anyCmd()
			for len(x) > 1 && x[1] == "" {
				x = g.anyCmd()
			}
			if rng.Intn(8) == 0 {
				x = []string{"SET", g.key(), strings.Repeat("B", rng.Intn([]int{300, 300, 9000}[rng.Intn(3)]))}
			}
			all = append(all, x)
			rep["commands"] = quoteCmds(all)
			v, err := c.Do(x...)
			if err != nil {
				c02Died(r, s, fmt.Sprint(quoteCmd(x)), err)
			}
			if msg := db.Step(x, v); msg != "" {
				r.Violate(rep, "%q: %s", quoteCmd(x), msg)
			}
			if cn := db.Canon(); cn != states[len(states)-1] {
				states = append(states, cn)
			}
		}
	}
	size := rng.Intn(30000)
	rep["full_at"] = size
	limit(size)
	run(20 + rng.Intn(120))
	if rng.Intn(2) == 0 { // room again
		limit(-1)
		rep["room_again_after"] = len(all)
		run(10 + rng.Intn(60))
	}
	how := "stop"
	if rng.Intn(2) == 0 {
		how = "kill"
		s.Kill()
		c.Close()
		s = vk.NewSrv(r, vk.SrvOpt{Dir: s.Dir})
		*sp = s
	} else {
		c11Stop(r, s, c, rep)
		limit(-1)
	}
	fi, err := os.Stat(file)
	if err != nil {
		r.Violate(rep, "no database file: %v", err)
	}
	full := fi.Size() >= int64(size)
	c = c11Start(r, s, file, rep)
	got, msg, err := vk.ReadDump(c, g.keys)
	if err != nil || msg != "" {
		rep["crash"] = s.CrashReason()
		r.Violate(rep, "%s with a disk full at byte %d: %s %v", how, size, msg, err)
	}
	cn := got.Canon()
	k := 0
	for k < len(states) && states[k] != cn {
		k++
	}
	if k == len(states) {
		r.Violate(rep, "%s with a disk full at byte %d: the contents are those of no prefix of the %d commands:\n%s", how, size, len(all), vk.Clip(cn, 1500))
	}
	var more [][]string
	for j := 0; j < 2; j++ {
		for m := rng.Intn(4); m > 0; m-- {
			x := g.anyCmd()
			for len(x) > 1 && x[1] == "" {
				x = g.anyCmd()
			}
			more = append(more, x)
			rep["written_after_recovery"] = quoteCmds(more)
			v, err := c.Do(x...)
			if err != nil {
				c02Died(r, s, fmt.Sprint(quoteCmd(x)), err)
			}
			if msg := got.Step(x, v); msg != "" {
				r.Violate(rep, "after recovery, %q: %s", quoteCmd(x), msg)
			}
		}
		c11Stop(r, s, c, rep)
		c = c11Start(r, s, file, rep)
		if msg, err := got.CheckDump(c, g.keys); err != nil || msg != "" {
			r.Violate(rep, "%s with a disk full at byte %d, then written to and restarted %d times: %s %v", how, size, j+1, msg, err)
		}
	}
	c11Stop(r, s, c, rep)
	sig := ""
	if full {
		r.Count("full_disks_recovered", 1)
		sig = fmt.Sprint("full", i, size, k)
	}
	r.Case(sig)
}
