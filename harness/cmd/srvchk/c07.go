package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"verif/vk"
)

func init() { checks["C07"] = c07 }

type c07Case struct {
	db   *vk.DB
	keys []string
	text []any
}

func c07() {
	r := vk.Begin("C07", "exploration", "every key name holds a string, a list, a hash and a set; random failing, read-only and writing commands follow, and after each one everything "+
		"under all names, including names of other sequences, is read and compared with the reference model; the server is restarted on its file in between and everything is compared again. "+
		"A sequence is non-trivial if at least one command failed, one only read and one wrote; distinct by its commands.")
	total := int64(r.N(1300, 20000))
	wait := late(r, vk.Cfg{DatabaseFile: "late"}, func(s *vk.Srv, d time.Duration) { c07Late(r, s, d) })
	var next int64
	vk.Parallel(workers(), func(wi int) {
		s := vk.NewSrv(r, vk.SrvOpt{})
		for gen := 0; ; gen++ {
			file := filepath.Join(s.Dir, fmt.Sprintf("db%d", gen))
			cfg := vk.Cfg{DatabaseFile: file}
			start := func() *vk.Client {
				if err := s.Start(cfg, ""); err != nil {
					r.Violate(map[string]any{"crash": s.CrashReason()}, "the server does not start: %v", err)
				}
				c, err := vk.Dial(s.Addr())
				if err != nil {
					r.Infra("dial: %v", err)
				}
				return c
			}
			c := start()
			var cases []*c07Case
			empty := &c07Case{db: vk.NewDB(), keys: []string{""}} // the empty key is one for all cases of this server
			over := false
			for k := 0; k < 12 && !over; k++ {
				i := atomic.AddInt64(&next, 1)
				if over = i > total; !over {
					cases = append(cases, c07Run(r, s, c, i, cases, empty))
				}
			}
			for round := 0; round < 2; round++ {
				c.Close()
				if err := s.Stop(1); err != nil {
					r.Violate(map[string]any{"stacks": s.Stacks()}, "stop: %v", err)
				}
				c = start()
				for _, x := range append(cases, empty) {
					msg, err := x.db.CheckDump(c, x.keys)
					if err != nil || msg != "" {
						r.Violate(map[string]any{"sequence": x.text, "restarts": round + 1, "crash": s.CrashReason()}, "contents after %d restarts: %s %v", round+1, msg, err)
					}
					r.Count("dumps_after_restart", 1)
				}
			}
			c.Close()
			_ = s.Stop(1)
			if over {
				break
			}
		}
		s.Kill()
	})
	c07Names(r)
	c07Missing(r)
	wait()
	r.End()
}

// c07Missing reads what does not exist, under ever new names, and looks at the memory of the server.
func c07Missing(r *vk.Run) {
	s := vk.NewSrv(r, vk.SrvOpt{})
	defer s.Kill()
	if err := s.Start(vk.Cfg{}, ""); err != nil {
		r.Infra("%v", err)
	}
	c, err := vk.Dial(s.Addr())
	if err != nil {
		r.Infra("dial: %v", err)
	}
	forms := [][]string{{"GET"}, {"MGET"}, {"EXISTS"}, {"STRLEN"}, {"GETRANGE", "", "0", "3"}, {"LLEN"}, {"LINDEX", "", "0"}, {"LRANGE", "", "0", "-1"}, {"HGET", "", "f"}, {"HMGET", "", "f", "g"},
		{"HEXISTS", "", "f"}, {"HKEYS"}, {"HVALS"}, {"HGETALL"}, {"HSTRLEN", "", "f"}, {"HLEN"}, {"SISMEMBER", "", "m"}, {"SMEMBERS"}, {"SCARD"}, {"SRANDMEMBER"}, {"SDIFF"}, {"SINTER"}, {"SUNION"},
		{"INCR"}, {"DECRBY", "", "3"}, {"LSET", "", "0", "v"}, {"RPUSH"}, {"HSET", "", "f"}, {"SADD"}, {"MSET", "", "v", "x"}}
	name := 0
	ask := func(form []string, n int) {
		for n > 0 {
			k := min(n, 500)
			n -= k
			var b strings.Builder
			for ; k > 0; k-- {
				name++
				x := append([]string(nil), form...)
				key := fmt.Sprint("missing", name)
				if len(x) == 1 {
					x = append(x, key)
				} else {
					x[1] = key
				}
				b.WriteString(vk.Cmd(x...))
			}
			if err := c.Raw(b.String()); err != nil {
				c02Died(r, s, fmt.Sprint(form), err)
			}
			for k := strings.Count(b.String(), "missing"); k > 0; k-- {
				if _, err := c.Recv(); err != nil {
					c02Died(r, s, fmt.Sprint(form), err)
				}
			}
		}
	}
	least := func() int64 {
		var low int64
		for j := 0; j < 4; j++ {
			st, err := s.Stats()
			if err != nil {
				r.Infra("%v", err)
			}
			if j == 0 || st.Heap < low {
				low = st.Heap
			}
		}
		return low
	}
	per := r.N(4000, 40000)
	for _, f := range forms {
		ask(f, 500)
	}
	for _, f := range forms {
		before := least()
		ask(f, per)
		grown := least() - before
		for j := 0; j < 20 && grown > int64(per)*50; j++ {
			time.Sleep(100 * time.Millisecond)
			grown = least() - before
		}
		if grown > int64(per)*50 {
			r.Violate(map[string]any{"command": f[0], "names": per}, "%s of %d names that do not exist takes %d bytes", f[0], per, grown)
		}
		r.Max("largest_heap_growth_per_missing_name_bytes", max(0, grown/int64(per)))
		r.Count("reads_and_failures_of_missing_names", int64(per))
	}
	c.Close()
}

func c07Run(r *vk.Run, s *vk.Srv, c *vk.Client, i int64, others []*c07Case, empty *c07Case) *c07Case {
	rng := r.Rng("case", i)
	g := newGen(rng, fmt.Sprintf("%d:", i))
	x := &c07Case{db: vk.NewDB(), keys: g.keys}
	prep := rng.Intn(12)
	n := prep + 25
	if len(others) > 0 { // keys of another sequence, which nothing may touch
		x.text = append(x.text, "other names are checked as well")
	}
	failed, readonly, wrote := 0, 0, 0
	for j := 0; j < n; j++ {
		var q req
		db := x.db
		switch y := rng.Intn(20); {
		case j < prep && j < 2 && g.big: // few elements are no test of what depends on their number
			k := g.key()
			if j == 0 {
				k = g.keys[0]
			}
			q.cmd = append([]string{[]string{"SADD", "SADD", "HSET", "RPUSH"}[rng.Intn(4)], k}, g.lots()...)
		case j < prep:
			q.cmd = []func(*gen) []string{(*gen).strCmd, (*gen).listCmd, (*gen).hashCmd, (*gen).setCmd}[rng.Intn(4)](g)
		case y < 5:
			q.cmd = g.badCmd()
		case y < 6:
			q.raw = g.badObject()
		case y < 7:
			q.cmd = g.emptyKey()
		case y < 8: // strings accept the empty key
			q.cmd = [][]string{{"SET", "", g.val()}, {"GET", ""}, {"APPEND", "", g.val()}, {"INCR", ""}, {"MSET", "", g.val()}, {"GETRANGE", "", "0", "3"}, {"MGET", "", ""}}[rng.Intn(7)]
			db = empty.db
		case y < 12: // commands that fail because of what is stored or of an argument that is no number
			k := g.key()
			q.cmd = [][]string{{"INCR", k}, {"DECR", k}, {"INCRBY", k, "9223372036854775807"}, {"DECRBY", k, "-9223372036854775808"}, {"INCRBY", k, "x"}, {"LSET", k, "99", "v"},
				{"LSET", k, "-99", "v"}, {"LTRIM", k, "a", "b"}, {"LREM", k, "z", g.val()}, {"LINSERT", k, "besides", g.val(), "v"}, {"SPOP", k, "many"}, {"SRANDMEMBER", k, "many"},
				{"LINDEX", k, "x"}, {"LRANGE", k, "0", "x"}, {"GETRANGE", k, "x", "0"}, {"MSET", k, "a", k}, {"HSET", k, "f"}, {"HSET", k, "f", "v", "g"}, {"MSET", g.key(), "a", g.key()}}[rng.Intn(19)]
		case y < 16: // reads, most of all those that combine keys
			k := g.key()
			for q.cmd == nil || !vk.ReadOnly[strings.ToLower(q.cmd[0])] {
				switch rng.Intn(3) {
				case 0:
					q.cmd = []string{[]string{"SDIFF", "SINTER", "SUNION"}[rng.Intn(3)], g.keys[0]}
					for n := rng.Intn(4); n > 0; n-- {
						q.cmd = append(q.cmd, g.key())
					}
				case 1:
					q.cmd = []string{[]string{"SRANDMEMBER", "SMEMBERS", "SCARD", "HGETALL", "HKEYS", "HVALS", "HLEN", "LLEN"}[rng.Intn(8)], k}
				default:
					q.cmd = g.anyCmd()
				}
			}
		default:
			q.cmd = g.anyCmd()
		}
		x.text = append(x.text, q.text())
		keys := x.keys
		if len(others) > 0 && rng.Intn(6) == 0 {
			o := others[rng.Intn(len(others))]
			if msg, err := o.db.CheckDump(c, o.keys); err != nil || msg != "" {
				r.Violate(map[string]any{"sequence": x.text, "sequence_of_the_other": o.text}, "contents of names that were not used: %s %v", msg, err)
			}
		}
		if err := c.Raw(q.bytes()); err != nil {
			c02Died(r, s, fmt.Sprint(q.text()), err)
		}
		v, err := c.Recv()
		if err != nil {
			c02Died(r, s, fmt.Sprint(q.text()), err)
		}
		var msg string
		if q.cmd != nil {
			msg = db.Step(q.cmd, v)
		} else if v.T != '-' {
			msg = "expected an error reply, got " + v.String()
		}
		if msg != "" {
			r.Violate(map[string]any{"sequence": x.text}, "%v: %s", q.text(), msg)
		}
		switch {
		case v.T == '-':
			failed++
		case vk.ReadOnly[strings.ToLower(q.cmd[0])]:
			readonly++
		default:
			wrote++
		}
		if j >= prep-1 {
			for _, y := range []*c07Case{{db: x.db, keys: keys}, empty} {
				if msg, err := y.db.CheckDump(c, y.keys); err != nil || msg != "" {
					r.Violate(map[string]any{"sequence": x.text}, "contents after %v -> %s: %s %v", q.text(), vk.Clip(v.String(), 200), msg, err)
				}
			}
			r.Count("dumps", 1)
		}
	}
	r.Count("failed_commands", int64(failed))
	r.Count("read_only_commands", int64(readonly))
	r.Count("writes", int64(wrote))
	sig := ""
	if failed > 0 && readonly > 0 && wrote > 0 {
		sig = fmt.Sprint(x.text)
	}
	r.Case(sig)
	if r.WantSample() {
		r.Sample(x.text)
	}
	return x
}
