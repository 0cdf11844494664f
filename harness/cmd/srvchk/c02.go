package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"verif/vk"
)

func init() { checks["C02"] = c02 }

func c02() {
	r := vk.Begin("C02", "exploration", "short histories of 3 to 6 concurrent clients over few keys, decided by a linearizability checker with the sequential reference "+
		"model as specification, and larger concurrent runs with exact conservation rules (distinct counter replies, every token at the place its reply told, each element popped "+
		"once, multi-key writes seen whole). A history is non-trivial if operations of different clients overlapped in time and one of them wrote; distinct by history and order of events.")
	total := int64(r.N(2400, 90000))
	var next int64
	vk.Parallel(workers(), func(wi int) {
		bin, level := "plain", 0
		if wi%2 == 1 {
			bin, level = "yield", 5+20*(wi/2)
		}
		s := vk.NewSrv(r, vk.SrvOpt{Bin: bin, Yield: level})
		if err := s.Start(vk.Cfg{}, ""); err != nil {
			r.Infra("%v", err)
		}
		var cs []*vk.Client
		for i := 0; i < 8; i++ {
			c, err := vk.Dial(s.Addr())
			if err != nil {
				r.Infra("dial: %v", err)
			}
			cs = append(cs, c)
		}
		for {
			i := atomic.AddInt64(&next, 1)
			if i > total {
				break
			}
			s.StallSome(r, i)
			if i%c02ScaleEvery == 0 {
				c02Scale(r, s, cs, i)
			} else {
				c02History(r, s, cs, i)
			}
		}
		r.Observe(s)
		s.Kill()
	})
	r.End()
}

type opIn struct {
	client int
	args   []string
}

type dbState struct {
	db    *vk.DB
	canon string
}

var storeModel = porcupine.Model{
	Init: func() interface{} {
		d := vk.NewDB()
		return dbState{d, d.Canon()}
	},
	Step: func(state, in, out interface{}) (bool, interface{}) {
		st := state.(dbState)
		i := in.(opIn)
		if vk.ReadOnly[strings.ToLower(i.args[0])] {
			return st.db.Step(i.args, out.(vk.Val)) == "", st
		}
		d := st.db.Clone()
		if d.Step(i.args, out.(vk.Val)) != "" {
			return false, st
		}
		return true, dbState{d, d.Canon()}
	},
	Equal: func(a, b interface{}) bool { return a.(dbState).canon == b.(dbState).canon },
	DescribeOperation: func(in, out interface{}) string {
		return fmt.Sprintf("%q -> %s", quoteCmd(in.(opIn).args), out.(vk.Val))
	},
}

// family of a command: keys of different families are different objects.
func family(name string) string {
	name = strings.ToLower(name)
	switch {
	case name == "get" || name == "set" || name == "mset" || name == "mget" || name == "exists" || name == "strlen" || name == "append" || name == "getrange" ||
		strings.HasPrefix(name, "incr") || strings.HasPrefix(name, "decr"):
		return "string"
	case name[0] == 'h':
		return "hash"
	case name[0] == 's':
		return "set"
	}
	return "list"
}

func c02Died(r *vk.Run, s *vk.Srv, what string, err error) {
	rep := map[string]any{"what": what}
	if s.Alive() {
		rep["stacks"] = s.Stacks()
	} else {
		rep["crash"] = s.CrashReason()
	}
	r.Violate(rep, "no well-formed reply to %s: %v", what, err)
}

func c02History(r *vk.Run, s *vk.Srv, cs []*vk.Client, i int64) {
	rng := r.Rng("history", i)
	n := 3 + rng.Intn(4)
	g := newGen(rng, fmt.Sprintf("%d:", i))
	g.keys = g.keys[:1+rng.Intn(len(g.keys))]
	g.vals = []string{"1", "2", "x", "0", ""}[:2+rng.Intn(3)]
	fams := []func(*gen) []string{(*gen).strCmd, (*gen).listCmd, (*gen).hashCmd, (*gen).setCmd}
	if rng.Intn(3) > 0 {
		fams = fams[rng.Intn(4):][:1]
	}
	per := 4 + rng.Intn(6)
	scripts := make([][][]string, n)
	for k := range scripts {
		for j := 0; j < per; j++ {
			x := fams[rng.Intn(len(fams))](g)
			for t := 0; t < 2 && vk.ReadOnly[strings.ToLower(x[0])] && rng.Intn(2) == 0; t++ {
				x = fams[rng.Intn(len(fams))](g)
			}
			scripts[k] = append(scripts[k], x)
		}
	}
	depth := 1
	if rng.Intn(3) == 0 {
		depth = 2 + rng.Intn(3)
	}
	// contents to begin with, written one after the other
	var ops []porcupine.Operation
	t0 := time.Now()
	now := func() int64 { return int64(time.Since(t0)) }
	for j := 0; j < 3; j++ {
		x := fams[rng.Intn(len(fams))](g)
		call := now()
		v, err := cs[0].Do(x...)
		if err != nil {
			c02Died(r, s, fmt.Sprint(quoteCmd(x)), err)
		}
		ops = append(ops, porcupine.Operation{ClientId: 0, Input: opIn{0, x}, Call: call, Output: v, Return: now()})
	}
	results := make([][]porcupine.Operation, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			for j := 0; j < per; j += depth {
				batch := scripts[k][j:min(j+depth, per)]
				var b strings.Builder
				for _, x := range batch {
					b.WriteString(vk.Cmd(x...))
				}
				call := now()
				if err := cs[k].Raw(b.String()); err != nil {
					c02Died(r, s, fmt.Sprint(quoteCmds(batch)), err)
				}
				for _, x := range batch {
					v, err := cs[k].Recv()
					if err != nil {
						c02Died(r, s, fmt.Sprint(quoteCmd(x)), err)
					}
					results[k] = append(results[k], porcupine.Operation{ClientId: k, Input: opIn{k, x}, Call: call, Output: v, Return: now()})
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	for _, x := range results {
		ops = append(ops, x...)
	}
	// what is left, read when all is quiet
	for _, k := range g.keys {
		for _, x := range vk.DumpCmds([]string{k})[:4] {
			call := now()
			v, err := cs[0].Do(x...)
			if err != nil {
				c02Died(r, s, fmt.Sprint(quoteCmd(x)), err)
			}
			ops = append(ops, porcupine.Operation{ClientId: 0, Input: opIn{0, x}, Call: call, Output: v, Return: now()})
		}
	}

	overlap, wrote := 0, false
	groups := map[string][]porcupine.Operation{}
	for a, x := range ops {
		in := x.Input.(opIn)
		f := family(in.args[0])
		if (f == "list" || f == "hash") && len(in.args) > 1 {
			f += in.args[1]
		}
		groups[f] = append(groups[f], x)
		wrote = wrote || !vk.ReadOnly[strings.ToLower(in.args[0])]
		for _, y := range ops[a+1:] {
			if x.ClientId != y.ClientId && x.Call < y.Return && y.Call < x.Return {
				overlap++
			}
		}
	}
	for f, grp := range groups {
		switch porcupine.CheckOperationsTimeout(storeModel, grp, 3*time.Second) {
		case porcupine.Illegal:
			sort.Slice(grp, func(a, b int) bool { return grp[a].Call < grp[b].Call })
			var text []string
			for _, o := range grp {
				text = append(text, fmt.Sprintf("client %d [%d,%d] %q -> %s", o.ClientId, o.Call, o.Return, quoteCmd(o.Input.(opIn).args), o.Output.(vk.Val)))
			}
			r.Violate(map[string]any{"history": i, "object": f, "operations": text}, "history %d of %d operations on %q is not linearizable:\n%s", i, len(grp), f, strings.Join(text, "\n"))
		case porcupine.Unknown:
			r.Count("histories_undecided_in_time", 1)
		default:
			r.Count("histories_linearizable", 1)
		}
	}
	r.Count("operations", int64(len(ops)))
	r.Count("overlapping_pairs", int64(overlap))
	sig := ""
	if overlap > 0 && wrote {
		sort.Slice(ops, func(a, b int) bool { return ops[a].Return < ops[b].Return })
		for _, o := range ops {
			sig += fmt.Sprint(o.ClientId, o.Input.(opIn).args, ";")
		}
	}
	r.Case(sig)
	if r.WantSample() && len(ops) < 30 {
		var text []string
		for _, o := range ops {
			text = append(text, fmt.Sprintf("client %d [%d,%d] %q -> %s", o.ClientId, o.Call, o.Return, quoteCmd(o.Input.(opIn).args), vk.Clip(o.Output.(vk.Val).String(), 100)))
		}
		r.Sample(text)
	}
}

// c02ScaleEvery tells how many histories there are for each larger run.
const c02ScaleEvery = 20

// c02Scale runs one of several concurrent programs whose outcome is known exactly.
func c02Scale(r *vk.Run, s *vk.Srv, cs []*vk.Client, i int64) {
	rng := r.Rng("scale", i)
	n := 2 + rng.Intn(len(cs)-1)
	per := 20 + rng.Intn(120)
	key := fmt.Sprintf("scale%d", i)
	kind := []string{"INCR", "APPEND", "LPOP", "SPOP", "MSET", "HSET", "RPUSH", "SADD", "register", "SETSUM", "MSET", "SUBSET", "reads"}[int(i/c02ScaleEvery)%13]
	// so many keys, fields or elements a command has
	wide := []int{3, 3, 5, 17, 33, 65, 130, 300, 1100, 2600}[rng.Intn(10)]
	if kind == "MSET" || kind == "HSET" || kind == "RPUSH" || kind == "SADD" || kind == "SETSUM" || kind == "reads" {
		per = max(6, min(per, 30000/wide/n))
		r.Max("widest_"+kind, int64(wide))
	}
	bad := func(format string, args ...any) {
		r.Violate(map[string]any{"program": kind, "clients": n, "operations_each": per, "key": key}, "%s by %d clients: %s", kind, n, fmt.Sprintf(format, args...))
	}
	do := func(k int, args ...string) vk.Val {
		v, err := cs[k].Do(args...)
		if err != nil {
			c02Died(r, s, fmt.Sprint(quoteCmd(args)), err)
		}
		return v
	}
	// pipe sends a client's operations in pipelined batches
	pipe := func(k int, cmds [][]string) []vk.Val {
		var out []vk.Val
		for len(cmds) > 0 {
			m := 1
			if k%2 == 1 {
				m = min(len(cmds), 7)
			}
			vs, err := cs[k].Pipe(cmds[:m])
			if err != nil {
				c02Died(r, s, fmt.Sprint(quoteCmds(cmds[:m])), err)
			}
			out = append(out, vs...)
			cmds = cmds[m:]
		}
		return out
	}
	rep := func(cmd []string) [][]string {
		var out [][]string
		for j := 0; j < per; j++ {
			out = append(out, cmd)
		}
		return out
	}
	var mu sync.Mutex
	switch kind {
	case "INCR":
		do(0, "SET", key, "0")
		seen := map[int64]int{}
		vk.Parallel(n, func(k int) {
			last := int64(0)
			for _, v := range pipe(k, rep([]string{"INCR", key})) {
				mu.Lock()
				seen[v.I]++
				if v.T != ':' || v.I <= last || seen[v.I] > 1 || v.I > int64(n*per) {
					bad("client %d got %s after %d, seen %d times", k, v, last, seen[v.I])
				}
				last = v.I
				mu.Unlock()
			}
		})
		if v := do(0, "GET", key); v.S != strconv.Itoa(n*per) {
			bad("the sum is %s, not %d", v, n*per)
		}
	case "APPEND":
		at := map[int64]string{}
		vk.Parallel(n, func(k int) {
			var cmds [][]string
			for j := 0; j < per; j++ {
				cmds = append(cmds, []string{"APPEND", key, fmt.Sprintf("<%d.%03d>", k, j)})
			}
			for j, v := range pipe(k, cmds) {
				mu.Lock()
				if _, ok := at[v.I]; ok {
					bad("two replies tell the length %d", v.I)
				}
				at[v.I] = cmds[j][2]
				mu.Unlock()
			}
		})
		v := do(0, "GET", key)
		if len(v.S) != 7*n*per {
			bad("the length is %d, not %d", len(v.S), 7*n*per)
		}
		for p, tok := range at {
			if p < 7 || int(p) > len(v.S) || v.S[p-7:p] != tok {
				bad("%s is not where its reply told: %d in %s", tok, p, vk.Q(v.S))
			}
		}
	case "LPOP", "SPOP":
		total := n * per
		cmd := []string{"RPUSH", key}
		if kind == "SPOP" {
			cmd[0] = "SADD"
		}
		for j := 0; j < total; j++ {
			cmd = append(cmd, strconv.Itoa(j))
		}
		do(0, cmd...)
		seen := map[string]int{}
		nils := 0
		vk.Parallel(n, func(k int) {
			last := -1
			pop := []string{kind, key}
			if kind == "LPOP" && k%3 == 2 {
				pop[0] = "RPOP"
				last = total
			}
			for _, v := range pipe(k, append(rep(pop), pop, pop)) {
				mu.Lock()
				if v.Null {
					nils++
				} else {
					seen[v.S]++
					x, _ := strconv.Atoi(v.S)
					if seen[v.S] > 1 {
						bad("%s was popped twice", v)
					}
					if kind == "LPOP" && (pop[0] == "LPOP" && x <= last || pop[0] == "RPOP" && x >= last) {
						bad("client %d popped %d after %d", k, x, last)
					}
					last = x
				}
				mu.Unlock()
			}
		})
		if len(seen) != total || nils != 2*n {
			bad("%d of %d elements were popped, %d nulls instead of %d", len(seen), total, nils, 2*n)
		}
	case "MSET", "HSET":
		var keys []string
		for j := 0; j < wide; j++ {
			keys = append(keys, fmt.Sprintf("%s:%d", key, j))
		}
		cmd := func(val string) []string {
			c := []string{"MSET"}
			if kind == "HSET" {
				c = []string{"HSET", key}
			}
			for _, f := range keys {
				c = append(c, f, val)
			}
			return c
		}
		read := append([]string{"MGET"}, keys...)
		if kind == "HSET" {
			read = append([]string{"HMGET", key}, keys...)
		}
		do(0, cmd("-")...)
		vk.Parallel(n, func(k int) {
			if k%2 == 1 || n == 2 && k == 0 {
				last := map[string]int{}
				for _, v := range pipe(k, rep(read)) {
					if len(v.A) != len(keys) {
						bad("read %s", v)
					}
					for _, x := range v.A {
						if x.Null || x.S != v.A[0].S {
							bad("a read saw a part of a write: %s", vk.Clip(v.String(), 2000))
						}
					}
					if w, j, ok := strings.Cut(v.A[0].S, "."); ok {
						x, _ := strconv.Atoi(j)
						if x < last[w] {
							bad("a read saw %s after %d of the same writer", v, last[w])
						}
						last[w] = x
					}
				}
				return
			}
			var cmds [][]string
			for j := 0; j < per; j++ {
				cmds = append(cmds, cmd(fmt.Sprintf("%d.%d", k, j)))
			}
			pipe(k, cmds)
		})
	case "RPUSH":
		vk.Parallel(n, func(k int) {
			if k%3 == 2 {
				for _, v := range pipe(k, rep([]string{"LRANGE", key, "0", "-1"})) {
					if len(v.A)%wide != 0 {
						bad("a read saw a part of a push: %d elements", len(v.A))
					}
				}
				return
			}
			var cmds [][]string
			for j := 0; j < per; j++ {
				e := fmt.Sprintf("%d.%d", k, j)
				cmd := []string{"RPUSH", key}
				for len(cmd) < wide+2 {
					cmd = append(cmd, e)
				}
				cmds = append(cmds, cmd)
			}
			for _, v := range pipe(k, cmds) {
				if v.T != ':' || v.I%int64(wide) != 0 {
					bad("pushed %d at once, the length is %s", wide, v)
				}
			}
		})
		v := do(0, "LRANGE", key, "0", "-1")
		last := map[string]int{}
		pushers := 0
		for k := 0; k < n; k++ {
			if k%3 != 2 {
				pushers++
				last[strconv.Itoa(k)] = -1
			}
		}
		if len(v.A) != wide*pushers*per {
			bad("%d elements, not %d", len(v.A), wide*pushers*per)
		}
		for j := 0; j < len(v.A); j += wide {
			for _, x := range v.A[j : j+wide] {
				if x.S != v.A[j].S {
					bad("elements pushed at once are not adjacent: %s %s", v.A[j], x)
				}
			}
			w, x, _ := strings.Cut(v.A[j].S, ".")
			num, _ := strconv.Atoi(x)
			if num != last[w]+1 {
				bad("%s after %d of the same client", v.A[j], last[w])
			}
			last[w] = num
		}
	case "SADD", "SETSUM":
		// members come and go together
		vk.Parallel(n, func(k int) {
			if k%2 == 1 || n == 2 && k == 0 {
				read := []string{"SMEMBERS", key}
				if kind == "SETSUM" {
					read = []string{"SUNION", key, key + "none", key}
				}
				for _, v := range pipe(k, rep(read)) {
					cnt := map[string]int{}
					for _, x := range v.A {
						w, _, _ := strings.Cut(x.S, ".")
						cnt[w]++
					}
					for w, c := range cnt {
						if c != wide {
							bad("a read saw %d of the %d members of client %s", c, wide, w)
						}
					}
				}
				return
			}
			var cmds [][]string
			for j := 0; j < per; j++ {
				name := "SADD"
				if j%2 == 1 {
					name = "SREM"
				}
				cmd := []string{name, key}
				for m := 0; m < wide; m++ {
					cmd = append(cmd, fmt.Sprintf("%d.%d", k, m))
				}
				cmds = append(cmds, cmd)
			}
			for j, v := range pipe(k, cmds) {
				if v.T != ':' || v.I != int64(wide) {
					bad("%s tells %s", cmds[j][0], v)
				}
			}
		})
	case "SUBSET":
		// what comes first into one set and leaves it last is never in the other set alone
		sets := []string{key}
		for j := 0; j < wide && j < 70; j++ {
			sets = append(sets, fmt.Sprintf("%s:%d", key, j))
		}
		first, last := sets[0], sets[len(sets)-1]
		vk.Parallel(n, func(k int) {
			if k%2 == 1 || n == 2 && k == 0 {
				read := []string{"SDIFF", last, first}
				if k%4 == 1 { // the ones between are empty or contain what the first contains
					read = append(append([]string{"SDIFF", last}, sets[1:len(sets)-1]...), first)
				}
				for _, v := range pipe(k, rep(read)) {
					if v.T != '*' || len(v.A) != 0 {
						bad("a difference saw two states: %s", vk.Clip(v.String(), 500))
					}
				}
				return
			}
			var cmds [][]string
			for j := 0; j < per; j++ {
				m := fmt.Sprintf("%d.%d", k, j%3)
				cmds = append(cmds, []string{"SADD", first, m}, []string{"SADD", last, m}, []string{"SREM", last, m}, []string{"SREM", first, m})
			}
			for j, v := range pipe(k, cmds) {
				if v.T != ':' || v.I != 1 {
					bad("%s tells %s", cmds[j][0], v)
				}
			}
		})
	case "reads":
		// nobody changes what is read, so that each reply is that of its own container
		var names, cmds []string
		elements := func(name string) map[string]int {
			out := map[string]int{}
			for m := 0; m < wide; m++ {
				out[fmt.Sprintf("%s.%d", name, m)]++
			}
			return out
		}
		for c := 0; c < 3; c++ {
			name := fmt.Sprintf("%s:%d", key, c)
			names = append(names, name)
			push, add, set, mset := []string{"RPUSH", name}, []string{"SADD", name}, []string{"HSET", name}, []string{"MSET"}
			for m := 0; m < wide; m++ {
				e := fmt.Sprintf("%s.%d", name, m)
				push, add, set, mset = append(push, e), append(add, e), append(set, e, e), append(mset, e, e)
			}
			do(0, push...)
			do(0, add...)
			do(0, set...)
			do(0, mset...)
		}
		cmds = []string{"LRANGE", "SMEMBERS", "HKEYS", "HVALS", "HGETALL", "MGET", "HMGET", "SUNION", "SINTER", "SDIFF", "SRANDMEMBER"}
		vk.Parallel(n, func(k int) {
			rng := r.Rng("reads", i, k)
			same := cmds[rng.Intn(len(cmds))]
			for j := 0; j < per; j += 8 {
				var batch [][]string
				var of []string
				for len(batch) < 8 {
					name, cmd := names[rng.Intn(3)], same
					if k%2 == 1 {
						cmd = cmds[rng.Intn(len(cmds))]
					}
					q := []string{cmd, name}
					switch cmd {
					case "LRANGE":
						q = append(q, "0", "-1")
					case "SRANDMEMBER":
						q = append(q, strconv.Itoa(wide))
					case "MGET", "HMGET":
						if cmd == "MGET" {
							q = q[:1]
						}
						for m := 0; m < wide; m++ {
							q = append(q, fmt.Sprintf("%s.%d", name, m))
						}
					}
					batch, of = append(batch, q), append(of, name)
				}
				vs, err := cs[k].Pipe(batch)
				if err != nil {
					c02Died(r, s, fmt.Sprint(quoteCmds(batch)), err)
				}
				for b, v := range vs {
					left, times := elements(of[b]), 1
					if batch[b][0] == "HGETALL" {
						times = 2
						for x := range left {
							left[x] = 2
						}
					}
					if v.T != '*' || len(v.A) != times*wide {
						bad("%s of %d elements has %d", batch[b][0], wide, len(v.A))
					}
					ordered := batch[b][0] == "LRANGE" || batch[b][0] == "MGET" || batch[b][0] == "HMGET"
					for at, x := range v.A {
						if left[x.S]--; x.Null || left[x.S] < 0 || ordered && x.S != fmt.Sprintf("%s.%d", of[b], at) {
							bad("%s of %s shows %s at %d", batch[b][0], of[b], x, at)
						}
					}
				}
			}
		})
	case "register":
		// what was acknowledged before a read began is seen by it
		var acked, begun int64
		done := make(chan struct{})
		do(0, "SET", key, "0")
		vk.Parallel(n, func(k int) {
			if k == 0 {
				defer close(done)
				for j := int64(1); j <= int64(per); j++ {
					atomic.StoreInt64(&begun, j)
					do(0, "SET", key, fmt.Sprint(j))
					atomic.StoreInt64(&acked, j)
				}
				return
			}
			for {
				select {
				case <-done:
					return
				default:
				}
				lo := atomic.LoadInt64(&acked)
				v := do(k, "GET", key)
				x, err := strconv.ParseInt(v.S, 10, 64)
				if err != nil || x < lo || x > atomic.LoadInt64(&begun) {
					bad("read %s though %d was acknowledged before and %d sent", v, lo, atomic.LoadInt64(&begun))
				}
			}
		})
	}
	r.Count("scale_runs_"+kind, 1)
	r.Case(fmt.Sprint("scale ", kind, n, per, i))
}
