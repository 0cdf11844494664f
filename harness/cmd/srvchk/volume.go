package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/vk"
)

// volume is what depends on the number or the length of things: containers that grow and shrink through powers of two, values
// and replies whose length is close to one, and many names. With restart the contents are compared again on the same file.
func volume(r *vk.Run, family string, restart bool) {
	s := vk.NewSrv(r, vk.SrvOpt{})
	defer s.Kill()
	cfg := vk.Cfg{}
	if restart {
		cfg.DatabaseFile = filepath.Join(s.Dir, "volume")
	}
	db := vk.NewDB()
	rng := r.Rng("volume", family)
	var keys []string
	var c *vk.Client
	last := ""
	fail := func(format string, args ...any) {
		rep := map[string]any{"kind": "volume of " + family, "last_command": last, "restart": restart}
		if s.Alive() {
			rep["stacks"] = s.Stacks()
		} else {
			rep["crash"] = s.CrashReason()
		}
		r.Violate(rep, "many or large values of type %s: %s", family, fmt.Sprintf(format, args...))
	}
	start := func() {
		if err := s.Start(cfg, ""); err != nil {
			fail("the server does not start: %v", err)
		}
		var err error
		if c, err = vk.Dial(s.Addr()); err != nil {
			fail("cannot connect: %v", err)
		}
		c.Timeout = 5 * time.Minute
	}
	start()
	var queue [][]string
	size := 0
	flush := func() {
		vs, err := c.Pipe(queue)
		for j, v := range vs {
			last = vk.Clip(fmt.Sprint(quoteCmd(queue[j])), 300)
			if msg := db.Step(queue[j], v); msg != "" {
				fail("%s: %s", last, msg)
			}
		}
		if err != nil {
			last = vk.Clip(fmt.Sprint(quoteCmd(queue[len(vs)])), 300)
			fail("no well-formed reply to %s: %v", last, err)
		}
		r.Count("commands_on_much", int64(len(queue)))
		queue, size = nil, 0
	}
	do := func(args ...string) {
		queue = append(queue, args)
		for _, a := range args {
			size += len(a)
		}
		if size > 1<<20 || len(queue) > 500 {
			flush()
		}
	}
	// sizes that somebody may take for a limit
	top := 16
	if r.Thorough() {
		top = 18
	}
	var sizes []int
	for k := 7; k <= top; k += 3 {
		sizes = append(sizes, 1<<k)
	}
	if restart {
		sizes = sizes[len(sizes)-2:]
	}
	if family == "replies" {
		sizes = nil
	}
	dump := func(when string) {
		flush()
		for i, n := 0, len(keys); i < n; i += 64 {
			if msg, err := db.CheckDump(c, keys[i:min(n, i+64)]); err != nil || msg != "" {
				fail("contents %s: %s %v", when, msg, err)
			}
		}
	}
	elem := func(i int) string { return "e" + strconv.Itoa(i) }
	// grow adds the elements from..to-1 with as many arguments at once as fit
	grow := func(to int, add func(from, to int)) {
		for i := 0; i < to; {
			j := min(to, i+1+rng.Intn(700))
			add(i, j)
			i = j
		}
	}
	for _, n := range sizes {
		key := fmt.Sprint("v", n)
		keys = append(keys, key)
		near := []int{n - 2, n - 1, n, n + 1, n + 2}
		switch family {
		case "string":
			names := func(from, to int) (kv, ks []string) {
				for i := from; i < to; i++ {
					kv = append(kv, fmt.Sprint(key, "-", i), strconv.Itoa(i))
					ks = append(ks, fmt.Sprint(key, "-", i))
				}
				return
			}
			grow(n+2, func(i, j int) {
				kv, ks := names(i, j)
				do(append([]string{"MSET"}, kv...)...)
				if rng.Intn(3) == 0 {
					do(append([]string{"EXISTS"}, ks...)...)
				}
			})
			for j := 0; j < 2000; j++ {
				k := fmt.Sprint(key, "-", rng.Intn(n+4))
				do([][]string{{"GET", k}, {"INCR", k}, {"STRLEN", k}, {"APPEND", k, "1"}, {"EXISTS", k}}[rng.Intn(5)]...)
			}
			grow(n+2, func(i, j int) {
				_, ks := names(i, j)
				do(append([]string{"MGET"}, ks...)...)
			})
			// one that grows through the size
			for at := 0; at < n+3; {
				m := 1
				if at < n-3 {
					m = 1 + rng.Intn(n-3-at)
				}
				do("APPEND", key, strings.Repeat(string(rune('a'+rng.Intn(26))), m))
				at += m
				do("STRLEN", key)
				do("GETRANGE", key, strconv.Itoa(at-2), "-1")
				do("GETRANGE", key, "0", strconv.Itoa(n-1))
				do("GETRANGE", key, "-"+strconv.Itoa(n), "-"+strconv.Itoa(n-1))
			}
		case "list":
			grow(n-3, func(i, j int) {
				x := []string{[]string{"RPUSH", "LPUSH"}[rng.Intn(2)], key}
				for ; i < j; i++ {
					x = append(x, elem(i%(n/2)))
				}
				do(x...)
			})
			reads := func() {
				for _, at := range near {
					do("LINDEX", key, strconv.Itoa(at))
					do("LINDEX", key, strconv.Itoa(-at))
					do("LRANGE", key, strconv.Itoa(at-1), strconv.Itoa(at+1))
				}
				do("LLEN", key)
				do("LINDEX", key, "-1")
			}
			for j := 0; j < 7; j++ {
				do([]string{"RPUSH", "LPUSH"}[j%2], key, fmt.Sprint("near", j))
				reads()
			}
			do("LRANGE", key, "0", "-1")
			for j := 0; j < 30; j++ {
				i := strconv.Itoa(rng.Intn(n) - n/2)
				do([][]string{{"LSET", key, i, fmt.Sprint("set", j)}, {"LINSERT", key, "BEFORE", elem(rng.Intn(n / 2)), fmt.Sprint("before", j)}, {"LINSERT", key, "AFTER", elem(rng.Intn(n / 2)), fmt.Sprint("after", j)},
					{"LREM", key, strconv.Itoa(rng.Intn(5) - 2), elem(rng.Intn(n / 2))}, {"LPOP", key}, {"RPOP", key}, {"LRANGE", key, i, strconv.Itoa(rng.Intn(n) - n/2)}}[rng.Intn(7)]...)
			}
			reads()
			do("LRANGE", key, "0", "-1")
			do("LTRIM", key, "1", "-2")
			for j := 0; j < 45; j++ {
				do([]string{"RPOP", "LPOP"}[rng.Intn(2)], key)
			}
			reads()
		case "hash":
			grow(n-3, func(i, j int) {
				x := []string{"HSET", key}
				for ; i < j; i++ {
					x = append(x, elem(i), strconv.Itoa(i))
				}
				do(x...)
			})
			for j := n - 3; j < n+4; j++ {
				do("HSET", key, elem(j), "near")
				for _, at := range near {
					do("HGET", key, elem(at))
					do("HEXISTS", key, elem(at))
					do("HSTRLEN", key, elem(at))
				}
				do("HLEN", key)
				do("HSET", key, elem(rng.Intn(n)), "again")
			}
			do("HGETALL", key)
			do("HKEYS", key)
			do("HVALS", key)
			for _, m := range []int{n / 4, n / 2} {
				x, y := []string{"HDEL", key}, []string{"HMGET", key}
				for j := 0; j < m; j++ {
					x, y = append(x, elem(rng.Intn(n+10))), append(y, elem(rng.Intn(n+10)))
				}
				do(y...)
				do(x...)
				do(y...)
				do("HLEN", key)
			}
		case "set":
			grow(n-3, func(i, j int) {
				x := []string{"SADD", key}
				for ; i < j; i++ {
					x = append(x, elem(i))
				}
				do(x...)
			})
			other := key + "o"
			keys = append(keys, other)
			do(append([]string{"SADD", other}, strings.Fields(strings.Repeat("x ", 3)+elem(1)+" "+elem(n)+" "+elem(n/2))...)...)
			for j := n - 3; j < n+4; j++ {
				do("SADD", key, elem(j), elem(rng.Intn(n)))
				for _, at := range near {
					do("SISMEMBER", key, elem(at))
				}
				do("SCARD", key)
			}
			do("SMEMBERS", key)
			for _, x := range []string{"SDIFF", "SINTER", "SUNION"} {
				do(x, key, other)
				do(x, other, key)
				do(x, key, key, other)
			}
			do("SRANDMEMBER", key, strconv.Itoa(n-1))
			for _, m := range []int{n / 4, n / 2} {
				x := []string{"SREM", key}
				for j := 0; j < m; j++ {
					x = append(x, elem(rng.Intn(n+10)))
				}
				do(x...)
				do("SPOP", key, strconv.Itoa(m/3))
				do("SCARD", key)
			}
			do("SMEMBERS", key)
		}
		if family != "string" && n <= 1<<13 {
			shrink(family, key+"s", n, rng, do)
			keys = append(keys, key+"s")
		}
		dump("of much")
		r.Max("largest_number_of_elements", int64(n+3))
	}
	text := func(n int) string { return strings.Repeat(string(rune('a'+n%26)), n) }
	if family == "string" && !restart || family == "replies" { // replies and requests whose length in all is close to a power of two
		for k := 7; k <= top+4; k++ {
			for n := 1<<k - 64; n <= 1<<k+2; n++ {
				if k > 18 && n < 1<<k-14 {
					continue
				}
				do("SET", "reply", text(n))
				if k < 15 {
					flush()
				}
				do("GET", "reply")
				if k < 17 {
					do("MGET", "reply", "none", "reply")
				}
				r.Count("replies_of_a_length_close_to_a_power_of_two", 1)
			}
			flush()
		}
	}
	if family == "string" && restart { // entries of the log whose length is close to a power of two, the value is in them twice
		for k := 6; k <= 15; k++ {
			for n := 1<<k - 120; n <= 1<<k+2; n++ {
				if n >= 0 {
					key := fmt.Sprint("entry", n)
					keys = append(keys, key)
					do("SET", key, text(n))
				}
			}
		}
	}
	dump("in the end")
	if restart {
		// more commands than anybody counts in 16 bits
		for j := 0; j < 70000; j++ {
			if j == 0 {
				do("SET", "count", "0")
			}
			do("INCR", "count")
		}
		keys = append(keys, "count")
		flush()
		for j := 0; j < 2; j++ {
			c.Close()
			if err := s.Stop(1); err != nil {
				fail("stop: %v", err)
			}
			start()
			dump("after a restart")
		}
	}
	c.Close()
	r.Case(fmt.Sprint("volume ", family, restart))
}

// shrink makes a container of n elements smaller, by one command to all parts of its size and one by one.
func shrink(family, key string, n int, rng *rand.Rand, do func(args ...string)) {
	elem := func(i int) string { return "e" + strconv.Itoa(i) }
	var look []string
	fill := func() {
		x := []string{map[string]string{"list": "RPUSH", "hash": "HSET", "set": "SADD"}[family], key}
		for i := 0; i < n; i++ {
			x = append(x, elem(i))
			if family == "hash" {
				x = append(x, elem(-i))
			}
		}
		do(x...)
	}
	remove := func(from, to int) {
		x := []string{"", key}
		for i := from; i < to; i++ {
			x = append(x, elem(i))
		}
		switch family {
		case "hash":
			x[0] = "HDEL"
		case "set":
			if x[0] = "SREM"; rng.Intn(2) == 0 {
				x = []string{"SPOP", key, strconv.Itoa(to - from)}
			}
		case "list":
			x = []string{"LTRIM", key, strconv.Itoa(to - from), "-1"}
			if rng.Intn(2) == 0 {
				x = []string{"LTRIM", key, "0", strconv.Itoa(-1 - (to - from))}
			}
		}
		do(x...)
	}
	switch family {
	case "hash":
		look = []string{"HGETALL", key}
	case "set":
		look = []string{"SMEMBERS", key}
	case "list":
		look = []string{"LRANGE", key, "0", "-1"}
	}
	for _, part := range []float64{.9, .7, .51, .49, .3, .26, .24, .2, .15, .13, .12, .1, .07, .03, .01} {
		fill()
		keep := int(part * float64(n))
		remove(0, n-keep)
		do(look...)
		if rng.Intn(3) == 0 {
			remove(n-keep, n-1-rng.Intn(1+keep/4))
			do(look...)
		}
	}
	if n > 1<<10 {
		return
	}
	fill()
	for i := 0; i < n; i++ {
		switch family {
		case "hash":
			do("HDEL", key, elem(i))
		case "set":
			do([][]string{{"SPOP", key}, {"SREM", key, elem(i)}}[rng.Intn(2)]...)
		case "list":
			do([]string{"LPOP", "RPOP"}[rng.Intn(2)], key)
		}
		if left := n - i - 1; left&(left-1) == 0 || left < 5 || rng.Intn(20) == 0 {
			do(look...)
		}
	}
	fill()
	do(look...)
}
