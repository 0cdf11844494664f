package main

import (
	"fmt"
	"path/filepath"

	"verif/vk"
)

// c07Names uses names that would be taken for each other if names were put together with types, fields or numbers.
func c07Names(r *vk.Run) {
	seps := []string{"", ":", ".", "/", "|", "-", "_", " ", ",", "#", "@", "=", "\x00", "\x1f", "\r\n", "::", "\xff", "%", "$", "{", "["}
	types := []string{"string", "str", "strings", "s", "S", "list", "lists", "linkedlist", "linked_list", "l", "L", "hash", "hashes", "h", "H", "set", "sets", "Set", "List", "Hash", "String",
		"zset", "sortedset", "sorted_set", "z", "global", "g", "G", "kv", "key", "db", "db0", "db1", "0", "1", "2", "3", "4", "5", "6", "7", "\x00", "\x01", "\x02", "\x03", "\x04", "\x05", "\x06"}
	vk.Parallel(len(seps), func(j int) {
		sep := seps[j]
		s := vk.NewSrv(r, vk.SrvOpt{})
		defer s.Kill()
		if err := s.Start(vk.Cfg{DatabaseFile: filepath.Join(s.Dir, "names")}, ""); err != nil {
			r.Infra("%v", err)
		}
		c, err := vk.Dial(s.Addr())
		if err != nil {
			r.Infra("dial: %v", err)
		}
		rng := r.Rng("names", j)
		db := vk.NewDB()
		keys := []string{"a", "b", "a" + sep + "b", "b" + sep + "a", "a" + sep + "a", "a" + sep, sep + "a"}
		for _, t := range types {
			keys = append(keys, t+sep+"a", "a"+sep+t, t+sep+"a"+sep+"b")
		}
		seen := map[string]bool{"": true}
		var uniq []string
		for _, k := range keys {
			if !seen[k] {
				seen[k] = true
				uniq = append(uniq, k)
			}
		}
		keys = uniq
		fail := func(format string, args ...any) {
			r.Violate(map[string]any{"separator": sep, "crash": s.CrashReason()}, "names with %q: %s", sep, fmt.Sprintf(format, args...))
		}
		do := func(q ...string) {
			v, err := c.Do(q...)
			if err != nil {
				fail("no reply to %q: %v", quoteCmd(q), err)
			}
			if msg := db.Step(q, v); msg != "" {
				fail("%q: %s", quoteCmd(q), msg)
			}
			r.Count("commands_on_similar_names", 1)
		}
		check := func(when string) {
			if msg, err := db.CheckDump(c, keys); err != nil || msg != "" {
				fail("%s: %s %v", when, msg, err)
			}
		}
		parts := []string{"b", "c", "b" + sep + "c", "c" + sep + "b", sep + "b", "b" + sep}
		for n, i := range rng.Perm(len(keys)) {
			k := keys[i]
			do("SET", k, "string of "+k)
			do("RPUSH", k, "list of "+k, "b", fmt.Sprint(n))
			for _, f := range parts {
				if f != "" {
					do("HSET", k, f, f+" of "+k)
				}
			}
			do("SADD", k, "set of "+k, "b", fmt.Sprint(n))
		}
		check("after the writes")
		for n, i := range rng.Perm(len(keys)) {
			k := keys[i]
			switch n % 6 {
			case 0:
				do("SET", k, "again")
			case 1:
				do("APPEND", k, "+")
			case 2:
				do("LTRIM", k, "1", "1")
			case 3:
				do("HDEL", k, parts[rng.Intn(len(parts))])
			case 4:
				do("SREM", k, "b", "set of "+k)
			case 5:
				do("LPOP", k)
				do("SPOP", k)
			}
			if n%20 == 0 {
				check(fmt.Sprintf("after a write to %q", k))
			}
		}
		check("after all")
		c.Close()
		if err := s.Stop(1); err != nil {
			fail("stop: %v", err)
		}
		if err := s.Start(s.Cfg, ""); err != nil {
			fail("restart: %v", err)
		}
		if c, err = vk.Dial(s.Addr()); err != nil {
			fail("cannot connect: %v", err)
		}
		check("after a restart")
		c.Close()
		_ = s.Stop(1)
		r.Case("names with " + sep)
	})
}
