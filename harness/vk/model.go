package vk

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// DB is the reference model: what a store with the documented commands contains.
// Strings, lists, hashes and sets have separate key spaces.
type DB struct {
	Str  map[string]string
	List map[string][]string
	Hash map[string]map[string]string
	Set  map[string]map[string]bool
}

// NewDB returns an empty store.
func NewDB() *DB {
	return &DB{Str: map[string]string{}, List: map[string][]string{}, Hash: map[string]map[string]string{}, Set: map[string]map[string]bool{}}
}

// Clone copies the store.
func (d *DB) Clone() *DB {
	c := NewDB()
	for k, v := range d.Str {
		c.Str[k] = v
	}
	for k, v := range d.List {
		c.List[k] = append([]string(nil), v...)
	}
	for k, v := range d.Hash {
		m := map[string]string{}
		for f, x := range v {
			m[f] = x
		}
		c.Hash[k] = m
	}
	for k, v := range d.Set {
		m := map[string]bool{}
		for x := range v {
			m[x] = true
		}
		c.Set[k] = m
	}
	return c
}

// Canon is a canonical text of the contents; empty containers do not count.
func (d *DB) Canon() string {
	var b strings.Builder
	keys := func(n int, f func(func(string))) []string {
		var ks []string
		f(func(k string) { ks = append(ks, k) })
		sort.Strings(ks)
		return ks
	}
	for _, k := range keys(len(d.Str), func(y func(string)) {
		for k := range d.Str {
			y(k)
		}
	}) {
		fmt.Fprintf(&b, "s%q=%q\n", k, d.Str[k])
	}
	for _, k := range keys(len(d.List), func(y func(string)) {
		for k, v := range d.List {
			if len(v) > 0 {
				y(k)
			}
		}
	}) {
		fmt.Fprintf(&b, "l%q=%q\n", k, d.List[k])
	}
	for _, k := range keys(len(d.Hash), func(y func(string)) {
		for k, v := range d.Hash {
			if len(v) > 0 {
				y(k)
			}
		}
	}) {
		var fs []string
		for f := range d.Hash[k] {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		fmt.Fprintf(&b, "h%q=", k)
		for _, f := range fs {
			fmt.Fprintf(&b, "%q:%q,", f, d.Hash[k][f])
		}
		b.WriteByte('\n')
	}
	for _, k := range keys(len(d.Set), func(y func(string)) {
		for k, v := range d.Set {
			if len(v) > 0 {
				y(k)
			}
		}
	}) {
		var ms []string
		for m := range d.Set[k] {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		fmt.Fprintf(&b, "e%q=%q\n", k, ms)
	}
	return b.String()
}

// wantErr wants an error, one of the kinds if some are given.
func wantErr(r Val, kinds ...string) string {
	if r.T != '-' {
		return "expected an error reply, got " + r.String()
	}
	for _, k := range kinds {
		if strings.Contains(r.S, k) {
			return ""
		}
	}
	if len(kinds) > 0 {
		return fmt.Sprintf("expected the error %q, got %s", strings.Join(kinds, " or "), r)
	}
	return ""
}

func wantInt(r Val, n int64) string {
	if r.T == ':' && r.I == n {
		return ""
	}
	return fmt.Sprintf("expected :%d, got %s", n, r)
}

func wantOK(r Val) string {
	if r.T == '+' && r.S == "OK" {
		return ""
	}
	return "expected +OK, got " + r.String()
}

func wantBulk(r Val, s string) string {
	if r.T == '$' && !r.Null && r.S == s {
		return ""
	}
	return "expected $" + Q(s) + ", got " + Clip(r.String(), 400)
}

func wantNil(r Val) string {
	if r.T == '$' && r.Null {
		return ""
	}
	return "expected a null string, got " + Clip(r.String(), 400)
}

// bulks checks that r is an array of non-null bulk strings. A null array is an empty one.
func bulks(r Val) ([]string, string) {
	if r.T != '*' {
		return nil, "expected an array, got " + Clip(r.String(), 400)
	}
	var out []string
	for _, x := range r.A {
		if x.T != '$' || x.Null {
			return nil, "expected an array of strings, got " + Clip(r.String(), 400)
		}
		out = append(out, x.S)
	}
	return out, ""
}

func wantSeq(r Val, want []string) string {
	got, msg := bulks(r)
	if msg != "" {
		return msg
	}
	if len(got) != len(want) {
		return fmt.Sprintf("expected %d elements %s, got %d: %s", len(want), Clip(fmt.Sprintf("%q", want), 400), len(got), Clip(fmt.Sprintf("%q", got), 400))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("expected %s, got %s", Clip(fmt.Sprintf("%q", want), 400), Clip(fmt.Sprintf("%q", got), 400))
		}
	}
	return ""
}

func wantBag(r Val, want []string) string {
	got, msg := bulks(r)
	if msg != "" {
		return msg
	}
	g := append([]string(nil), got...)
	w := append([]string(nil), want...)
	sort.Strings(g)
	sort.Strings(w)
	if len(g) == len(w) {
		same := true
		for i := range g {
			same = same && g[i] == w[i]
		}
		if same {
			return ""
		}
	}
	return fmt.Sprintf("expected in any order %s, got %s", Clip(fmt.Sprintf("%q", w), 400), Clip(fmt.Sprintf("%q", g), 400))
}

// atoi accepts what a 64-bit signed decimal integer is here: an optional sign and digits.
func atoi(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// slice resolves a range: a left end before the first or after the last element, or after the right end, selects
// nothing, and the right end clamps.
func slice(left, right int64, size int) (int, int, bool) {
	n := int64(size)
	if left < 0 {
		left += n
	}
	if right < 0 {
		right += n
	}
	if left < 0 || right < 0 || left >= n || left > right {
		return 0, 0, false
	}
	if right >= n {
		right = n - 1
	}
	return int(left), int(right), true
}

func pos(i int64, size int) (int, bool) {
	if i < 0 {
		i += int64(size)
	}
	if i < 0 || i >= int64(size) {
		return 0, false
	}
	return int(i), true
}

func members(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}

// ReadOnly tells the commands that never change anything.
var ReadOnly = map[string]bool{
	"get": true, "mget": true, "exists": true, "strlen": true, "getrange": true,
	"lindex": true, "llen": true, "lrange": true,
	"hget": true, "hexists": true, "hmget": true, "hkeys": true, "hvals": true, "hgetall": true, "hstrlen": true, "hlen": true,
	"sismember": true, "smembers": true, "srandmember": true, "sdiff": true, "sinter": true, "sunion": true, "scard": true,
}

// Step applies a command to the store and checks the reply it got; the reply decides what a random command did.
// It returns what is wrong with the reply, or "".
func (d *DB) Step(args []string, r Val) string {
	if len(args) == 0 {
		return wantErr(r)
	}
	name := strings.ToLower(args[0])
	a := args[1:]
	n := len(a)
	switch name {
	case "set":
		if n != 2 {
			return wantErr(r, "invalid argument")
		}
		d.Str[a[0]] = a[1]
		return wantOK(r)
	case "get":
		if n != 1 {
			return wantErr(r, "invalid argument")
		}
		if v, ok := d.Str[a[0]]; ok {
			return wantBulk(r, v)
		}
		return wantNil(r)
	case "mset":
		if n == 0 || n%2 != 0 {
			return wantErr(r)
		}
		for i := 0; i < n; i += 2 {
			d.Str[a[i]] = a[i+1]
		}
		return wantOK(r)
	case "mget":
		if n == 0 {
			return wantErr(r, "invalid argument")
		}
		if r.T != '*' || len(r.A) != n {
			return fmt.Sprintf("expected %d values, got %s", n, Clip(r.String(), 400))
		}
		for i, k := range a {
			var m string
			if v, ok := d.Str[k]; ok {
				m = wantBulk(r.A[i], v)
			} else {
				m = wantNil(r.A[i])
			}
			if m != "" {
				return fmt.Sprintf("value %d: %s", i, m)
			}
		}
		return ""
	case "exists":
		if n == 0 {
			return wantErr(r, "invalid argument")
		}
		c := int64(0)
		for _, k := range a {
			if _, ok := d.Str[k]; ok {
				c++
			}
		}
		return wantInt(r, c)
	case "strlen":
		if n != 1 {
			return wantErr(r, "invalid argument")
		}
		return wantInt(r, int64(len(d.Str[a[0]])))
	case "append":
		if n != 2 {
			return wantErr(r, "invalid argument")
		}
		d.Str[a[0]] += a[1]
		return wantInt(r, int64(len(d.Str[a[0]])))
	case "incr", "decr", "incrby", "decrby":
		by := int64(1)
		if strings.HasSuffix(name, "by") {
			if n != 2 {
				return wantErr(r, "invalid argument")
			}
			var ok bool
			if by, ok = atoi(a[1]); !ok {
				return wantErr(r)
			}
		} else if n != 1 {
			return wantErr(r, "invalid argument")
		}
		s, ok := d.Str[a[0]]
		if !ok {
			return wantErr(r, "no such key")
		}
		v, ok := atoi(s)
		if !ok {
			return wantErr(r, "value is not an integer or out of range")
		}
		var sum int64
		if strings.HasPrefix(name, "incr") {
			sum = v + by
			if (by > 0 && sum < v) || (by < 0 && sum > v) {
				return wantErr(r, "value is not an integer or out of range")
			}
		} else {
			sum = v - by
			if (by > 0 && sum > v) || (by < 0 && sum < v) {
				return wantErr(r, "value is not an integer or out of range")
			}
		}
		d.Str[a[0]] = strconv.FormatInt(sum, 10)
		return wantInt(r, sum)
	case "getrange":
		if n != 3 {
			return wantErr(r, "invalid argument")
		}
		l, ok1 := atoi(a[1])
		e, ok2 := atoi(a[2])
		if !ok1 || !ok2 {
			return wantErr(r, "invalid argument")
		}
		s := d.Str[a[0]]
		if i, j, ok := slice(l, e, len(s)); ok {
			return wantBulk(r, s[i:j+1])
		}
		return wantBulk(r, "")

	case "lpush", "rpush":
		if n < 2 || a[0] == "" {
			return wantErr(r)
		}
		l := d.List[a[0]]
		if name == "lpush" {
			k := make([]string, 0, len(l)+n-1)
			for i := n - 1; i > 0; i-- {
				k = append(k, a[i])
			}
			l = append(k, l...)
		} else {
			l = append(l[:len(l):len(l)], a[1:]...)
		}
		d.List[a[0]] = l
		return wantInt(r, int64(len(l)))
	case "lpop", "rpop":
		if n != 1 {
			return wantErr(r, "invalid argument")
		}
		l := d.List[a[0]]
		if len(l) == 0 {
			return wantNil(r)
		}
		if name == "lpop" {
			d.List[a[0]] = l[1:]
			return wantBulk(r, l[0])
		}
		d.List[a[0]] = l[:len(l)-1]
		return wantBulk(r, l[len(l)-1])
	case "lindex":
		if n != 2 {
			return wantErr(r, "invalid argument")
		}
		i, ok := atoi(a[1])
		if !ok {
			return wantErr(r, "invalid argument")
		}
		if p, ok := pos(i, len(d.List[a[0]])); ok {
			return wantBulk(r, d.List[a[0]][p])
		}
		return wantNil(r)
	case "llen":
		if n != 1 {
			return wantErr(r, "invalid argument")
		}
		return wantInt(r, int64(len(d.List[a[0]])))
	case "lrange", "ltrim":
		if n != 3 {
			return wantErr(r, "invalid argument")
		}
		l, ok1 := atoi(a[1])
		e, ok2 := atoi(a[2])
		if !ok1 || !ok2 {
			return wantErr(r, "invalid argument")
		}
		s := d.List[a[0]]
		i, j, ok := slice(l, e, len(s))
		if name == "lrange" {
			if !ok {
				return wantSeq(r, nil)
			}
			return wantSeq(r, s[i:j+1])
		}
		if ok {
			d.List[a[0]] = append([]string(nil), s[i:j+1]...)
		}
		return wantOK(r)
	case "lset":
		if n != 3 {
			return wantErr(r, "invalid argument")
		}
		i, ok := atoi(a[1])
		if !ok {
			return wantErr(r, "invalid argument")
		}
		p, ok := pos(i, len(d.List[a[0]]))
		if !ok {
			if len(d.List[a[0]]) > 0 {
				return wantErr(r, "index out of range")
			}
			return wantErr(r, "index out of range", "no such key")
		}
		l := append([]string(nil), d.List[a[0]]...)
		l[p] = a[2]
		d.List[a[0]] = l
		return wantOK(r)
	case "lrem":
		if n != 3 {
			return wantErr(r, "invalid argument")
		}
		c, ok := atoi(a[1])
		if !ok {
			return wantErr(r, "invalid argument")
		}
		l := append([]string(nil), d.List[a[0]]...)
		limit := c
		if c < 0 {
			limit = -c
			rev(l)
		}
		var out []string
		removed := int64(0)
		for _, v := range l {
			if v == a[2] && (c == 0 || removed < limit) {
				removed++
				continue
			}
			out = append(out, v)
		}
		if c < 0 {
			rev(out)
		}
		if removed > 0 {
			d.List[a[0]] = out
		}
		return wantInt(r, removed)
	case "linsert":
		if n != 4 {
			return wantErr(r, "invalid argument")
		}
		where := strings.ToLower(a[1])
		if where != "before" && where != "after" {
			return wantErr(r, "invalid argument")
		}
		l := d.List[a[0]]
		for i, v := range l {
			if v == a[2] {
				if where == "after" {
					i++
				}
				out := append([]string(nil), l[:i]...)
				out = append(out, a[3])
				out = append(out, l[i:]...)
				d.List[a[0]] = out
				return wantInt(r, int64(len(out)))
			}
		}
		if len(l) == 0 {
			// a list that is missing gives 0, one without the pivot -1, and an emptied one may be either
			if r.T == ':' && (r.I == 0 || r.I == -1) {
				return ""
			}
			return "expected :0 or :-1, got " + r.String()
		}
		return wantInt(r, -1)

	case "hset":
		if n < 3 || n%2 != 1 || a[0] == "" {
			return wantErr(r)
		}
		h := d.Hash[a[0]]
		if h == nil {
			h = map[string]string{}
			d.Hash[a[0]] = h
		}
		added := int64(0)
		for i := 1; i < n; i += 2 {
			if _, ok := h[a[i]]; !ok {
				added++
			}
			h[a[i]] = a[i+1]
		}
		return wantInt(r, added)
	case "hget":
		if n != 2 {
			return wantErr(r, "invalid argument")
		}
		if v, ok := d.Hash[a[0]][a[1]]; ok {
			return wantBulk(r, v)
		}
		return wantNil(r)
	case "hmget":
		if n < 2 {
			return wantErr(r, "invalid argument")
		}
		if r.T != '*' || len(r.A) != n-1 {
			return fmt.Sprintf("expected %d values, got %s", n-1, Clip(r.String(), 400))
		}
		for i, f := range a[1:] {
			var m string
			if v, ok := d.Hash[a[0]][f]; ok {
				m = wantBulk(r.A[i], v)
			} else {
				m = wantNil(r.A[i])
			}
			if m != "" {
				return fmt.Sprintf("value %d: %s", i, m)
			}
		}
		return ""
	case "hexists":
		if n != 2 {
			return wantErr(r, "invalid argument")
		}
		if _, ok := d.Hash[a[0]][a[1]]; ok {
			return wantInt(r, 1)
		}
		return wantInt(r, 0)
	case "hdel":
		if n < 2 {
			return wantErr(r, "invalid argument")
		}
		c := int64(0)
		for _, f := range a[1:] {
			if _, ok := d.Hash[a[0]][f]; ok {
				delete(d.Hash[a[0]], f)
				c++
			}
		}
		return wantInt(r, c)
	case "hkeys", "hvals":
		if n != 1 {
			return wantErr(r, "invalid argument")
		}
		var w []string
		for f, v := range d.Hash[a[0]] {
			if name == "hkeys" {
				w = append(w, f)
			} else {
				w = append(w, v)
			}
		}
		return wantBag(r, w)
	case "hgetall":
		if n != 1 {
			return wantErr(r, "invalid argument")
		}
		got, msg := bulks(r)
		if msg != "" {
			return msg
		}
		h := d.Hash[a[0]]
		if len(got) != 2*len(h) {
			return fmt.Sprintf("expected %d fields, got %s", len(h), Clip(fmt.Sprintf("%q", got), 400))
		}
		seen := map[string]bool{}
		for i := 0; i < len(got); i += 2 {
			v, ok := h[got[i]]
			if !ok || v != got[i+1] || seen[got[i]] {
				return fmt.Sprintf("expected %s, got %s", Clip(fmt.Sprintf("%q", h), 400), Clip(fmt.Sprintf("%q", got), 400))
			}
			seen[got[i]] = true
		}
		return ""
	case "hstrlen":
		if n != 2 {
			return wantErr(r, "invalid argument")
		}
		return wantInt(r, int64(len(d.Hash[a[0]][a[1]])))
	case "hlen":
		if n != 1 {
			return wantErr(r, "invalid argument")
		}
		return wantInt(r, int64(len(d.Hash[a[0]])))

	case "sadd":
		if n < 2 || a[0] == "" {
			return wantErr(r)
		}
		s := d.Set[a[0]]
		if s == nil {
			s = map[string]bool{}
			d.Set[a[0]] = s
		}
		c := int64(0)
		for _, m := range a[1:] {
			if !s[m] {
				s[m] = true
				c++
			}
		}
		return wantInt(r, c)
	case "srem":
		if n < 2 {
			return wantErr(r, "invalid argument")
		}
		if a[0] == "" {
			// no set is ever stored under the empty key: nothing to remove, or refused like the other writes to it
			if r.T == '-' {
				return ""
			}
			return wantInt(r, 0)
		}
		c := int64(0)
		for _, m := range a[1:] {
			if d.Set[a[0]][m] {
				delete(d.Set[a[0]], m)
				c++
			}
		}
		return wantInt(r, c)
	case "sismember":
		if n != 2 {
			return wantErr(r, "invalid argument")
		}
		if d.Set[a[0]][a[1]] {
			return wantInt(r, 1)
		}
		return wantInt(r, 0)
	case "smembers":
		if n != 1 {
			return wantErr(r, "invalid argument")
		}
		return wantBag(r, members(d.Set[a[0]]))
	case "scard":
		if n != 1 {
			return wantErr(r, "invalid argument")
		}
		return wantInt(r, int64(len(d.Set[a[0]])))
	case "srandmember", "spop":
		if n != 1 && n != 2 {
			return wantErr(r, "invalid argument")
		}
		s := d.Set[a[0]]
		var got []string
		if n == 1 {
			if len(s) == 0 {
				return wantNil(r)
			}
			if r.T != '$' || r.Null {
				return "expected a member, got " + Clip(r.String(), 400)
			}
			got = []string{r.S}
		} else {
			c, ok := atoi(a[1])
			if !ok {
				return wantErr(r, "invalid argument")
			}
			if c < 0 {
				c = -c
			}
			var msg string
			if got, msg = bulks(r); msg != "" {
				return msg
			}
			want := int64(len(s))
			if c < want {
				want = c
			}
			if int64(len(got)) != want {
				return fmt.Sprintf("expected %d members, got %s", want, Clip(r.String(), 400))
			}
		}
		seen := map[string]bool{}
		for _, m := range got {
			if !s[m] || seen[m] {
				return fmt.Sprintf("%s is not a member of the set or is given twice: %s", Q(m), Clip(r.String(), 400))
			}
			seen[m] = true
		}
		if name == "spop" {
			for _, m := range got {
				delete(s, m)
			}
		}
		return ""
	case "sdiff", "sinter", "sunion":
		if n == 0 {
			return wantErr(r, "invalid argument")
		}
		res := map[string]bool{}
		for m := range d.Set[a[0]] {
			res[m] = true
		}
		for _, k := range a[1:] {
			o := d.Set[k]
			switch name {
			case "sdiff":
				for m := range o {
					delete(res, m)
				}
			case "sinter":
				for m := range res {
					if !o[m] {
						delete(res, m)
					}
				}
			case "sunion":
				for m := range o {
					res[m] = true
				}
			}
		}
		return wantBag(r, members(res))
	}
	return wantErr(r, "no such command")
}

func rev(s []string) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

// DumpCmds are the commands that read everything stored under the keys.
func DumpCmds(keys []string) [][]string {
	var cmds [][]string
	for _, k := range keys {
		cmds = append(cmds, []string{"GET", k}, []string{"LRANGE", k, "0", "-1"}, []string{"HGETALL", k}, []string{"SMEMBERS", k},
			[]string{"LLEN", k}, []string{"HLEN", k}, []string{"SCARD", k}, []string{"STRLEN", k})
	}
	return cmds
}

// CheckDump compares everything stored under the keys with the model.
func (d *DB) CheckDump(c *Client, keys []string) (string, error) {
	cmds := DumpCmds(keys)
	vals, err := c.Pipe(cmds)
	if err != nil {
		return "", err
	}
	for i, v := range vals {
		if msg := d.Step(cmds[i], v); msg != "" {
			return fmt.Sprintf("%s %s: %s", cmds[i][0], Q(cmds[i][1]), msg), nil
		}
	}
	return "", nil
}

// ReadDump reads everything stored under the keys into a model.
func ReadDump(c *Client, keys []string) (*DB, string, error) {
	d := NewDB()
	cmds := DumpCmds(keys)
	vals, err := c.Pipe(cmds)
	if err != nil {
		return nil, "", err
	}
	for i := 0; i < len(vals); i += 8 {
		k := cmds[i][1]
		if v := vals[i]; v.T == '$' && !v.Null {
			d.Str[k] = v.S
		}
		if v := vals[i+1]; v.T == '*' {
			for _, x := range v.A {
				d.List[k] = append(d.List[k], x.S)
			}
		}
		if v := vals[i+2]; v.T == '*' && len(v.A)%2 == 0 {
			for j := 0; j < len(v.A); j += 2 {
				if d.Hash[k] == nil {
					d.Hash[k] = map[string]string{}
				}
				d.Hash[k][v.A[j].S] = v.A[j+1].S
			}
		}
		if v := vals[i+3]; v.T == '*' {
			for _, x := range v.A {
				if d.Set[k] == nil {
					d.Set[k] = map[string]bool{}
				}
				d.Set[k][x.S] = true
			}
		}
		for j := 0; j < 8; j++ {
			if msg := d.Step(cmds[i+j], vals[i+j]); msg != "" {
				return d, fmt.Sprintf("contradictory contents: %s %s: %s", cmds[i+j][0], Q(k), msg), nil
			}
		}
	}
	return d, "", nil
}
