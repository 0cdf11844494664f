package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"verif/vk"
)

// values that have tripped stores before: empty, numeric in all spellings, binary, protocol bytes, names used inside
// the code, long ones, and two texts with the same 64-bit FNV-1a hash
var special = []string{
	"", "0", "1", "-1", "5", "-7", "42", "+5", "007", "-0", " 5", "5 ", "1e3", "0x10", "9223372036854775807", "-9223372036854775808",
	"9223372036854775808", "9223372036854775806", "-9223372036854775807", "99999999999999999999", "abc", "a b", "\r\n", "a\r\nb", "\n", "\r", "\x00", "\x00\x01\xff", "\xff\xfe",
	"$-1\r\n", "*-1\r\n", "+OK\r\n", "dummy string", "nil", "anonymous", "é世界", "\x80\xbf", strings.Repeat("x", 300),
	"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ",
}

type gen struct {
	r    *rand.Rand
	keys []string
	vals []string // a small set, so that values repeat
	big  bool     // also builds containers of many elements
}

func newGen(r *rand.Rand, prefix string) *gen {
	g := &gen{r: r, big: r.Intn(4) == 0}
	for i, n := 0, 2+r.Intn(3); i < n; i++ {
		g.keys = append(g.keys, prefix+[]string{"a", "b", "k\r\n", "\x00\xff", "key with space", "é", "0"}[r.Intn(7)]+strconv.Itoa(i))
	}
	switch k := g.keys[0]; r.Intn(8) { // a key that is almost another one
	case 0:
		if u := strings.ToUpper(k); u != k {
			g.keys = append(g.keys, u)
		}
	case 1:
		g.keys = append(g.keys, k+[]string{" ", "\x00", "\r\n", "0"}[r.Intn(4)])
	case 2:
		g.keys = append(g.keys, k+strings.Repeat("l", []int{60, 300, 5000}[r.Intn(3)]))
	case 3:
		g.keys = append(g.keys, k[:len(k)-1])
	}
	if r.Intn(4) == 0 {
		g.vals = append(g.vals, g.keys[r.Intn(len(g.keys))])
	}
	for i, n := 0, 3+r.Intn(5); i < n; i++ {
		g.vals = append(g.vals, g.fresh())
	}
	if r.Intn(4) == 0 {
		g.vals = append(g.vals, "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ")
	}
	return g
}

func (g *gen) fresh() string {
	switch g.r.Intn(7) {
	case 6:
		if len(g.keys) > 0 && g.r.Intn(3) == 0 {
			return g.keys[g.r.Intn(len(g.keys))]
		}
		fallthrough
	case 0, 1:
		return special[g.r.Intn(len(special))]
	case 2:
		return strconv.Itoa(g.r.Intn(20) - 5)
	case 3:
		b := make([]byte, g.r.Intn(12))
		g.r.Read(b)
		return string(b)
	case 4:
		return fmt.Sprintf("v%d", g.r.Intn(1000))
	default:
		if g.r.Intn(40) == 0 {
			b := make([]byte, g.r.Intn(70000))
			g.r.Read(b)
			return string(b)
		}
		return strings.Repeat("y", g.r.Intn(40))
	}
}

func (g *gen) key() string { return g.keys[g.r.Intn(len(g.keys))] }
func (g *gen) val() string {
	if g.r.Intn(6) == 0 {
		return g.fresh()
	}
	return g.vals[g.r.Intn(len(g.vals))]
}
func (g *gen) vals1(max int) []string {
	var out []string
	for i, n := 0, 1+g.r.Intn(max); i < n; i++ {
		out = append(out, g.val())
	}
	return out
}

// many returns arguments for a container of many elements, most of them distinct, now and then.
func (g *gen) many() []string {
	if !g.big || g.r.Intn(25) > 0 {
		return nil
	}
	return g.lots()
}

func (g *gen) lots() []string {
	n := []int{10, 17, 33, 40, 65, 100, 130, 260, 600}[g.r.Intn(9)]
	from := g.r.Intn(n)
	out := make([]string, n)
	for i := range out {
		out[i] = "m" + strconv.Itoa(from+i)
		if g.r.Intn(20) == 0 {
			out[i] = g.val()
		}
	}
	return out
}

func (g *gen) index() string {
	if g.big && g.r.Intn(3) == 0 {
		return strconv.Itoa(g.r.Intn(200) - 100)
	}
	switch g.r.Intn(12) {
	case 0:
		return []string{"9223372036854775807", "-9223372036854775808", "2147483648", "-2147483649"}[g.r.Intn(4)]
	case 1:
		return []string{"abc", "", "1.5", "9223372036854775808", " 1", "1 "}[g.r.Intn(6)]
	case 2:
		return []string{"+2", "007", "-0", "00"}[g.r.Intn(4)]
	}
	return strconv.Itoa(g.r.Intn(16) - 8)
}

func (g *gen) count() string {
	if g.big && g.r.Intn(4) == 0 {
		return strconv.Itoa(g.r.Intn(140) - 70)
	}
	switch g.r.Intn(10) {
	case 0:
		return []string{"9223372036854775807", "-9223372036854775807", "2147483648", "-2147483649"}[g.r.Intn(4)]
	case 1:
		return []string{"abc", "", "1.5", "9223372036854775808", " 1"}[g.r.Intn(5)]
	}
	return strconv.Itoa(g.r.Intn(9) - 4)
}

// mixCase varies the case of a command name.
func (g *gen) mixCase(s string) string {
	switch g.r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if g.r.Intn(2) == 0 {
				b[i] = strings.ToLower(s)[i]
			}
		}
		return string(b)
	}
	return s
}

func (g *gen) strCmd() []string {
	k := g.key()
	switch g.r.Intn(14) {
	case 0, 1:
		return []string{"SET", k, g.val()}
	case 2:
		return []string{"GET", k}
	case 3:
		c := []string{"MSET"}
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			c = append(c, g.key(), g.val())
		}
		return c
	case 4:
		c := []string{"MGET"}
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			c = append(c, g.key())
		}
		return c
	case 5:
		c := []string{"EXISTS"}
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			c = append(c, g.key())
		}
		return c
	case 6:
		return []string{"STRLEN", k}
	case 7:
		return []string{"APPEND", k, g.val()}
	case 8:
		return []string{"INCR", k}
	case 9:
		return []string{"DECR", k}
	case 10:
		return []string{"INCRBY", k, g.num()}
	case 11:
		return []string{"DECRBY", k, g.num()}
	case 12:
		return []string{"GETRANGE", k, g.index(), g.index()}
	default:
		return []string{"SET", k, g.num()}
	}
}

func (g *gen) num() string {
	if g.r.Intn(3) == 0 {
		return special[g.r.Intn(len(special))]
	}
	if g.r.Intn(4) == 0 {
		return strconv.FormatInt(int64(g.r.Uint64()), 10)
	}
	return strconv.Itoa(g.r.Intn(40) - 20)
}

func (g *gen) listCmd() []string {
	k := g.key()
	if m := g.many(); m != nil {
		return append([]string{[]string{"LPUSH", "RPUSH"}[g.r.Intn(2)], k}, m...)
	}
	switch g.r.Intn(15) {
	case 0, 1:
		return append([]string{"LPUSH", k}, g.vals1(4)...)
	case 2, 3:
		return append([]string{"RPUSH", k}, g.vals1(4)...)
	case 4:
		return []string{"LPOP", k}
	case 5:
		return []string{"RPOP", k}
	case 6:
		return []string{"LINDEX", k, g.index()}
	case 7, 8:
		return []string{"LINSERT", k, []string{"BEFORE", "after", "Before", "AFTER", "x", ""}[min(g.r.Intn(12), 5)%6], g.val(), g.val()}
	case 9:
		return []string{"LLEN", k}
	case 10, 11:
		return []string{"LRANGE", k, g.index(), g.index()}
	case 12:
		return []string{"LTRIM", k, g.index(), g.index()}
	case 13:
		return []string{"LREM", k, g.count(), g.val()}
	default:
		return []string{"LSET", k, g.index(), g.val()}
	}
}

func (g *gen) hashCmd() []string {
	k := g.key()
	if m := g.many(); m != nil {
		if m = m[:len(m)/2*2]; g.r.Intn(3) == 0 {
			return append([]string{[]string{"HDEL", "HMGET"}[g.r.Intn(2)], k}, m...)
		}
		return append([]string{"HSET", k}, m...)
	}
	switch g.r.Intn(13) {
	case 0, 1, 2:
		c := []string{"HSET", k}
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			c = append(c, g.val(), g.val())
		}
		return c
	case 3:
		return []string{"HGET", k, g.val()}
	case 4:
		return append([]string{"HMGET", k}, g.vals1(4)...)
	case 5:
		return []string{"HEXISTS", k, g.val()}
	case 6, 7:
		return append([]string{"HDEL", k}, g.vals1(3)...)
	case 8:
		return []string{"HKEYS", k}
	case 9:
		return []string{"HVALS", k}
	case 10:
		return []string{"HGETALL", k}
	case 11:
		return []string{"HSTRLEN", k, g.val()}
	default:
		return []string{"HLEN", k}
	}
}

func (g *gen) setCmd() []string {
	k := g.key()
	if m := g.many(); m != nil {
		return append([]string{[]string{"SADD", "SADD", "SREM"}[g.r.Intn(3)], k}, m...)
	}
	switch g.r.Intn(15) {
	case 0, 1, 2:
		return append([]string{"SADD", k}, g.vals1(5)...)
	case 3:
		return append([]string{"SREM", k}, g.vals1(3)...)
	case 4:
		return []string{"SISMEMBER", k, g.val()}
	case 5:
		return []string{"SMEMBERS", k}
	case 6:
		return []string{"SCARD", k}
	case 7:
		return []string{"SRANDMEMBER", k}
	case 8:
		return []string{"SRANDMEMBER", k, g.count()}
	case 9:
		return []string{"SPOP", k}
	case 10:
		return []string{"SPOP", k, g.count()}
	default:
		c := []string{[]string{"SDIFF", "SINTER", "SUNION"}[g.r.Intn(3)]}
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			c = append(c, g.key())
		}
		return c
	}
}

// names of all commands with arguments they all accept in number and in kind at times
var allNames = []string{"SET", "GET", "MSET", "MGET", "EXISTS", "STRLEN", "APPEND", "INCR", "INCRBY", "DECR", "DECRBY", "GETRANGE",
	"LPUSH", "RPUSH", "LPOP", "RPOP", "LINDEX", "LINSERT", "LLEN", "LRANGE", "LTRIM", "LREM", "LSET",
	"HSET", "HGET", "HMGET", "HEXISTS", "HDEL", "HKEYS", "HVALS", "HGETALL", "HSTRLEN", "HLEN",
	"SADD", "SREM", "SISMEMBER", "SMEMBERS", "SCARD", "SRANDMEMBER", "SPOP", "SDIFF", "SINTER", "SUNION"}

// badCmd is a command that has to fail: the wrong number of arguments or an unknown name.
func (g *gen) badCmd() []string {
	if g.r.Intn(4) == 0 {
		return append([]string{[]string{"PING", "", "DEL", "SETX", "get\r\n", "\x00", "LPUSHX", "ZADD", "dummy string", "SE", "GETT"}[g.r.Intn(11)]}, g.vals1(3)...)
	}
	switch n := allNames[g.r.Intn(len(allNames))]; n {
	case "INCRBY", "DECRBY":
		return append([]string{n}, g.some(0, 3, 4)...)
	case "SET", "HGET", "APPEND", "LINDEX", "HEXISTS", "HSTRLEN", "SISMEMBER":
		return append([]string{n}, g.some(0, 1, 3, 4)...)
	case "GET", "STRLEN", "LPOP", "RPOP", "LLEN", "HKEYS", "HVALS", "HGETALL", "HLEN", "SMEMBERS", "SCARD":
		return append([]string{n}, g.some(0, 2, 3)...)
	case "MSET":
		return append([]string{n}, g.some(0, 1, 3, 5)...)
	case "MGET", "EXISTS", "INCR", "DECR", "SDIFF", "SINTER", "SUNION":
		return []string{n}
	case "GETRANGE", "LRANGE", "LTRIM", "LREM", "LSET":
		return append([]string{n}, g.some(0, 1, 2, 4)...)
	case "LINSERT":
		return append([]string{n}, g.some(0, 2, 3, 5)...)
	case "HSET":
		return append([]string{n}, g.some(0, 1, 2, 4)...)
	case "LPUSH", "RPUSH", "HMGET", "HDEL", "SADD", "SREM":
		return append([]string{n}, g.some(0, 1)...)
	default: // SRANDMEMBER, SPOP
		return append([]string{n}, g.some(0, 3)...)
	}
}

func (g *gen) some(ns ...int) []string {
	n := ns[g.r.Intn(len(ns))]
	var out []string
	for i := 0; i < n; i++ {
		if i == 0 {
			out = append(out, g.key())
		} else {
			out = append(out, g.val())
		}
	}
	return out
}

// emptyKey is a write to a container under the empty key, which is refused.
func (g *gen) emptyKey() []string {
	switch g.r.Intn(6) {
	case 0:
		return []string{"LPUSH", "", g.val()}
	case 1:
		return []string{"RPUSH", "", g.val()}
	case 2:
		return []string{"HSET", "", g.val(), g.val()}
	case 3:
		return []string{"SADD", "", g.val()}
	case 4:
		return []string{"SREM", "", g.val()}
	default:
		return []string{"LSET", "", "0", g.val()}
	}
}

func (g *gen) anyCmd() []string {
	var c []string
	switch g.r.Intn(20) {
	case 0, 1, 2, 3, 4:
		c = g.strCmd()
	case 5, 6, 7, 8:
		c = g.listCmd()
	case 9, 10, 11, 12:
		c = g.hashCmd()
	case 13, 14, 15, 16:
		c = g.setCmd()
	case 17, 18:
		c = g.badCmd()
	default:
		c = g.emptyKey()
	}
	c[0] = g.mixCase(c[0])
	return c
}

// badObject is a complete RESP value that is no valid command, or whose arguments are of a wrong type. It is answered
// with an error.
func (g *gen) badObject() string {
	if g.r.Intn(3) == 0 { // something that is no string among the arguments of a command that is right otherwise
		c := [][]string{g.strCmd(), g.listCmd(), g.hashCmd(), g.setCmd()}[g.r.Intn(4)]
		at := 1 + g.r.Intn(len(c)-1)
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(c))
		for i, a := range c {
			if i == at || i > 0 && g.r.Intn(12) == 0 {
				b.WriteString([]string{":7\r\n", ":0\r\n", "-x\r\n", "*0\r\n", "*-1\r\n", "*1\r\n$1\r\na\r\n", "*2\r\n:1\r\n*1\r\n:2\r\n"}[g.r.Intn(7)])
			} else {
				b.WriteString(vk.Bulk(a).Encode())
			}
		}
		return b.String()
	}
	name := allNames[g.r.Intn(len(allNames))]
	arg := vk.Bulk(g.key()).Encode()
	switch g.r.Intn(12) {
	case 0:
		return "+PING\r\n"
	case 1:
		return ":5\r\n"
	case 2:
		return vk.Bulk(g.val()).Encode()
	case 3:
		return "-ERR x\r\n"
	case 4:
		return "$-1\r\n"
	case 5:
		return "*-1\r\n"
	case 6:
		return "*0\r\n"
	case 7: // an array in place of the name
		return "*2\r\n*1\r\n$3\r\nGET\r\n" + arg
	case 8: // an integer in place of the name
		return "*2\r\n:1\r\n" + arg
	case 9: // an integer in place of the key
		return "*2\r\n" + vk.Bulk(name).Encode() + ":7\r\n"
	case 10: // an array in place of the key
		return "*3\r\n" + vk.Bulk(name).Encode() + "*1\r\n" + arg + arg
	default: // an error in place of the key
		return "*2\r\n" + vk.Bulk(name).Encode() + "-x\r\n"
	}
}

func quoteCmd(c []string) []string {
	var out []string
	for _, a := range c {
		out = append(out, vk.Q(a))
	}
	return out
}

func quoteCmds(cs [][]string) [][]string {
	var out [][]string
	for _, c := range cs {
		out = append(out, quoteCmd(c))
	}
	return out
}
