package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/util"

	"verif/vk"
)

func init() {
	checks["C33"] = check{"exploration",
		"random byte streams read in exact pieces through readers of every fragmentation, integers and near-integers parsed, texts quoted and joined, and log entries formatted; compared with the definition, with the rest of the stream checked too. " +
			"A case is one stream, number, list or entry; non-trivial unless empty; distinct by the input.",
		c33}
}

func c33(r *vk.Run) {
	cases(r, 8, r.N(400000, 20000000), func(k int, w *note) {
		rng := r.Rng("case", k)
		switch k % 4 {
		case 0:
			c33Exact(r, rng, w)
		case 1:
			c33Int(r, rng, w)
		case 2:
			c33Quote(r, rng, w)
		default:
			c33Format(r, rng, w)
		}
	})
	if ip := util.GetIP(); ip != "unknown" && net.ParseIP(ip) == nil || ip != util.GetIP() {
		r.Violate(map[string]any{"ip": ip}, "the local address %q is neither an address nor unknown", ip)
	}
}

func c33Bytes(rng *rand.Rand, max int) []byte {
	b := make([]byte, rng.Intn(max+1))
	for i := range b {
		switch rng.Intn(3) {
		case 0:
			b[i] = "\r\n\x00\xff\",\\ ä"[rng.Intn(10)]
		default:
			b[i] = byte(rng.Intn(256))
		}
	}
	return b
}

type failing struct {
	b   []byte
	err error
}

func (f *failing) ReadByte() (byte, error) {
	if len(f.b) == 0 {
		return 0, f.err
	}
	c := f.b[0]
	f.b = f.b[1:]
	return c, nil
}

func c33Exact(r *vk.Run, rng *rand.Rand, w *note) {
	max := 60
	if rng.Intn(20) == 0 {
		max = 20000
	}
	if rng.Intn(1000) == 0 {
		max = 400000
	}
	data := c33Bytes(rng, max)
	orig := append([]byte{}, data...)
	w.set(fmt.Sprintf("ReadExactBytes of %d bytes", len(data)))
	var src io.ByteReader
	var ends error = io.EOF
	switch kind := rng.Intn(5); kind {
	case 0:
		src = bytes.NewReader(data)
	case 1:
		src = bufio.NewReaderSize(bytes.NewReader(data), 16)
	case 2:
		src = bufio.NewReader(iotest.OneByteReader(bytes.NewReader(data)))
	case 3:
		src = bufio.NewReaderSize(iotest.HalfReader(bytes.NewReader(data)), 16+rng.Intn(50))
	default:
		ends = io.ErrClosedPipe
		src = &failing{data, ends}
	}
	at := 0
	var counts []int
	type piece struct {
		b  []byte
		at int
	}
	var kept []piece
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"data": vk.Q(string(data)), "counts": counts}, "reading %v of %d bytes: %s", counts, len(data), fmt.Sprintf(format, args...))
	}
	for {
		n := rng.Intn(12)
		switch rng.Intn(10) {
		case 0:
			n = len(data) - at
		case 1:
			n = len(data) - at + 1 + rng.Intn(3)
		case 2:
			n = rng.Intn(len(data) + 1)
		}
		counts = append(counts, n)
		got, err := util.ReadExactBytes(src, n)
		if at+n > len(data) {
			if err != ends || got != nil {
				fail("too few bytes give %d bytes and the error %v instead of %v", len(got), err, ends)
			}
			if _, err := src.ReadByte(); err == nil {
				fail("a failed read leaves bytes behind")
			}
			break
		}
		if err != nil || !bytes.Equal(got, orig[at:at+n]) {
			fail("piece at %d is %s, %v", at, vk.Q(string(got)), err)
		}
		switch rng.Intn(3) {
		case 0: // the caller's to overwrite
			for i := range got {
				got[i] ^= 0x55
			}
		case 1:
			kept = append(kept, piece{got, at})
		}
		for _, p := range kept {
			if !bytes.Equal(p.b, orig[p.at:p.at+len(p.b)]) {
				fail("the piece at %d has changed into %s", p.at, vk.Q(string(p.b)))
			}
		}
		at += n
		r.Count("pieces_read", 1)
		if len(counts) > 200 {
			rest := make([]byte, 0)
			for {
				c, err := src.ReadByte()
				if err != nil {
					break
				}
				rest = append(rest, c)
			}
			if !bytes.Equal(rest, orig[at:]) {
				fail("the rest of the stream is changed")
			}
			break
		}
	}
	sig := ""
	if len(data) > 0 {
		sig = fmt.Sprint(counts, vk.Q(string(data)))
	}
	r.Case(sig)
}

func c33Int(r *vk.Run, rng *rand.Rand, w *note) {
	s := ""
	switch rng.Intn(5) {
	case 0:
		b := new(big.Int).Add(big.NewInt([]int64{math.MaxInt64, math.MinInt64, 0, 1 << 32}[rng.Intn(4)]), big.NewInt(rng.Int63n(7)-3))
		s = b.String()
	case 1:
		s = strconv.FormatInt(rng.Int63()-rng.Int63(), 10)
	case 2:
		for n := rng.Intn(24); n > 0; n-- {
			s += string("0123456789+-_ x.e"[rng.Intn(17)])
		}
	case 3:
		s = strings.Repeat("0", rng.Intn(30)) + strconv.Itoa(rng.Intn(100))
	default:
		s = string("+- "[rng.Intn(3)]) + strconv.FormatInt(rng.Int63(), 10)
	}
	w.set("ParseInt64 " + s)
	// the definition: an optional sign and digits whose value fits
	digits := s
	if s != "" && (s[0] == '+' || s[0] == '-') {
		digits = s[1:]
	}
	valid := digits != ""
	for _, c := range digits {
		if c < '0' || c > '9' {
			valid = false
		}
	}
	var want *big.Int
	if valid {
		want, _ = new(big.Int).SetString(digits, 10)
		if s[0] == '-' {
			want.Neg(want)
		}
		valid = want.IsInt64()
	}
	got, err := util.ParseInt64(s)
	if (err == nil) != valid || valid && got != want.Int64() {
		r.Violate(map[string]any{"text": s}, "ParseInt64(%q) gives %d, %v", s, got, err)
	}
	if valid {
		r.Count("integers_parsed", 1)
	} else {
		r.Count("texts_that_are_no_integer", 1)
	}
	r.Case("i" + s)
}

// unjoin splits what QuoteJoin made, which must be possible without knowing the elements.
func unjoin(s, sep string) ([]string, bool) {
	var out []string
	for s != "" {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return out, false
		}
		t, err := strconv.Unquote(q)
		if err != nil {
			return out, false
		}
		out = append(out, t)
		s = s[len(q):]
		if s == "" {
			return out, true
		}
		if !strings.HasPrefix(s, sep) {
			return out, false
		}
		s = s[len(sep):]
		if s == "" {
			return out, false
		}
	}
	return out, len(out) == 0
}

func c33Quote(r *vk.Run, rng *rand.Rand, w *note) {
	var l []string
	n, size := rng.Intn(6), 12
	switch rng.Intn(500) {
	case 0:
		n = rng.Intn(3000)
	case 1:
		size = 100000
	}
	for ; n > 0; n-- {
		l = append(l, string(c33Bytes(rng, size)))
	}
	sep := []string{",", ", ", ";", " ", "\"", "--"}[rng.Intn(6)]
	w.set(fmt.Sprintf("QuoteJoin %q", l))
	before := fmt.Sprintf("%q", l)
	got := util.QuoteJoin(l, sep)
	back, ok := unjoin(got, sep)
	if !ok || fmt.Sprintf("%q", back) != before || fmt.Sprintf("%q", l) != before {
		r.Violate(map[string]any{"texts": before, "separator": sep, "result": got}, "QuoteJoin of %s with %q gives %s", before, sep, got)
	}
	for i := 0; i < len(got); i++ {
		if got[i] < ' ' || got[i] == 0x7f {
			r.Violate(map[string]any{"texts": before, "result": got}, "QuoteJoin of %s leaves a control character in %q", before, got)
		}
	}
	r.Count("texts_quoted", int64(len(l)))
	sig := ""
	if len(l) > 0 {
		sig = "q" + sep + before
	}
	r.Case(sig)
}

func c33Format(r *vk.Run, rng *rand.Rand, w *note) {
	name := []string{"set", "lpush", "hdel", "sadd"}[rng.Intn(4)]
	objects := []protocol.RedisObject{protocol.NewBulkRedisString(name)}
	var encoded []string
	n, size := rng.Intn(5), 12
	switch rng.Intn(500) {
	case 0:
		n = rng.Intn(3000)
	case 1:
		size = 100000
	}
	for ; n > 0; n-- {
		o := protocol.NewBulkRedisString(string(c33Bytes(rng, size)))
		objects = append(objects, o)
		encoded = append(encoded, o.String())
	}
	index := rng.Intn(16)
	vl := log.NewLog(name, index, objects)
	w.set("FormatLog")
	got := log.FormatLog(vl)
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"text": got, "arguments": encoded}, "%s: %s", got, fmt.Sprintf(format, args...))
	}
	if strings.ContainsAny(got, "\r\n\x00") {
		fail("it is not a single line")
	}
	for _, part := range []string{"id=" + vl.Id + ",", "name=" + name + ",", fmt.Sprintf("index=%d,", index), "host=" + util.GetIP() + ",", fmt.Sprintf("time=%d,", vl.Time)} {
		if !strings.Contains(got, part) {
			fail("%q is missing", part)
		}
	}
	at := strings.Index(got, "arguments=[")
	if at < 0 {
		fail("there are no arguments")
	}
	rest := got[at+len("arguments=["):]
	for i, e := range encoded {
		if i > 0 {
			if !strings.HasPrefix(rest, ",") {
				fail("argument %d does not follow", i)
			}
			rest = rest[1:]
		}
		q, err := strconv.QuotedPrefix(rest)
		t, err2 := strconv.Unquote(q)
		if err != nil || err2 != nil || t != e {
			fail("argument %d is %s instead of %q", i, q, e)
		}
		rest = rest[len(q):]
	}
	if !strings.HasPrefix(rest, "], raw_request=") {
		fail("there is more than the arguments: %s", rest)
	}
	q, err := strconv.QuotedPrefix(rest[len("], raw_request="):])
	raw, err2 := strconv.Unquote(q)
	wantRaw := fmt.Sprintf("*%d\r\n%s%s", len(objects), objects[0].String(), strings.Join(encoded, ""))
	if err != nil || err2 != nil || raw != wantRaw {
		fail("the raw request is %s instead of %q", q, wantRaw)
	}
	if r.WantSample() {
		r.Sample(got)
	}
	r.Count("entries_formatted", 1)
	r.Case("f" + name + strings.Join(encoded, ""))
}
