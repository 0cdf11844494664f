package main

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"

	"github.com/lxdlam/vertex/pkg/protocol"

	"verif/vk"
)

func init() {
	checks["C09"] = check{"exploration",
		"random RESP objects of every type (binary bulk strings, nulls, nested arrays, extreme integers) are built with the library: their bytes must be those of an independent encoder; sequences of them are " +
			"decoded from a reader that hands out random fragments and notices if it is asked for bytes beyond the object being decoded; every proper prefix must give an error; mutated and random bytes must not " +
			"panic or hang, and where a strict independent decoder accepts them, the same object must come out. A case is one object sequence, prefix set or hostile text; non-trivial if it holds an array or is longer than 8 bytes; distinct by bytes.",
		c09}
}

func c09(r *vk.Run) {
	r.Assume("simple strings and errors are single lines: they hold no CR or LF, as RESP requires")
	r.Assume("arrays are nested at most 512 deep, the documented limit of the reader")
	defer c09Volume(r)()
	cases(r, 8, r.N(40000, 3000000), func(k int, w *note) {
		rng := r.Rng("case", k)
		switch x := rng.Intn(10); {
		case x < 5:
			c09Sequence(r, rng, w)
		case x < 7:
			c09Prefixes(r, rng, w)
		default:
			c09Hostile(r, rng, w)
		}
	})
}

func respText(rng *rand.Rand) string {
	n := 0
	switch rng.Intn(8) {
	case 0:
	case 1, 2, 3:
		n = 1 + rng.Intn(4)
	case 4, 5:
		n = rng.Intn(40)
	case 6:
		n = rng.Intn(400)
	default:
		n = []int{4094, 4095, 4096, 4097, 8192, 5000, 20000}[rng.Intn(7)]
		if rng.Intn(6) > 0 {
			n = rng.Intn(60)
		}
	}
	b := make([]byte, n)
	alphabet := []string{"\r\n", "abc\r\n$:*+-0123456789", "\x00\xff\x80\r\n"}[rng.Intn(3)]
	all := rng.Intn(2) == 0
	for i := range b {
		if all {
			b[i] = byte(rng.Intn(256))
		} else {
			b[i] = alphabet[rng.Intn(len(alphabet))]
		}
	}
	return string(b)
}

func respLine(rng *rand.Rand) string {
	return strings.Map(func(c rune) rune {
		if c == '\r' || c == '\n' {
			return '~'
		}
		return c
	}, fmt.Sprintf("%s", strings.ToValidUTF8(respText(rng), "\xc3\xa9")))
}

func respInt(rng *rand.Rand) int64 {
	switch rng.Intn(4) {
	case 0:
		return []int64{0, 1, -1, 9223372036854775807, -9223372036854775808, 10, -10, 99, 100}[rng.Intn(9)]
	case 1:
		return int64(rng.Uint64())
	default:
		return int64(rng.Intn(2000) - 1000)
	}
}

func respVal(rng *rand.Rand, depth int) vk.Val {
	n := 8
	if depth > 5 {
		n = 6
	}
	switch rng.Intn(n) {
	case 0:
		return vk.Val{T: '+', S: respLine(rng)}
	case 1:
		return vk.Val{T: '-', S: respLine(rng)}
	case 2:
		return vk.Val{T: ':', I: respInt(rng)}
	case 3, 4:
		return vk.Val{T: '$', S: respText(rng)}
	case 5:
		if rng.Intn(2) == 0 {
			return vk.Val{T: '*', Null: true}
		}
		return vk.Val{T: '$', Null: true}
	default:
		v := vk.Val{T: '*'}
		for i := rng.Intn(6); i > 0; i-- {
			v.A = append(v.A, respVal(rng, depth+1))
		}
		return v
	}
}

// libObject builds the object with the library.
func libObject(v vk.Val) protocol.RedisObject {
	switch {
	case v.T == '+':
		return protocol.NewSimpleRedisString(v.S)
	case v.T == '-' && len(v.S)%2 == 0:
		return protocol.NewRedisErrorFromGoError(fmt.Errorf("%s", v.S))
	case v.T == '-':
		return protocol.NewRedisError(v.S)
	case v.T == ':':
		return protocol.NewRedisInteger(v.I)
	case v.T == '$' && v.Null:
		return protocol.NewNullBulkRedisString()
	case v.T == '$':
		return protocol.NewBulkRedisString(v.S)
	case v.Null:
		return protocol.NewNullRedisArray()
	}
	var objects []protocol.RedisObject
	for _, x := range v.A {
		objects = append(objects, libObject(x))
	}
	return protocol.NewRedisArray(objects)
}

// sameObject compares what the library holds with the value, "" if it is the same.
func sameObject(o protocol.RedisObject, v vk.Val) string {
	if o == nil {
		return "no object"
	}
	want := v.Encode()
	if string(o.Byte()) != want || o.String() != want {
		return fmt.Sprintf("renders as %s and %s instead of %s", vk.Q(string(o.Byte())), vk.Q(o.String()), vk.Q(want))
	}
	if o.Type() != string(v.T) {
		return "has type " + o.Type()
	}
	switch x := o.(type) {
	case protocol.RedisArray:
		if v.T != '*' || len(x.Data()) != len(v.A) {
			return fmt.Sprintf("has %d elements", len(x.Data()))
		}
		for i, e := range x.Data() {
			if s := sameObject(e, v.A[i]); s != "" {
				return fmt.Sprintf("element %d %s", i, s)
			}
		}
	case protocol.RedisInteger:
		if v.T != ':' || x.Data() != v.I {
			return fmt.Sprintf("has value %d", x.Data())
		}
	case protocol.RedisError:
		if v.T != '-' || x.Message() != v.S || x.Error() == nil || x.Error().Error() != v.S {
			return "has message " + vk.Q(x.Message())
		}
	case protocol.RedisString:
		if (v.T != '$' && v.T != '+') || x.Data() != v.S {
			return "has value " + vk.Q(x.Data())
		}
	default:
		return fmt.Sprintf("is a %T", o)
	}
	return ""
}

// fragReader hands out the bytes in random fragments, never past the current limit.
type fragReader struct {
	data  string
	limit int
	at    int
	rng   *rand.Rand
	mode  int
	over  bool
	reads int
}

func (f *fragReader) Read(p []byte) (int, error) {
	f.reads++
	n := f.limit - f.at
	if n == 0 {
		f.over = f.limit < len(f.data)
		return 0, io.EOF
	}
	if n > len(p) {
		n = len(p)
	}
	switch {
	case f.mode == 0:
		n = 1
	case f.mode == 1:
		n = 1 + f.rng.Intn(n)
	case f.mode == 2 && n > 7:
		n = 1 + f.rng.Intn(7)
	}
	copy(p, f.data[f.at:f.at+n])
	f.at += n
	return n, nil
}

func c09Sequence(r *vk.Run, rng *rand.Rand, w *note) {
	var vals []vk.Val
	var ends []int
	var b strings.Builder
	nested := false
	for i := 1 + rng.Intn(6); i > 0; i-- {
		v := respVal(rng, 0)
		if rng.Intn(400) == 0 { // nested as deep as the documented limit allows
			d := []int{511, 512, 100}[rng.Intn(3)]
			v = vk.Val{T: '*', A: []vk.Val{}}
			for j := 1; j < d; j++ {
				v = vk.Val{T: '*', A: []vk.Val{v}}
			}
		}
		if rng.Intn(2000) == 0 {
			v = vk.Val{T: '*'}
			for j := 0; j < 3000; j++ {
				v.A = append(v.A, vk.Val{T: ':', I: int64(j)})
			}
		}
		nested = nested || v.T == '*'
		o := libObject(v)
		if s := sameObject(o, v); s != "" {
			r.Violate(map[string]any{"object": vk.Clip(v.String(), 2000)}, "the object %s %s", vk.Clip(v.String(), 500), s)
		}
		vals = append(vals, v)
		b.Write(o.Byte())
		ends = append(ends, b.Len())
	}
	all := b.String()
	w.set(vk.Q(all))
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"bytes": vk.Q(all), "objects": len(vals)}, "decoding %s: %s", vk.Q(all), fmt.Sprintf(format, args...))
	}
	for mode := 0; mode < 4; mode++ {
		if mode == 0 && len(all) > 3000 {
			continue
		}
		together := rng.Intn(2) == 0
		f := &fragReader{data: all, rng: rng, mode: mode}
		rd := protocol.NewRESPReader(f)
		if rng.Intn(2) == 0 {
			rd = protocol.NewRESPReader(bufio.NewReader(f))
		}
		for i, v := range vals {
			f.limit = ends[i]
			if together {
				f.limit = len(all)
			}
			o, err := rd.ReadObject()
			if f.over {
				fail("object %d is complete, but more bytes were asked for", i)
			}
			if err != nil {
				fail("object %d fails: %v", i, err)
			}
			if s := sameObject(o, v); s != "" {
				fail("object %d %s", i, s)
			}
			r.Count("objects_decoded", 1)
		}
		if o, err := rd.ReadObject(); err == nil || o != nil {
			fail("an object after the end: %v", o)
		}
		r.Count("fragments", int64(f.reads))
	}
	o, err := protocol.Parse(strings.NewReader(all))
	if err != nil {
		fail("Parse fails: %v", err)
	}
	if s := sameObject(o, vals[0]); s != "" {
		fail("Parse: %s", s)
	}
	sig := ""
	if nested || len(all) > 8 {
		sig = all
	}
	if r.WantSample() && len(all) < 200 && nested {
		r.Sample(map[string]any{"sequence": vk.Q(all)})
	}
	r.Case(sig)
}

func c09Prefixes(r *vk.Run, rng *rand.Rand, w *note) {
	v := respVal(rng, 0)
	all := string(libObject(v).Byte())
	w.set(vk.Q(all))
	step := 1 + len(all)/600
	for n := rng.Intn(step); n < len(all); n += step {
		part := all[:n]
		var o protocol.RedisObject
		var err error
		if rng.Intn(2) == 0 {
			o, err = protocol.Parse(&fragReader{data: part, limit: n, rng: rng, mode: rng.Intn(4)})
		} else {
			o, err = protocol.NewRESPReader(strings.NewReader(part)).ReadObject()
		}
		if err == nil || o != nil {
			r.Violate(map[string]any{"prefix": vk.Q(part), "of": vk.Q(all)}, "the prefix %s of %s gives %v, %v", vk.Q(part), vk.Q(all), o, err)
		}
		r.Count("prefixes", 1)
	}
	sig := ""
	if len(all) > 8 {
		sig = "prefix" + all
	}
	r.Case(sig)
}

func c09Hostile(r *vk.Run, rng *rand.Rand, w *note) {
	var text string
	switch rng.Intn(5) {
	case 0:
		text = respText(rng)
	case 1: // bits of the protocol in any order
		bits := []string{"*", "$", ":", "+", "-", "\r\n", "\n", "\r", "-1", "-2", "-9223372036854775808", "9223372036854775807", "9223372036854775806", "9223372036854775805", "99999999999999999999",
			"0", "1", "2", "3", "10", "a", "abc", "", " ", "\x00", "+5", "1e3", "0x10", "*1\r\n", "$3\r\nabc\r\n", "$-5\r\n", "*-7\r\n"}
		for i := 1 + rng.Intn(12); i > 0; i-- {
			text += bits[rng.Intn(len(bits))]
		}
	case 2: // endless nesting
		if rng.Intn(20) == 0 {
			text = strings.Repeat(fmt.Sprintf("*%d\r\n", 1+rng.Intn(2)), 500+rng.Intn(3000))
		} else {
			text = strings.Repeat("*1\r\n", rng.Intn(30)) + respText(rng)
		}
	default:
		b := []byte(respVal(rng, 0).Encode())
		for i := 1 + rng.Intn(3); i > 0 && len(b) > 0; i-- {
			at := rng.Intn(len(b))
			switch rng.Intn(4) {
			case 0:
				b[at] = byte(rng.Intn(256))
			case 1:
				b[at] = "*$:+-\r\n0129"[rng.Intn(11)]
			case 2:
				b = append(b[:at], b[at+1:]...)
			default:
				b = append(b[:at], append([]byte{"*$:+-\r\n0129"[rng.Intn(11)]}, b[at:]...)...)
			}
		}
		text = string(b)
	}
	w.set(vk.Q(text))
	ref := bufio.NewReader(strings.NewReader(text))
	rd := protocol.NewRESPReader(&fragReader{data: text, limit: len(text), rng: rng, mode: rng.Intn(4)})
	agree, at := true, 0
	for {
		o, err := rd.ReadObject()
		if at >= 0 {
			end, no := looseVal(text, at, 0)
			if no && err == nil {
				r.Violate(map[string]any{"bytes": vk.Q(text)}, "%s, which is not RESP from byte %d on, gives the object %s", vk.Q(text), at, vk.Q(o.String()))
			} else if no {
				r.Count("hostile_objects_rejected", 1)
			}
			at = end
		}
		if agree {
			want, werr := vk.ReadVal(ref)
			switch {
			case werr != nil:
				agree = false // what the strict decoder rejects may be accepted, unless the loose one rejects it as well
			case err != nil:
				if deepest(want) <= 512 {
					r.Violate(map[string]any{"bytes": vk.Q(text)}, "valid bytes %s are rejected: %v", vk.Q(text), err)
				}
			default:
				if s := sameObject(o, want); s != "" {
					r.Violate(map[string]any{"bytes": vk.Q(text)}, "decoding %s gives an object that %s", vk.Q(text), s)
				}
				r.Count("hostile_objects_agreed", 1)
			}
		}
		if err != nil {
			break
		}
	}
	r.Count("hostile_texts", 1)
	sig := ""
	if len(text) > 8 {
		sig = "hostile" + text
	}
	r.Case(sig)
}

// looseVal tells where the object at a position of a text ends, -1 if that is not clear, and whether there is none
// by any reading: no known type, no number where one has to be, a length that does not match, or too few bytes.
func looseVal(text string, at, depth int) (int, bool) {
	n := strings.Index(text[at:], "\r\n")
	if n < 0 {
		return -1, true
	}
	line := text[at : at+n]
	at += n + 2
	if line == "" {
		return -1, true
	}
	if strings.ContainsAny(line, "\r\n") || depth > 500 {
		return -1, false
	}
	switch line[0] {
	case '+', '-':
		return at, false
	case ':':
		if _, err := strconv.ParseInt(line[1:], 10, 64); err != nil {
			return -1, true
		}
		return at, false
	case '$', '*':
		l, err := strconv.ParseInt(line[1:], 10, 64)
		if err != nil || l < -1 {
			return -1, true
		}
		if l == -1 {
			return at, false
		}
		if line[0] == '$' {
			if l > int64(len(text)) || at+int(l)+2 > len(text) || text[at+int(l):at+int(l)+2] != "\r\n" {
				return -1, true
			}
			return at + int(l) + 2, false
		}
		for i := int64(0); i < l; i++ {
			var no bool
			if at, no = looseVal(text, at, depth+1); at < 0 {
				return at, no
			}
		}
		return at, false
	}
	return -1, true
}

func deepest(v vk.Val) int {
	d := 0
	for _, x := range v.A {
		if e := deepest(x); e > d {
			d = e
		}
	}
	if v.T == '*' && !v.Null {
		d++
	}
	return d
}
