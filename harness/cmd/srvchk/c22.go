package main

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/vk"
)

func init() { checks["C22"] = c22 }

func c22() {
	r, l := c22Begin()
	c22All(r, l)
	_ = l.Close()
	r.End()
}

func c22Begin() (*vk.Run, net.Listener) {
	r := vk.Begin("C22", "exploration", "the real client binary, fed command lines through its standard input, against a server of the harness that decodes what it sends with a strict decoder and answers with random "+
		"replies in random fragments; lines are random words (any bytes but space, quote and line end) and quoted texts with any number of spaces, lines with an unterminated quote must send nothing. "+
		"The output up to the next prompt must show every leaf of the reply in order. A line is non-trivial if it has at least two arguments or a quote; distinct by line and reply.")
	var l net.Listener
	var err error
	for j := 0; j < 240; j++ {
		if l, err = net.Listen("tcp", "127.0.0.1:6789"); err == nil {
			break
		}
		time.Sleep(500 * time.Millisecond)
	}
	if err != nil {
		r.Infra("the port the client connects to is taken: %v", err)
	}
	return r, l
}

func c22All(r *vk.Run, l net.Listener) {
	defer c22Late(r, l.(*net.TCPListener))()
	procs := r.N(12, 200)
	for p := 0; p < procs; p++ {
		c22Proc(r, l.(*net.TCPListener), p, 700)
	}
}

type promptReader struct {
	r *bufio.Reader
}

// next reads until the prompt is shown.
func (p *promptReader) next() (string, error) {
	var b strings.Builder
	for {
		c, err := p.r.ReadByte()
		if err != nil {
			return b.String(), err
		}
		b.WriteByte(c)
		if c == ' ' && strings.HasSuffix(b.String(), ">>> ") && p.r.Buffered() == 0 {
			return strings.TrimSuffix(b.String(), ">>> "), nil
		}
	}
}

func c22Proc(r *vk.Run, l *net.TCPListener, p, lines int) {
	rng := r.Rng("process", p)
	dir := r.Scratch()
	cmd := exec.Command(filepath.Join(vk.BinDir(), "realclient"))
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	ef, err := os.Create(filepath.Join(dir, "stderr.txt"))
	if err != nil {
		r.Infra("%v", err)
	}
	cmd.Stderr = ef
	if err := cmd.Start(); err != nil {
		r.Infra("start the client: %v", err)
	}
	vk.AtExit(func() { _ = cmd.Process.Kill() })
	stderr := func() string {
		time.Sleep(200 * time.Millisecond)
		b, _ := os.ReadFile(ef.Name())
		return vk.Clip(string(b), 2000)
	}
	_ = l.SetDeadline(time.Now().Add(vk.ReplyTimeout))
	conn, err := l.Accept()
	if err != nil {
		r.Violate(map[string]any{"stderr": stderr()}, "the client does not connect: %v", err)
	}
	defer conn.Close()
	cr := bufio.NewReader(conn)
	pr := &promptReader{bufio.NewReader(out)}
	var line, shown string
	var want []string
	var reply vk.Val
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"line": vk.Q(vk.Clip(line, 3000)), "arguments": quoteCmd(want), "reply": vk.Clip(reply.String(), 1000), "shown": vk.Q(shown), "stderr": stderr()},
			"line %s: %s", vk.Q(line), fmt.Sprintf(format, args...))
	}
	prompt := func() string {
		var s string
		var err error
		if !vk.Within(vk.ReplyTimeout, func() { s, err = pr.next() }) {
			fail("no prompt within %s", vk.ReplyTimeout)
		}
		shown = s
		if err != nil {
			fail("the client ended: %v %s", err, stderr())
		}
		return s
	}
	prompt()
	for k := 0; k < lines; k++ {
		line, want = c22Line(rng)
		if k%175 == 20 { // a long line, at the limits of buffers or at random
			n := []int{4095, 4096, 65535, 65536, 65537, 1 << 17, 1<<20 + 1}[rng.Intn(7)] - rng.Intn(12)
			long := c22Text(rng, false)
			for len(long) < n {
				long += c22Text(rng, false) + strings.Repeat("z", rng.Intn(1000))
			}
			line += " " + long[:n]
			want = append(want, long[:n])
			r.Count("lines_above_4000_bytes", 1)
		}
		bad := rng.Intn(12) == 0
		if bad { // a quote that is not closed
			line += " \"" + c22Text(rng, true)
		}
		if _, err := io.WriteString(in, line+"\n"); err != nil {
			fail("the client does not read: %v %s", err, stderr())
		}
		if bad {
			prompt()
			// the next line is the next that may arrive
			r.Count("lines_rejected", 1)
			r.Case(line)
			continue
		}
		_ = conn.SetReadDeadline(time.Now().Add(vk.ReplyTimeout))
		got, err := vk.ReadVal(cr)
		if err != nil {
			fail("what the client sent is not a RESP array: %v", err)
		}
		var args []string
		ok := got.T == '*' && !got.Null
		for _, a := range got.A {
			ok = ok && a.T == '$' && !a.Null
			args = append(args, a.S)
		}
		if !ok || len(args) != len(want) || fmt.Sprintf("%q", args) != fmt.Sprintf("%q", want) {
			fail("sent %s instead of %q", vk.Clip(got.String(), 500), quoteCmd(want))
		}
		if cr.Buffered() > 0 {
			fail("more bytes than the request were sent")
		}
		reply = c22Reply(rng, 0)
		b := reply.Encode()
		for len(b) > 0 {
			n := len(b)
			if rng.Intn(2) == 0 {
				n = 1 + rng.Intn(len(b))
			}
			_, _ = io.WriteString(conn, b[:n])
			b = b[n:]
			if len(b) > 0 && rng.Intn(20) == 0 {
				time.Sleep(200 * time.Microsecond)
			}
		}
		s := prompt()
		rest := s
		for i, x := range reply.A { // the elements are numbered
			num := fmt.Sprintf("%d) ", i+1)
			at := strings.Index(rest, num)
			if at < 0 {
				fail("element %d of the reply %s is not numbered as such: %s", i+1, vk.Clip(reply.String(), 500), vk.Q(s))
			}
			rest = rest[at+len(num):]
			for _, leaf := range leaves(x) {
				if at := strings.Index(rest, leaf); at >= 0 {
					rest = rest[at+len(leaf):]
				}
			}
		}
		rest = s
		for _, leaf := range leaves(reply) {
			i := strings.Index(rest, leaf)
			if i < 0 {
				fail("the reply %s is shown as %s: %s is missing or out of order", vk.Clip(reply.String(), 500), vk.Q(s), vk.Q(leaf))
			}
			rest = rest[i+len(leaf):]
		}
		if reply.T == '*' && reply.Null && strings.TrimSpace(s) == "" {
			fail("a null array is shown as nothing: %s", vk.Q(s))
		}
		if lo, hi := nils(reply); strings.Count(s, "nil") < lo || strings.Count(s, "nil") > hi {
			fail("the reply %s with %d nulls is shown as %s", vk.Clip(reply.String(), 500), lo, vk.Q(s))
		}
		r.Count("replies_shown", 1)
		r.Max("most_leaves_in_a_reply", int64(len(leaves(reply))))
		sig := ""
		if len(want) >= 2 || strings.Contains(line, "\"") {
			sig = line + reply.String()
		}
		r.Case(sig)
		if r.WantSample() && len(line) < 100 && len(s) < 200 {
			r.Sample(map[string]any{"line": vk.Q(vk.Clip(line, 3000)), "sent": quoteCmd(args), "reply": reply.String(), "shown": s})
		}
	}
	switch p % 3 {
	case 0:
		_, _ = io.WriteString(in, []string{"quit\n", "QUIT\n"}[rng.Intn(2)])
	case 1: // the end of the input
		_ = in.Close()
	default: // the server goes before or within a reply
		_, _ = io.WriteString(in, "last line\n")
		if _, err := vk.ReadVal(cr); err != nil {
			fail("what the client sent is not a RESP array: %v", err)
		}
		_, _ = io.WriteString(conn, []string{"", "$10\r\nab", "*2\r\n:1\r\n"}[rng.Intn(3)])
		_ = conn.Close()
		if !vk.Within(vk.ReplyTimeout, func() { _ = cmd.Wait() }) {
			fail("the client does not end when the server is gone")
		}
		if cmd.ProcessState.ExitCode() == 0 {
			fail("the client ends with success although its server is gone")
		}
		r.Count("servers_that_left", 1)
		_ = os.RemoveAll(dir)
		return
	}
	go func() { _, _ = io.Copy(io.Discard, pr.r) }()
	if !vk.Within(vk.ReplyTimeout, func() { _ = cmd.Wait() }) {
		fail("the client does not end after quit or the end of its input")
	}
	if cmd.ProcessState.ExitCode() != 0 {
		fail("exit status %d: %s", cmd.ProcessState.ExitCode(), stderr())
	}
	_ = os.RemoveAll(dir)
}

func c22Text(rng *rand.Rand, spaces bool) string {
	n := rng.Intn(8)
	if rng.Intn(200) == 0 {
		n = 5000
	}
	b := make([]byte, 0, n)
	for len(b) < n {
		var c byte
		switch rng.Intn(5) {
		case 0:
			c = byte(rng.Intn(256))
		case 1:
			c = "\t'\\$*+-:\x00\xff"[rng.Intn(10)]
		case 2:
			c = ' '
		default:
			c = "abcxyz0189"[rng.Intn(10)]
		}
		if c == '\n' || c == '\r' || c == '"' || c == ' ' && !spaces {
			continue
		}
		b = append(b, c)
	}
	return string(b)
}

func c22Line(rng *rand.Rand) (string, []string) {
	var want []string
	var b strings.Builder
	for i, n := 0, 1+rng.Intn(6); i < n; i++ {
		if i > 0 || rng.Intn(6) == 0 {
			b.WriteString(strings.Repeat(" ", 1+rng.Intn(3)*rng.Intn(2)))
		}
		if rng.Intn(2) == 0 {
			t := c22Text(rng, true)
			b.WriteString("\"" + t + "\"")
			want = append(want, t)
		} else {
			t := c22Text(rng, false)
			for t == "" || strings.EqualFold(t, "quit") {
				t = c22Text(rng, false)
			}
			b.WriteString(t)
			want = append(want, t)
		}
	}
	if rng.Intn(5) == 0 {
		b.WriteString(strings.Repeat(" ", 1+rng.Intn(3)))
	}
	return b.String(), want
}

func c22Reply(rng *rand.Rand, depth int) vk.Val {
	tok := fmt.Sprintf("tok%dx", rng.Intn(1000000))
	k := rng.Intn(12)
	if depth > 12 {
		k = rng.Intn(7)
	}
	switch k {
	case 0:
		return vk.Val{T: '+', S: tok}
	case 1:
		return vk.Val{T: '-', S: []string{"ERR ", "100% of %s %d %", "", "WRONG {%+v} "}[rng.Intn(4)] + tok}
	case 2:
		return vk.Val{T: ':', I: []int64{0, -1, 1, 9223372036854775807, -9223372036854775808, rng.Int63(), -rng.Int63n(100000)}[rng.Intn(7)]}
	case 3:
		return vk.Val{T: '$', Null: true}
	case 4:
		return vk.Bulk("")
	case 5:
		return vk.Bulk(tok)
	case 6:
		return vk.Bulk([]string{"two words " + tok, tok + "\r\n" + tok, tok + "\x00\xff", "é" + tok, "%s%d" + tok, strings.Repeat(tok, 2000)}[rng.Intn(6)])
	case 7:
		return vk.Val{T: '*', Null: true}
	case 8:
		return vk.Val{T: '*'}
	default:
		v := vk.Val{T: '*'}
		for i, n := 0, 1+rng.Intn(5); i < n && (depth < 3 || i < 2); i++ {
			v.A = append(v.A, c22Reply(rng, depth+1))
		}
		return v
	}
}

// nils counts the null strings, and the nulls of any kind. No text that is drawn has the word in it.
func nils(v vk.Val) (int, int) {
	switch {
	case v.T == '$' && v.Null:
		return 1, 1
	case v.T == '*' && v.Null:
		return 0, 1
	case v.T != '*':
		return 0, 0
	}
	lo, hi := 0, 1 // an empty array may be shown as one
	if len(v.A) > 0 {
		hi = 0
	}
	for _, x := range v.A {
		l, h := nils(x)
		lo, hi = lo+l, hi+h
	}
	return lo, hi
}

// leaves lists the texts that have to be shown, in order.
func leaves(v vk.Val) []string {
	switch v.T {
	case ':':
		return []string{fmt.Sprint(v.I)}
	case '*':
		var out []string
		for _, x := range v.A {
			out = append(out, leaves(x)...)
		}
		return out
	case '$':
		if v.Null {
			return []string{"nil"}
		}
	}
	if v.S == "" {
		return nil
	}
	// control and non-ASCII bytes may be shown in some other way
	var out []string
	for _, part := range strings.FieldsFunc(v.S, func(c rune) bool { return c < ' ' || c > '~' }) {
		out = append(out, part)
	}
	return out
}
