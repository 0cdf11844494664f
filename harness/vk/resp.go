package vk

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"
)

// Val is a RESP value. It is decoded strictly and independently of the code under test.
type Val struct {
	T    byte // '+', '-', ':', '$' or '*'
	S    string
	I    int64
	A    []Val
	Null bool
}

// ErrMalformed is returned if the bytes are not RESP.
var ErrMalformed = errors.New("malformed RESP")

func (v Val) String() string {
	switch {
	case v.Null:
		return string(v.T) + "nil"
	case v.T == ':':
		return fmt.Sprintf(":%d", v.I)
	case v.T == '*':
		var parts []string
		for _, x := range v.A {
			parts = append(parts, x.String())
		}
		return "[" + strings.Join(parts, " ") + "]"
	default:
		return string(v.T) + Q(v.S)
	}
}

// Encode gives the bytes of the value.
func (v Val) Encode() string {
	switch {
	case v.Null:
		return string(v.T) + "-1\r\n"
	case v.T == ':':
		return fmt.Sprintf(":%d\r\n", v.I)
	case v.T == '$':
		return fmt.Sprintf("$%d\r\n%s\r\n", len(v.S), v.S)
	case v.T == '*':
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(v.A))
		for _, x := range v.A {
			b.WriteString(x.Encode())
		}
		return b.String()
	default:
		return string(v.T) + v.S + "\r\n"
	}
}

// Equal compares two values exactly.
func (v Val) Equal(o Val) bool {
	if v.T != o.T || v.Null != o.Null || v.S != o.S || v.I != o.I || len(v.A) != len(o.A) {
		return false
	}
	for i := range v.A {
		if !v.A[i].Equal(o.A[i]) {
			return false
		}
	}
	return true
}

func readLine(r *bufio.Reader) (string, error) {
	s, err := r.ReadString('\n')
	if err != nil {
		if err == io.EOF && s != "" {
			err = io.ErrUnexpectedEOF
		}
		return s, err
	}
	if len(s) < 2 || s[len(s)-2] != '\r' {
		return s, fmt.Errorf("%w: line %s", ErrMalformed, Q(s))
	}
	s = s[:len(s)-2]
	if strings.ContainsAny(s, "\r\n") {
		return s, fmt.Errorf("%w: line %s", ErrMalformed, Q(s))
	}
	return s, nil
}

func parseLen(s string) (int64, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || n < -1 || strconv.FormatInt(n, 10) != s {
		return 0, fmt.Errorf("%w: length %s", ErrMalformed, Q(s))
	}
	return n, nil
}

// ReadVal decodes one value. io.EOF means a clean end before it.
func ReadVal(r *bufio.Reader) (Val, error) {
	line, err := readLine(r)
	if err != nil {
		return Val{}, err
	}
	if line == "" {
		return Val{}, fmt.Errorf("%w: empty line", ErrMalformed)
	}
	v := Val{T: line[0]}
	rest := line[1:]
	switch v.T {
	case '+', '-':
		v.S = rest
	case ':':
		v.I, err = strconv.ParseInt(rest, 10, 64)
		if err != nil || strconv.FormatInt(v.I, 10) != rest {
			return v, fmt.Errorf("%w: integer %s", ErrMalformed, Q(rest))
		}
	case '$':
		n, err := parseLen(rest)
		if err != nil {
			return v, err
		}
		if n == -1 {
			v.Null = true
			return v, nil
		}
		if n > 1<<20 { // do not allocate what may never come
			if _, err := r.Peek(r.Size()); err != nil {
				return v, io.ErrUnexpectedEOF
			}
			if n > 1<<28 {
				return v, fmt.Errorf("%w: length %d", ErrMalformed, n)
			}
		}
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(r, buf); err != nil {
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return v, err
		}
		if buf[n] != '\r' || buf[n+1] != '\n' {
			return v, fmt.Errorf("%w: no CRLF after a bulk string of %d bytes", ErrMalformed, n)
		}
		v.S = string(buf[:n])
	case '*':
		n, err := parseLen(rest)
		if err != nil {
			return v, err
		}
		if n == -1 {
			v.Null = true
			return v, nil
		}
		for i := int64(0); i < n; i++ {
			x, err := ReadVal(r)
			if err != nil {
				if err == io.EOF {
					err = io.ErrUnexpectedEOF
				}
				return v, err
			}
			v.A = append(v.A, x)
		}
	default:
		return v, fmt.Errorf("%w: line %s", ErrMalformed, Q(line))
	}
	return v, nil
}

// Bulk makes a bulk string.
func Bulk(s string) Val { return Val{T: '$', S: s} }

// Cmd encodes a command.
func Cmd(args ...string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(args))
	for _, a := range args {
		fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(a), a)
	}
	return b.String()
}

// ReplyTimeout bounds every wait for a reply. It is far above what any loaded machine needs.
var ReplyTimeout = 60 * time.Second

// Client is a connection to the server under test.
type Client struct {
	C       net.Conn
	R       *bufio.Reader
	Timeout time.Duration
}

// Dial connects, and tries again for a while if the machine is out of ports or the backlog is full.
func Dial(addr string) (*Client, error) {
	var err error
	for i := 0; i < 20; i++ {
		var c net.Conn
		c, err = net.DialTimeout("tcp", addr, 20*time.Second)
		if err == nil {
			return &Client{C: c, R: bufio.NewReaderSize(c, 1<<16), Timeout: ReplyTimeout}, nil
		}
		time.Sleep(50 * time.Millisecond)
	}
	return nil, err
}

// Close the connection.
func (c *Client) Close() { _ = c.C.Close() }

// Reset closes the connection with a RST.
func (c *Client) Reset() {
	if t, ok := c.C.(*net.TCPConn); ok {
		_ = t.SetLinger(0)
	}
	_ = c.C.Close()
}

// Raw writes bytes.
func (c *Client) Raw(s string) error {
	_ = c.C.SetWriteDeadline(time.Now().Add(c.Timeout))
	_, err := io.WriteString(c.C, s)
	return err
}

// Recv reads one reply.
func (c *Client) Recv() (Val, error) {
	_ = c.C.SetReadDeadline(time.Now().Add(c.Timeout))
	return ReadVal(c.R)
}

// Do sends a command and waits for its reply.
func (c *Client) Do(args ...string) (Val, error) {
	if err := c.Raw(Cmd(args...)); err != nil {
		return Val{}, err
	}
	return c.Recv()
}

// Pipe sends commands in one go and reads their replies.
func (c *Client) Pipe(cmds [][]string) ([]Val, error) {
	var b strings.Builder
	for _, cmd := range cmds {
		b.WriteString(Cmd(cmd...))
	}
	errc := make(chan error, 1)
	go func() { errc <- c.Raw(b.String()) }()
	var out []Val
	for range cmds {
		v, err := c.Recv()
		if err != nil {
			return out, err
		}
		out = append(out, v)
	}
	return out, <-errc
}

// IsTimeout reports if a wait ran out.
func IsTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}
