package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"

	"verif/vk"
)

func init() {
	checks["C12"] = check{"fault_enumeration",
		"sequences of log entries made from random requests with binary arguments are packed one after another and parsed back from a fragmenting reader: command, index, arguments and raw request of every entry must " +
			"come back in order; the stream is then cut at every byte (large ones at sampled bytes and around every boundary) and must yield exactly its complete entries; the content of entries is overwritten with bytes that are no " +
			"message and exactly the others must come back; random damage must not panic, and the entries before it must come back unchanged. A case is one stream; non-trivial with two entries or an argument that is not valid UTF-8; distinct by stream.",
		c12}
}

type logEntry struct {
	name  string
	index int
	args  []string
	end   int // offset in the stream
}

func c12(r *vk.Run) {
	r.Assume("command names are ASCII words, as for every command there is")
	r.Assume("damage that leaves the length intact is judged for contents that are no protobuf message")
	for i := 0; i < r.N(2, 8); i++ {
		c12Long(r, r.Rng("long", i))
	}
	c12Sizes(r)
	cases(r, 8, r.N(2000, 200000), func(k int, w *note) { c12Case(r, r.Rng("case", k), w) })
}

// c12Long packs an entry longer than 16 MiB between two short ones.
func c12Long(r *vk.Run, rng *rand.Rand) {
	var entries []logEntry
	var stream []byte
	for i := 0; i < 3; i++ {
		e := logEntry{name: "SET", index: i, args: []string{"key", fmt.Sprint(i)}}
		if i == 1 {
			e.args[1] = strings.Repeat(string(rune('a'+rng.Intn(26))), 8<<20+rng.Intn(3<<20)) // it is in the entry twice
		}
		b, err := log.PackLog(log.NewLog("SET", i, []protocol.RedisObject{protocol.NewBulkRedisString("SET"), protocol.NewBulkRedisString("key"), protocol.NewBulkRedisString(e.args[1])}))
		if err != nil {
			r.Violate(map[string]any{"length": len(e.args[1])}, "an entry with an argument of %d bytes cannot be packed: %v", len(e.args[1]), err)
		}
		stream = append(stream, b...)
		entries = append(entries, e)
	}
	rep := map[string]any{"entries": 3, "length_of_the_argument_in_the_second": len(entries[1].args[1])}
	got, err := log.ParseLog(bytes.NewReader(stream))
	if err != nil {
		r.Violate(rep, "a stream with a long entry gives an error: %v", err)
	}
	if len(got) != 3 {
		r.Violate(rep, "a stream of 3 entries, one long, comes back as %d", len(got))
	}
	if s := sameEntries(got, entries, true); s != "" {
		r.Violate(rep, "a stream with a long entry: %.300s", s)
	}
	if got, _ = log.ParseLog(bytes.NewReader(stream[:len(stream)/2])); len(got) != 1 {
		r.Violate(rep, "a stream cut in its long entry comes back as %d entries, 1 is complete", len(got))
	}
	r.Count("long_entries", 1)
	r.Case(fmt.Sprint("long", len(stream)))
}

// c12Sizes packs entries of all lengths close to the powers of two (the argument is in an entry twice, the index takes one byte or two).
func c12Sizes(r *vk.Run) {
	top := 16
	if r.Thorough() {
		top = 20
	}
	vk.Parallel(top-6, func(w int) {
		k := w + 7
		var entries []logEntry
		var stream []byte
		for n := max(0, 1<<(k-1)-150); n <= 1<<(k-1)+4; n++ {
			for _, index := range []int{1, 200} {
				e := logEntry{name: "SET", index: index, args: []string{strings.Repeat(string(rune('a'+n%26)), n)}}
				b, err := log.PackLog(log.NewLog("SET", index, []protocol.RedisObject{protocol.NewBulkRedisString("SET"), protocol.NewBulkRedisString(e.args[0])}))
				if err != nil {
					r.Violate(map[string]any{"length": n}, "an entry with an argument of %d bytes cannot be packed: %v", n, err)
				}
				if d := len(b) - 1<<k; d < -8 || d > 8 {
					continue
				}
				entries = append(entries, e)
				stream = append(stream, b...)
			}
		}
		rep := map[string]any{"entries": len(entries), "length_of_each_about": 1 << k}
		got, err := log.ParseLog(bytes.NewReader(stream))
		if err != nil {
			r.Violate(rep, "entries of about %d bytes give an error: %v", 1<<k, err)
		}
		if s := sameEntries(got, entries, true); s != "" {
			r.Violate(rep, "entries of about %d bytes: %.300s", 1<<k, s)
		}
		r.Count("entries_of_a_length_close_to_a_power_of_two", int64(len(entries)))
		r.Case(fmt.Sprint("sizes", k))
	})
}

// sameEntry compares a parsed entry with what was logged, "" if it is the same.
func sameEntry(vl *log.VertexLog, e logEntry) string {
	if vl.Name != e.name {
		return "has command " + vk.Q(vl.Name)
	}
	if int(vl.Index) != e.index {
		return fmt.Sprintf("has index %d instead of %d", vl.Index, e.index)
	}
	if len(vl.Arguments) != len(e.args) {
		return fmt.Sprintf("has %d arguments instead of %d", len(vl.Arguments), len(e.args))
	}
	for i, a := range vl.Arguments {
		if string(a) != vk.Bulk(e.args[i]).Encode() {
			return fmt.Sprintf("has argument %d %s instead of the encoding of %s", i, vk.Q(string(a)), vk.Q(e.args[i]))
		}
		o, err := protocol.Parse(bytes.NewReader(a))
		if err != nil {
			return fmt.Sprintf("has an argument %d that cannot be parsed: %v", i, err)
		}
		s, ok := o.(protocol.RedisString)
		if !ok || s.Data() != e.args[i] {
			return fmt.Sprintf("has argument %d %s", i, vk.Q(o.String()))
		}
	}
	if string(vl.RawRequest) != vk.Cmd(append([]string{e.name}, e.args...)...) {
		return "has raw request " + vk.Q(string(vl.RawRequest))
	}
	return ""
}

func sameEntries(got []*log.VertexLog, want []logEntry, exact bool) string {
	for i, e := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d entries come back instead of %d", len(got), len(want))
		}
		if s := sameEntry(got[i], e); s != "" {
			return fmt.Sprintf("entry %d %s", i, s)
		}
	}
	if exact && len(got) != len(want) {
		return fmt.Sprintf("%d entries come back instead of %d", len(got), len(want))
	}
	return ""
}

// failingReader gives the data in pieces and then an error.
type failingReader struct {
	data []byte
	rng  *rand.Rand
	err  error
}

func (f *failingReader) Read(b []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, f.err
	}
	n := min(len(b), len(f.data), 1+f.rng.Intn(len(f.data)))
	copy(b, f.data[:n])
	f.data = f.data[n:]
	return n, nil
}

// c12Failing reads a stream from a source that fails in the middle.
func c12Failing(r *vk.Run, rng *rand.Rand, entries []logEntry, stream []byte) {
	at := rng.Intn(len(stream) + 1)
	rep := map[string]any{"bytes_before_the_failure": at, "stream": vk.Q(vk.Clip(string(stream), 3000))}
	var got []*log.VertexLog
	var err error
	if !vk.Within(hangLimit, func() {
		got, err = log.ParseLog(&failingReader{data: append([]byte(nil), stream[:at]...), rng: rng, err: errBroken})
	}) {
		r.Violate(rep, "parsing a source that fails has not returned for %s", hangLimit)
	}
	if err == nil {
		r.Violate(rep, "a source that fails after %d of %d bytes gives %d entries and no error", at, len(stream), len(got))
	}
	if len(got) > len(entries) {
		r.Violate(rep, "a source that fails gives %d entries of %d", len(got), len(entries))
	}
	if s := sameEntries(got, entries[:len(got)], true); s != "" {
		r.Violate(rep, "a source that fails: %s", s)
	}
	r.Count("failing_sources", 1)
}

var errBroken = errors.New("the source is broken")

func c12Case(r *vk.Run, rng *rand.Rand, w *note) {
	names := []string{"SET", "mset", "LPush", "SREM", "HSET", "x", "INCRBY"}
	var entries []logEntry
	var stream []byte
	binaryArg := false
	n := 1 + rng.Intn(6)
	if rng.Intn(20) == 0 {
		n = 0
	}
	if rng.Intn(40) == 0 {
		n = 20 + rng.Intn(100)
	}
	for i := 0; i < n; i++ {
		e := logEntry{name: names[rng.Intn(len(names))]}
		switch rng.Intn(5) {
		case 0:
			e.index = []int{math.MaxInt32, math.MinInt32, -1, 1}[rng.Intn(4)]
		case 1:
			e.index = rng.Intn(16)
		}
		objects := []protocol.RedisObject{protocol.NewBulkRedisString(e.name)}
		for j := rng.Intn(5); j > 0; j-- {
			a := respText(rng)
			if rng.Intn(200) == 0 {
				a = strings.Repeat(a+"x", 10)
			}
			if rng.Intn(100) == 0 { // lengths around the powers of 256
				a = strings.Repeat("y", []int{256, 65536}[rng.Intn(2)]-rng.Intn(400)/2)
			}
			binaryArg = binaryArg || strings.ToValidUTF8(a, "") != a
			e.args = append(e.args, a)
			objects = append(objects, protocol.NewBulkRedisString(a))
		}
		vl := log.NewLog(e.name, e.index, objects)
		if s := sameEntry(vl, e); s != "" {
			r.Violate(map[string]any{"name": e.name, "args": quoted(e.args)}, "a new entry %s", s)
		}
		_ = log.FormatLog(vl)
		b, err := log.PackLog(vl)
		if err != nil {
			r.Violate(map[string]any{"name": e.name, "args": quoted(e.args)}, "an entry cannot be packed: %v", err)
		}
		if len(b) < 4 || int(binary.LittleEndian.Uint32(b)) != len(b)-4 {
			r.Violate(map[string]any{"name": e.name, "args": quoted(e.args), "packed": vk.Q(string(b))}, "the packed entry does not start with its length")
		}
		stream = append(stream, b...)
		e.end = len(stream)
		entries = append(entries, e)
		r.Count("entries_packed", 1)
	}
	all := string(stream)
	w.set(vk.Q(all))
	replay := func(s string) map[string]any {
		var list []map[string]any
		for _, e := range entries {
			list = append(list, map[string]any{"name": e.name, "index": e.index, "args": quoted(e.args), "end": e.end})
		}
		return map[string]any{"entries": list, "stream": vk.Q(s)}
	}
	parse := func(s string) ([]*log.VertexLog, error) {
		return log.ParseLog(&fragReader{data: s, limit: len(s), rng: rng, mode: rng.Intn(4)})
	}
	got, err := parse(all)
	if err != nil {
		r.Violate(replay(all), "the whole stream gives an error: %v", err)
	}
	if s := sameEntries(got, entries, true); s != "" {
		r.Violate(replay(all), "parsing %d entries: %s", len(entries), s)
	}

	c12Failing(r, rng, entries, stream)

	// cuts
	step := 1 + len(all)*len(all)/600000
	cuts := map[int]bool{}
	for c := rng.Intn(step); c < len(all); c += step {
		cuts[c] = true
	}
	for _, e := range entries {
		for d := -3; d <= 6; d++ {
			if e.end+d >= 0 && e.end+d < len(all) {
				cuts[e.end+d] = true
			}
		}
	}
	for c := range cuts {
		complete := 0
		for complete < len(entries) && entries[complete].end <= c {
			complete++
		}
		got, err := parse(all[:c])
		if s := sameEntries(got, entries[:complete], true); s != "" {
			r.Violate(replay(all[:c]), "cut after %d of %d bytes, %d entries are complete: %s (error %v)", c, len(all), complete, s, err)
		}
		r.Count("cuts", 1)
	}

	// entries cut off that end like another message
	for i := 0; i < 12; i++ {
		content, missing := rng.Intn(12), 1+rng.Intn(5)
		if i > 9 {
			missing = []int{255, 256, 65536, 1 << 24}[rng.Intn(100)/33]
		}
		tail := binary.LittleEndian.AppendUint32(nil, uint32(content+missing))
		for j := 0; j < content; j++ {
			tail = append(tail, []byte{0, 0x38, 1, 0x0a, byte(rng.Intn(256))}[rng.Intn(5)])
		}
		if rng.Intn(3) == 0 { // what is there is a message itself
			for j := 4; j < len(tail)-1; j += 2 {
				tail[j], tail[j+1] = 0x28, byte(rng.Intn(100))
			}
		}
		got, err := parse(all + string(tail))
		if s := sameEntries(got, entries, true); s != "" {
			r.Violate(replay(all+string(tail)), "%d entries and one of which %d bytes are missing: %s (error %v)", len(entries), missing, s, err)
		}
		r.Count("cut_off_entries", 1)
	}

	// entries whose content is damaged
	if len(entries) > 0 {
		b := []byte(all)
		var left []logEntry
		start := 0
		for _, e := range entries {
			if rng.Intn(2) == 0 {
				fill := []byte{0xff, 0x00, 0x80, 0x07}[rng.Intn(4)]
				for i := start + 4; i < e.end; i++ {
					b[i] = fill
				}
				r.Count("entries_damaged", 1)
			} else {
				left = append(left, e)
			}
			start = e.end
		}
		got, err := parse(string(b))
		if err != nil {
			r.Violate(replay(string(b)), "damaged entries of intact length give an error: %v", err)
		}
		if s := sameEntries(got, left, true); s != "" {
			r.Violate(replay(string(b)), "%d of %d entries are not damaged: %s", len(left), len(entries), s)
		}
	}

	// any damage
	if len(all) > 0 {
		for i := 0; i < 4; i++ {
			b := []byte(all)
			at := rng.Intn(len(b))
			switch rng.Intn(3) {
			case 0:
				for j := at; j < len(b) && j < at+1+rng.Intn(40); j++ {
					b[j] = byte(rng.Intn(256))
				}
			case 1:
				b = append(b[:at], b[min(len(b), at+1+rng.Intn(20)):]...)
			default:
				b = append(b[:at], append([]byte(respText(rng)), b[at:]...)...)
			}
			before := 0
			for before < len(entries) && entries[before].end <= at {
				before++
			}
			got, _ := parse(string(b))
			if s := sameEntries(got, entries[:before], false); s != "" {
				r.Violate(replay(string(b)), "damage from byte %d on, the %d entries before: %s", at, before, s)
			}
			r.Count("damaged_streams", 1)
		}
	}
	_, _ = parse(respText(rng))
	sig := ""
	if len(entries) >= 2 || binaryArg {
		sig = all
	}
	if r.WantSample() && len(entries) > 1 && len(all) < 800 {
		r.Sample(map[string]any{"entries": len(entries), "stream": vk.Q(all), "cuts": len(cuts)})
	}
	r.Case(sig)
}

func quoted(args []string) []string {
	var out []string
	for _, a := range args {
		out = append(out, vk.Q(a))
	}
	return out
}
