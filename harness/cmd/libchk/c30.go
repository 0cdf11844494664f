package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/lxdlam/vertex/pkg/container"

	"verif/vk"
)

func init() {
	checks["C30"] = check{"exploration",
		"random sequences of calls on string objects, string maps, lists, hashes, sets and the registry of containers, over few texts (empty, binary, numeric, boundary), compared with plain Go values after every call: results, errors, " +
			"the contents, and for string objects that text, bytes, length, hash, equality, order and integer agree; big lists are trimmed, popped and searched. A case is one sequence; non-trivial with ten calls that changed something; distinct by its calls.",
		c30}
}

func c30(r *vk.Run) {
	r.Assume("a string object is handed to one container once, as the commands do")
	cases(r, 8, r.N(160000, 8000000), func(k int, w *note) { c30Case(r, r.Rng("case", k), w) })
	c30Big(r, r.N(30000000, 60000000))
}

// adt is the common part of one case: the log of calls and the comparison.
type adt struct {
	r       *vk.Run
	rng     *rand.Rand
	log     []string
	changed int
	sum     string
	slices  [][]*container.StringContainer // passed to or got from a container since the last call
	kept    []keptSlice
	bytes   []keptBytes
}

// keptSlice is a list the caller goes on using, keptBytes the bytes of an object; nothing may change either.
type keptSlice struct {
	l, was []*container.StringContainer
}

type keptBytes struct {
	b   []byte
	was string
}

// keep holds on to some of the lists passed and got, and overwrites others, as is the caller's right.
func (a *adt) keep() {
	for _, l := range a.slices {
		if len(l) == 0 || a.rng == nil {
			continue
		}
		switch a.rng.Intn(4) {
		case 0:
			for i := range l {
				l[i] = clobber
			}
			a.r.Count("lists_overwritten_by_the_caller", 1)
		case 1:
			a.kept = append(a.kept, keptSlice{l, append([]*container.StringContainer{}, l...)})
			a.r.Count("lists_kept_by_the_caller", 1)
		}
	}
	a.slices = nil
	for _, k := range a.kept {
		for i := range k.l {
			if k.l[i] != k.was[i] {
				a.fail("a list the caller keeps has changed at %d", i)
			}
		}
	}
	for _, k := range a.bytes {
		if string(k.b) != k.was {
			a.fail("the bytes %q that the caller keeps are now %q", k.was, k.b)
		}
	}
	if len(a.kept) > 20 {
		a.kept = a.kept[10:]
	}
	if len(a.bytes) > 20 {
		a.bytes = a.bytes[10:]
	}
}

var clobber = container.NewString("the caller's")

func (a *adt) call(format string, args ...any) {
	a.keep()
	s := fmt.Sprintf(format, args...)
	a.log = append(a.log, s)
	a.sum += s
}

func (a *adt) fail(format string, args ...any) {
	log := a.log
	a.r.Violate(map[string]any{"calls": log}, "%s, after %s", fmt.Sprintf(format, args...), vk.Clip(strings.Join(log, "; "), 1500))
}

func (a *adt) eq(what string, got, want any) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		a.fail("%s gives %v instead of %v", what, vk.Clip(fmt.Sprint(got), 300), vk.Clip(fmt.Sprint(want), 300))
	}
}

func (a *adt) err(what string, got, want error) {
	if want == nil && got != nil || want != nil && !errors.Is(got, want) {
		a.fail("%s gives the error %v instead of %v", what, got, want)
	}
}

var c30Texts = []string{"", "0", "1", "-1", "42", "+7", "007", "-0", " 5", "5 ", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "9223372036854775808", "1e3", "0x10",
	"a", "b", "ab", "abc", "\x00", "\xff\xfe", "dummy string", "\r\n", "k\x00", "k"}

func (a *adt) text() string {
	switch a.rng.Intn(8) {
	case 0:
		return strconv.FormatInt(a.rng.Int63n(1000)-500, 10)
	case 1:
		return strings.Repeat("xy", a.rng.Intn(40))
	}
	return c30Texts[a.rng.Intn(len(c30Texts))]
}

// few picks from a handful, so that calls meet.
func (a *adt) few() string { return c30Texts[[]int{0, 1, 2, 16, 17, 18, 20, 21}[a.rng.Intn(8)]] }

func (a *adt) fews(max int) []string {
	var l []string
	for n := a.rng.Intn(max + 1); n > 0; n-- {
		l = append(l, a.few())
	}
	return l
}

func (a *adt) strs(l []string) []*container.StringContainer {
	var out []*container.StringContainer
	for _, s := range l {
		out = append(out, container.NewString(s))
	}
	a.slices = append(a.slices, out)
	return out
}

func (a *adt) texts(l []*container.StringContainer) []string {
	out := []string{}
	a.slices = append(a.slices, l)
	for _, s := range l {
		if s == nil {
			out = append(out, "<nil>")
		} else {
			out = append(out, strconv.Quote(s.String()))
		}
	}
	return out
}

func quotes(l []string) []string {
	out := []string{}
	for _, s := range l {
		out = append(out, strconv.Quote(s))
	}
	return out
}

func sorted(l []string) []string {
	sort.Strings(l)
	return l
}

func (a *adt) position(n int) int {
	switch a.rng.Intn(10) {
	case 0:
		return []int{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, -1 << 31, 1<<31 - 1}[a.rng.Intn(5)]
	case 1:
		return 0
	}
	return a.rng.Intn(2*n+5) - n - 2
}

// within is the documented range: invalid unless it starts inside and not after its end, which is clamped.
func within(left, right, n int) (int, int, bool) {
	if left < 0 {
		left += n
	}
	if right < 0 {
		right += n
	}
	if left < 0 || left >= n || right < 0 {
		return 0, 0, false
	}
	if right >= n {
		right = n - 1
	}
	return left, right, left <= right
}

func c30Case(r *vk.Run, rng *rand.Rand, w *note) {
	a := &adt{r: r, rng: rng}
	w.set(a)
	n := 10 + rng.Intn(50)
	kind := rng.Intn(6)
	switch kind {
	case 0:
		a.strings(n)
	case 1:
		a.stringMap(n)
	case 2:
		a.list(n)
	case 3:
		a.hash(n)
	case 4:
		a.set(n)
	default:
		a.registry(n)
	}
	r.Count([]string{"calls_on_string_objects", "calls_on_string_maps", "calls_on_lists", "calls_on_hashes", "calls_on_sets", "calls_on_registries"}[kind], int64(len(a.log)))
	a.keep()
	if r.WantSample() {
		r.Sample(a.log)
	}
	sig := ""
	if a.changed >= 10 {
		sig = a.sum
	}
	r.Case(sig)
}

func (a *adt) String() string { return strings.Join(a.log, "; ") }

// views checks that everything a string object tells fits its text.
func (a *adt) views(s *container.StringContainer, want string) {
	a.eq("String", strconv.Quote(s.String()), strconv.Quote(want))
	b := s.Byte()
	a.eq("Byte", strconv.Quote(string(b)), strconv.Quote(want))
	if a.rng != nil && len(b) > 0 && a.rng.Intn(3) == 0 {
		a.bytes = append(a.bytes, keptBytes{b, want})
		a.r.Count("bytes_kept_by_the_caller", 1)
	}
	a.eq("Len", s.Len(), len(want))
	a.eq("Key", strconv.Quote(s.Key()), strconv.Quote(want))
	a.eq("Type", s.Type(), container.StringType)
	a.eq("AsSimpleStringObject", strconv.Quote(s.AsSimpleStringObject().Data()), strconv.Quote(want))
	fresh := container.NewString(want)
	a.eq("the hash of an equal text", s.Hash() == fresh.Hash(), true)
	a.eq("Equals of an equal text", s.Equals(fresh) && fresh.Equals(s) && s.Equals(s), true)
	a.eq("CompareTo of an equal text", s.CompareTo(fresh), 0)
	bulk := s.AsBulkStringObject().String()
	if want == "" {
		a.eq("AsBulkStringObject", strconv.Quote(bulk), strconv.Quote("$-1\r\n"))
	} else {
		a.eq("AsBulkStringObject", strconv.Quote(bulk), strconv.Quote(fmt.Sprintf("$%d\r\n%s\r\n", len(want), want)))
	}
	v, err := strconv.ParseInt(want, 10, 64)
	a.eq("IsInt", s.IsInt(), err == nil)
	got, gerr := s.Int()
	obj, oerr := s.AsIntObject()
	if err != nil {
		a.err("Int", gerr, container.ErrNotAInt)
		a.err("AsIntObject", oerr, container.ErrNotAInt)
	} else {
		a.err("Int", gerr, nil)
		a.err("AsIntObject", oerr, nil)
		a.eq("Int", got, v)
		a.eq("AsIntObject", obj.Data(), v)
	}
}

func signOf(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func (a *adt) amount() int64 {
	switch a.rng.Intn(6) {
	case 0:
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}[a.rng.Intn(4)]
	case 1:
		return 0
	case 2:
		return a.rng.Int63() - a.rng.Int63()
	}
	return a.rng.Int63n(21) - 10
}

// count is the counter's specification.
func count(text string, by int64, down bool) (int64, bool) {
	v, err := strconv.ParseInt(text, 10, 64)
	if err != nil {
		return 0, false
	}
	b := big.NewInt(by)
	if down {
		b.Neg(b)
	}
	sum := b.Add(b, big.NewInt(v))
	if !sum.IsInt64() {
		return 0, false
	}
	return sum.Int64(), true
}

func (a *adt) strings(n int) {
	type pair struct {
		s    *container.StringContainer
		text string
	}
	var all []pair
	add := func(s *container.StringContainer, text string) {
		all = append(all, pair{s, text})
		a.views(s, text)
		a.changed++
	}
	for len(all) < 3 {
		t := a.text()
		a.call("NewString(%q)", t)
		add(container.NewString(t), t)
	}
	for ; n > 0; n-- {
		i, j := a.rng.Intn(len(all)), a.rng.Intn(len(all))
		p, q := &all[i], all[j]
		switch a.rng.Intn(7) {
		case 0:
			t := a.text()
			a.call("NewString(%q)", t)
			add(container.NewString(t), t)
		case 1:
			if len(p.text)+len(q.text) < 200 {
				a.call("#%d.Append(#%d)", i, j)
				add(p.s.Append(q.s), p.text+q.text)
			}
		case 2, 3:
			by, down := a.amount(), a.rng.Intn(2) == 0
			var got int64
			var err error
			if down {
				a.call("#%d.Decrease(%d)", i, by)
				got, err = p.s.Decrease(by)
			} else {
				a.call("#%d.Increase(%d)", i, by)
				got, err = p.s.Increase(by)
			}
			if want, ok := count(p.text, by, down); ok {
				a.err("the counter", err, nil)
				a.eq("the counter", got, want)
				p.text = strconv.FormatInt(want, 10)
				a.changed++
			} else {
				a.err("the counter", err, container.ErrNotAInt)
			}
		case 4:
			l, r := a.position(len(p.text)), a.position(len(p.text))
			a.call("#%d.GetRange(%d,%d)", i, l, r)
			got, err := p.s.GetRange(l, r)
			if wl, wr, ok := within(l, r, len(p.text)); ok {
				a.err("GetRange", err, nil)
				add(got, p.text[wl:wr+1])
			} else {
				a.err("GetRange", err, container.ErrRangeInvalid)
			}
		default:
			a.call("#%d compared with #%d", i, j)
			a.eq("Equals", p.s.Equals(q.s), p.text == q.text)
			a.eq("the sign of CompareTo", signOf(p.s.CompareTo(q.s)), strings.Compare(p.text, q.text))
			if p.text == q.text {
				a.eq("the hashes of equal texts", p.s.Hash() == q.s.Hash(), true)
			}
		}
		k := a.rng.Intn(len(all))
		a.views(all[k].s, all[k].text)
	}
	for _, p := range all {
		a.views(p.s, p.text)
	}
}

func (a *adt) stringMap(n int) {
	m := container.NewStringMap()
	ref := map[string]string{}
	for ; n > 0; n-- {
		k := a.few()
		before := len(ref)
		switch a.rng.Intn(9) {
		case 0, 1:
			ks, vs := a.fews(3), []string{}
			for len(vs) < len(ks) {
				vs = append(vs, a.text())
			}
			if a.rng.Intn(6) == 0 {
				vs = append(vs, "one too many")
				if a.rng.Intn(2) == 0 {
					vs = vs[:a.rng.Intn(len(vs))]
				}
			}
			a.call("Set(%q,%q)", ks, vs)
			err := m.Set(a.strs(ks), a.strs(vs))
			if len(ks) != len(vs) {
				a.err("Set", err, container.ErrGlobalLengthNotMatch)
			} else {
				a.err("Set", err, nil)
				for i, k := range ks {
					ref[k] = vs[i]
				}
				a.changed++
			}
		case 2:
			ks := a.fews(4)
			a.call("Get(%q)", ks)
			want := []string{}
			for _, k := range ks {
				if v, ok := ref[k]; ok {
					want = append(want, strconv.Quote(v))
				} else {
					want = append(want, "<nil>")
				}
			}
			a.eq("Get", a.texts(m.Get(a.strs(ks))), want)
		case 3:
			a.call("StringLen(%q)", k)
			got, err := m.StringLen(container.NewString(k))
			if v, ok := ref[k]; ok {
				a.err("StringLen", err, nil)
				a.eq("StringLen", got, len(v))
			} else {
				a.err("StringLen", err, container.ErrKeyNotFound)
			}
		case 4:
			t := a.text()
			if len(ref[k]) < 300 {
				a.call("Append(%q,%q)", k, t)
				got := m.Append(container.NewString(k), container.NewString(t))
				ref[k] += t
				a.eq("Append", got, len(ref[k]))
				a.changed++
			}
		case 5, 6:
			by, down := a.amount(), a.rng.Intn(2) == 0
			var got int64
			var err error
			if down {
				a.call("Decrease(%q,%d)", k, by)
				got, err = m.Decrease(container.NewString(k), by)
			} else {
				a.call("Increase(%q,%d)", k, by)
				got, err = m.Increase(container.NewString(k), by)
			}
			if v, ok := ref[k]; !ok {
				a.err("the counter", err, container.ErrKeyNotFound)
			} else if want, ok := count(v, by, down); ok {
				a.err("the counter", err, nil)
				a.eq("the counter", got, want)
				ref[k] = strconv.FormatInt(want, 10)
				a.changed++
			} else {
				a.err("the counter", err, container.ErrNotAInt)
			}
		case 7:
			l, r := a.position(len(ref[k])), a.position(len(ref[k]))
			a.call("GetRange(%q,%d,%d)", k, l, r)
			got, err := m.GetRange(container.NewString(k), l, r)
			if v, ok := ref[k]; !ok {
				a.err("GetRange", err, container.ErrKeyNotFound)
			} else if wl, wr, ok := within(l, r, len(v)); ok {
				a.err("GetRange", err, nil)
				a.views(got, v[wl:wr+1])
			} else {
				a.err("GetRange", err, container.ErrRangeInvalid)
			}
		default:
			ks := a.fews(5)
			a.call("Exists(%q)", ks)
			want := 0
			for _, k := range ks {
				if _, ok := ref[k]; ok {
					want++
				}
			}
			a.eq("Exists", m.Exists(a.strs(ks)), want)
		}
		_ = before
		a.eq("Len", m.Len(), len(ref))
		if v, ok := ref[k]; ok {
			got := m.Get(a.strs([]string{k}))
			if len(got) != 1 || got[0] == nil {
				a.fail("the value of %q is missing", k)
			}
			a.views(got[0], v)
		}
	}
	for k, v := range ref {
		a.views(m.Get(a.strs([]string{k}))[0], v)
	}
}

func (a *adt) list(n int) {
	l := container.NewLinkedListContainer("key")
	ref := []string{}
	for ; n > 0; n-- {
		switch a.rng.Intn(11) {
		case 0:
			v := a.fews(4)
			a.call("PushHead(%q)", v)
			got, err := l.PushHead(a.strs(v))
			for _, s := range v {
				ref = append([]string{s}, ref...)
			}
			a.err("PushHead", err, nil)
			a.eq("PushHead", got, len(ref))
			a.changed++
		case 1, 2:
			v := a.fews(4)
			a.call("PushTail(%q)", v)
			got, err := l.PushTail(a.strs(v))
			ref = append(ref, v...)
			a.err("PushTail", err, nil)
			a.eq("PushTail", got, len(ref))
			a.changed++
		case 3:
			head := a.rng.Intn(2) == 0
			a.call("Pop head=%v", head)
			var got *container.StringContainer
			var err error
			if head {
				got, err = l.PopHead()
			} else {
				got, err = l.PopTail()
			}
			if len(ref) == 0 {
				a.err("Pop", err, container.ErrEmptyList)
				break
			}
			a.err("Pop", err, nil)
			at := 0
			if !head {
				at = len(ref) - 1
			}
			a.views(got, ref[at])
			ref = append(append([]string{}, ref[:at]...), ref[at+1:]...)
			a.changed++
		case 4, 5:
			p, v, after := a.few(), a.few(), a.rng.Intn(2) == 0
			a.call("Insert(%q,%q,%v)", p, v, after)
			got, err := l.Insert(container.NewString(p), container.NewString(v), after)
			at := -1
			for i, s := range ref {
				if s == p {
					at = i
					break
				}
			}
			if at < 0 {
				a.err("Insert", err, container.ErrNoSuchPivot)
				a.eq("Insert", got, -1)
				break
			}
			if after {
				at++
			}
			ref = append(ref[:at:at], append([]string{v}, ref[at:]...)...)
			a.err("Insert", err, nil)
			a.eq("Insert", got, len(ref))
			a.changed++
		case 6:
			i, v := a.position(len(ref)), a.text()
			a.call("Set(%d,%q)", i, v)
			err := l.Set(i, container.NewString(v))
			if i < 0 {
				i += len(ref)
			}
			if i < 0 || i >= len(ref) {
				a.err("Set", err, container.ErrOutOfRange)
			} else {
				a.err("Set", err, nil)
				ref[i] = v
				a.changed++
			}
		case 7, 8:
			c, v := a.rng.Intn(9)-4, a.few()
			if a.rng.Intn(8) == 0 {
				c = []int{math.MaxInt64, math.MinInt64 + 1}[a.rng.Intn(2)]
			}
			a.call("Remove(%d,%q)", c, v)
			got := l.Remove(c, container.NewString(v))
			limit := c
			if c < 0 {
				limit = -c
			}
			keep := []string{}
			removed := 0
			each := func(i int) {
				if ref[i] == v && (c == 0 || removed < limit) {
					removed++
				} else {
					keep = append(keep, ref[i])
				}
			}
			if c >= 0 {
				for i := range ref {
					each(i)
				}
			} else {
				for i := len(ref) - 1; i >= 0; i-- {
					each(i)
				}
				for i, j := 0, len(keep)-1; i < j; i, j = i+1, j-1 {
					keep[i], keep[j] = keep[j], keep[i]
				}
			}
			a.eq("Remove", got, removed)
			ref = keep
			if removed > 0 {
				a.changed++
			}
		case 9:
			x, y := a.position(len(ref)), a.position(len(ref))
			if a.rng.Intn(2) == 0 {
				a.call("Range(%d,%d)", x, y)
				got, err := l.Range(x, y)
				if wl, wr, ok := within(x, y, len(ref)); ok {
					a.err("Range", err, nil)
					a.eq("Range", a.texts(got), quotes(ref[wl:wr+1]))
				} else {
					a.err("Range", err, container.ErrOutOfRange)
				}
				break
			}
			a.call("Trim(%d,%d)", x, y)
			err := l.Trim(x, y)
			if wl, wr, ok := within(x, y, len(ref)); ok {
				a.err("Trim", err, nil)
				ref = append([]string{}, ref[wl:wr+1]...)
				a.changed++
			} else {
				a.err("Trim", err, container.ErrOutOfRange)
			}
		default:
			i := a.position(len(ref))
			a.call("Index(%d)", i)
			got, err := l.Index(i)
			if i < 0 {
				i += len(ref)
			}
			if i < 0 || i >= len(ref) {
				a.err("Index", err, container.ErrOutOfRange)
			} else {
				a.err("Index", err, nil)
				a.views(got, ref[i])
			}
		}
		a.eq("Len", l.Len(), len(ref))
		all, err := l.Range(0, -1)
		if len(ref) == 0 {
			a.err("Range of an empty list", err, container.ErrOutOfRange)
		} else {
			a.err("Range", err, nil)
			a.eq("the contents", a.texts(all), quotes(ref))
		}
	}
	for len(ref) > 0 { // and backwards, over the other links
		s, err := l.PopTail()
		a.call("PopTail")
		a.err("PopTail", err, nil)
		a.views(s, ref[len(ref)-1])
		ref = ref[:len(ref)-1]
	}
	_, err := l.PopTail()
	a.err("PopTail of an empty list", err, container.ErrEmptyList)
}

func (a *adt) hash(n int) {
	h := container.NewHashContainer("key")
	ref := map[string]string{}
	for ; n > 0; n-- {
		switch a.rng.Intn(6) {
		case 0, 1:
			ks, vs := a.fews(4), []string{}
			for len(vs) < len(ks) {
				vs = append(vs, a.text())
			}
			if a.rng.Intn(6) == 0 {
				vs = append(vs, "one too many")
				if a.rng.Intn(2) == 0 {
					vs = vs[:a.rng.Intn(len(vs))]
				}
			}
			a.call("Set(%q,%q)", ks, vs)
			got, err := h.Set(a.strs(ks), a.strs(vs))
			if len(ks) != len(vs) {
				a.err("Set", err, container.ErrHashLengthNotMatch)
				break
			}
			before := len(ref)
			for i, k := range ks {
				ref[k] = vs[i]
			}
			a.err("Set", err, nil)
			a.eq("Set", got, len(ref)-before)
			a.changed++
		case 2:
			ks := a.fews(4)
			a.call("Get(%q)", ks)
			want := []string{}
			for _, k := range ks {
				if v, ok := ref[k]; ok {
					want = append(want, strconv.Quote(v))
				} else {
					want = append(want, "<nil>")
				}
			}
			a.eq("Get", a.texts(h.Get(a.strs(ks))), want)
		case 3:
			k := a.few()
			a.call("Exists and KeyLen(%q)", k)
			v, ok := ref[k]
			a.eq("Exists", h.Exists(container.NewString(k)), ok)
			got, err := h.KeyLen(container.NewString(k))
			if ok {
				a.err("KeyLen", err, nil)
				a.eq("KeyLen", got, len(v))
			} else {
				a.err("KeyLen", err, container.ErrKeyNotExist)
			}
		case 4:
			ks := a.fews(3)
			a.call("Del(%q)", ks)
			before := len(ref)
			for _, k := range ks {
				delete(ref, k)
			}
			a.eq("Del", h.Del(a.strs(ks)), before-len(ref))
			if before > len(ref) {
				a.changed++
			}
		default:
			a.call("Keys, Values, Entries")
			var ks, vs, es []string
			for k, v := range ref {
				ks, vs, es = append(ks, strconv.Quote(k)), append(vs, strconv.Quote(v)), append(es, strconv.Quote(k)+"="+strconv.Quote(v))
			}
			a.eq("Keys", sorted(a.texts(h.Keys())), sorted(ks))
			a.eq("Values", sorted(a.texts(h.Values())), sorted(vs))
			gk, gv := h.Entries()
			a.eq("the number of values of Entries", len(gv), len(gk))
			got := a.texts(gk)
			for i, v := range a.texts(gv) {
				got[i] += "=" + v
			}
			a.eq("Entries", sorted(got), sorted(es))
		}
		a.eq("Len", h.Len(), len(ref))
	}
	for k, v := range ref {
		got := h.Get(a.strs([]string{k}))
		if len(got) != 1 || got[0] == nil {
			a.fail("the value of field %q is missing", k)
		}
		a.views(got[0], v)
	}
	a.eq("the number of keys", len(h.Keys()), len(ref))
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, strconv.Quote(k))
	}
	return sorted(out)
}

func (a *adt) set(n int) {
	const many = 4
	var s [many]container.SetContainer
	var ref [many]map[string]bool
	for i := range s {
		s[i], ref[i] = container.NewSetContainer(fmt.Sprint("key", i)), map[string]bool{}
	}
	same := func(i int) {
		a.eq(fmt.Sprintf("Members of #%d", i), sorted(a.texts(s[i].Members())), keysOf(ref[i]))
		a.eq(fmt.Sprintf("Len of #%d", i), s[i].Len(), len(ref[i]))
	}
	for ; n > 0; n-- {
		i := a.rng.Intn(many)
		switch a.rng.Intn(8) {
		case 0, 1:
			v := a.fews(5)
			a.call("#%d.Add(%q)", i, v)
			before := len(ref[i])
			for _, m := range v {
				ref[i][m] = true
			}
			a.eq("Add", s[i].Add(a.strs(v)), len(ref[i])-before)
			a.changed++
		case 2:
			v := a.fews(3)
			a.call("#%d.Delete(%q)", i, v)
			before := len(ref[i])
			for _, m := range v {
				delete(ref[i], m)
			}
			a.eq("Delete", s[i].Delete(a.strs(v)), before-len(ref[i]))
			if before > len(ref[i]) {
				a.changed++
			}
		case 3:
			m := a.few()
			a.call("#%d.IsMember(%q)", i, m)
			a.eq("IsMember", s[i].IsMember(container.NewString(m)), ref[i][m])
		case 4:
			c, pop := a.rng.Intn(9)-3, a.rng.Intn(2) == 0
			if a.rng.Intn(10) == 0 {
				c = []int{math.MaxInt64, math.MinInt64 + 1}[a.rng.Intn(2)]
			}
			a.call("#%d random members %d, removed: %v", i, c, pop)
			var got []*container.StringContainer
			if pop {
				got = s[i].Pop(c)
			} else {
				got = s[i].RandomMember(c)
			}
			want := c
			if c < 0 {
				want = -c
			}
			if want > len(ref[i]) {
				want = len(ref[i])
			}
			a.eq("the number of random members", len(got), want)
			seen := map[string]bool{}
			for _, m := range got {
				if m == nil || !ref[i][m.String()] || seen[m.String()] {
					a.fail("the random members %v are not distinct members of %v", a.texts(got), keysOf(ref[i]))
				}
				seen[m.String()] = true
			}
			if pop {
				for m := range seen {
					delete(ref[i], m)
					a.changed++
				}
			}
		default:
			var with []container.SetContainer
			var idx []int
			for k := a.rng.Intn(4); k > 0; k-- {
				j := a.rng.Intn(many)
				idx = append(idx, j)
				with = append(with, s[j])
			}
			want := map[string]bool{}
			for m := range ref[i] {
				want[m] = true
			}
			var got container.SetContainer
			switch kind := a.rng.Intn(3); kind {
			case 0:
				a.call("#%d.Diff(%v)", i, idx)
				got = s[i].Diff(with)
				for _, j := range idx {
					for m := range ref[j] {
						delete(want, m)
					}
				}
			case 1:
				a.call("#%d.Intersect(%v)", i, idx)
				got = s[i].Intersect(with)
				for m := range want {
					for _, j := range idx {
						if !ref[j][m] {
							delete(want, m)
						}
					}
				}
			default:
				a.call("#%d.Union(%v)", i, idx)
				got = s[i].Union(with)
				for _, j := range idx {
					for m := range ref[j] {
						want[m] = true
					}
				}
			}
			a.eq("the result", sorted(a.texts(got.Members())), keysOf(want))
			a.eq("the length of the result", got.Len(), len(want))
			for j := range s {
				same(j)
			}
			for k := range with {
				with[k] = nil
			}
			// the result is a set of its own
			got.Add(a.strs([]string{"only in the result"}))
			got.Pop(1 + a.rng.Intn(3))
			for j := range s {
				same(j)
			}
			a.changed++
		}
		same(i)
	}
}

func (a *adt) registry(n int) {
	c := container.NewContainers()
	lists, hashes, sets := map[string]container.ListContainer{}, map[string]container.HashContainer{}, map[string]container.SetContainer{}
	sizes := map[string]int{}
	for ; n > 0; n-- {
		k := a.few()
		create := a.rng.Intn(2) == 0
		kind := a.rng.Intn(3)
		a.call("%s(%q) create=%v", []string{"list", "hash", "set"}[kind], k, create)
		var obj container.ContainerObject
		known := false
		id := fmt.Sprint(kind, k)
		switch kind {
		case 0:
			var l container.ListContainer
			if create {
				l = c.GetOrCreateList(k)
			} else {
				l = c.GetList(k)
			}
			old, ok := lists[k]
			if known = ok; ok {
				a.eq("being the same list", l == old, true)
			}
			if l != nil {
				obj = l
				lists[k] = l
				a.eq("the length", l.Len(), sizes[id])
				_, _ = l.PushTail(a.strs([]string{"x"}))
				sizes[id]++
				a.eq("the type", l.Type(), container.LinkedListType)
			}
		case 1:
			var h container.HashContainer
			if create {
				h = c.GetOrCreateHash(k)
			} else {
				h = c.GetHash(k)
			}
			old, ok := hashes[k]
			if known = ok; ok {
				a.eq("being the same hash", h == old, true)
			}
			if h != nil {
				obj = h
				hashes[k] = h
				a.eq("the length", h.Len(), sizes[id])
				_, _ = h.Set(a.strs([]string{fmt.Sprint(sizes[id])}), a.strs([]string{"x"}))
				sizes[id]++
				a.eq("the type", h.Type(), container.HashType)
			}
		default:
			var s container.SetContainer
			if create {
				s = c.GetOrCreateSet(k)
			} else {
				s = c.GetSet(k)
			}
			old, ok := sets[k]
			if known = ok; ok {
				a.eq("being the same set", s == old, true)
			}
			if s != nil {
				obj = s
				sets[k] = s
				a.eq("the length", s.Len(), sizes[id])
				s.Add(a.strs([]string{fmt.Sprint(sizes[id])}))
				sizes[id]++
				a.eq("the type", s.Type(), container.SetType)
			}
		}
		want := known || (create && k != "")
		a.eq("the container's presence", obj != nil, want)
		if obj != nil {
			a.eq("the container's key", strconv.Quote(obj.Key()), strconv.Quote(k))
			a.changed++
		}
		a.eq("the number of strings", c.Global().Len(), 0)
	}
}

// c30Big works on lists of a size at which anything that needs memory or stack per element in one call would fail.
func c30Big(r *vk.Run, n int) {
	big := func(key string) container.ListContainer {
		l := container.NewLinkedListContainer(key)
		chunk := make([]*container.StringContainer, 1000000)
		for i := range chunk {
			chunk[i] = container.NewString("")
		}
		mark := container.NewString("mark")
		for l.Len() < n {
			if l.Len()+len(chunk) >= n {
				chunk[len(chunk)-1] = mark
			}
			_, _ = l.PushTail(chunk)
		}
		return l
	}
	a := &adt{r: r}
	l := big("big")
	size := l.Len()
	a.call("a list of %d elements", size)
	at, err := l.Index(-1)
	a.err("Index", err, nil)
	a.views(at, "mark")
	a.call("Trim(-2,-1)")
	a.err("Trim", l.Trim(-2, -1), nil)
	all, err := l.Range(0, -1)
	a.err("Range", err, nil)
	a.eq("the contents", a.texts(all), quotes([]string{"", "mark"}))
	a.eq("Len", l.Len(), 2)
	r.Count("elements_of_big_lists", int64(size))
	r.Case("big")
}
