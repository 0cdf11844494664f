package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/types"
	"github.com/lxdlam/vertex/pkg/util"

	"verif/vk"
)

// Much of everything: more operations on one object, more objects and more waiting goroutines than 16 bits or some thousands count.

const much = 70000

// volume runs fn in the background and returns what waits for it.
func volume(r *vk.Run, what string, fn func(fail func(string, ...any))) func() {
	if raceBuild {
		return func() {}
	}
	done := make(chan struct{})
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"kind": "much of everything", "stacks": vk.Clip(vk.Stacks(), 50000)}, "%s: %s", what, fmt.Sprintf(format, args...))
	}
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				fail("panic: %v", p)
			}
		}()
		fn(fail)
		r.Case("volume " + what)
		r.Count("volumes", 1)
	}()
	return func() {
		if !vk.Within(10*hangLimit, func() { <-done }) {
			fail("has not ended for %s", 10*hangLimit)
		}
	}
}

func c16Volume(r *vk.Run) func() {
	return volume(r, "data channels with many events", func(fail func(string, ...any)) {
		for _, size := range []int{0, 100, much / 2} {
			const senders = 3
			rc, sd := concurrency.NewDataChannelWithOption(size, time.Hour)
			for s := 0; s < senders; s++ {
				go func() {
					for i := 0; i < much/2; i++ {
						if st := sd.Send(concurrency.NewEvent("t", [2]int{s, i}, nil)); st != concurrency.Success {
							fail("size %d: send %d gives %d", size, i, st)
						}
					}
				}()
			}
			var next [senders]int
			for i := 0; i < senders*(much/2); i++ {
				e, err := rc.Receive()
				if err != nil {
					fail("size %d: receive %d gives %v", size, i, err)
				}
				d := e.Data().([2]int)
				if d[1] != next[d[0]] {
					fail("size %d: event %d of sender %d is received instead of %d", size, d[1], d[0], next[d[0]])
				}
				next[d[0]]++
			}
			rc.Close()
		}
	})
}

func c17Volume(r *vk.Run) func() {
	return volume(r, "topics with many events or subscribers", func(fail func(string, ...any)) {
		bus, name := concurrency.GetEventBus(), topicName()
		bus.NewTopic(name)
		rc, err := bus.SubscribeWithOptions(name, "one", 100, time.Hour)
		if err != nil {
			fail("subscribe: %v", err)
		}
		go func() {
			for i := 0; i < much; i++ {
				if n, err := bus.Publish(name, i, nil).Get(); n != 1 || err != nil {
					fail("publish %d gives %v, %v", i, n, err)
				}
			}
		}()
		for i := 0; i < much; i++ {
			if e, err := rc.Receive(); err != nil || e.Data() != i {
				fail("receive %d gives %v, %v", i, e, err)
			}
		}
		rc.Close()
		var rcs []concurrency.Receiver
		const n = 3000
		for i := 0; i < n; i++ {
			rc, err := bus.SubscribeWithOptions(name, fmt.Sprint(i), 4, time.Hour)
			if err != nil {
				fail("subscriber %d: %v", i, err)
			}
			rcs = append(rcs, rc)
		}
		for j := 0; j < 3; j++ {
			if c, err := bus.Publish(name, j, nil).Get(); err != nil || c != n {
				fail("a publish to %d subscribers gives %v, %v", n, c, err)
			}
		}
		for i, rc := range rcs {
			for j := 0; j < 3; j++ {
				if e, err := rc.Receive(); err != nil || e.Data() != j {
					fail("receive %d of subscriber %d of %d gives %v, %v", j, i, n, e, err)
				}
			}
		}
		if !bus.RemoveTopic(name) {
			fail("the topic cannot be removed")
		}
		for i, rc := range rcs {
			if e, err := rc.Receive(); err != nil || !errors.Is(e.Error(), concurrency.ErrTopicRemoved) {
				fail("subscriber %d of %d is told %v, %v at the removal", i, n, e, err)
			}
		}
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, topicName())
			if !bus.NewTopic(names[i]) {
				fail("topic %d cannot be made", i)
			}
		}
		for i, t := range names {
			if bus.NewTopic(t) || !bus.ExistTopic(t) {
				fail("topic %d of %d is there and made again, or not there", i, n)
			}
			rc, err := bus.SubscribeWithOptions(t, "s", 1, time.Hour)
			if err != nil {
				fail("topic %d of %d: %v", i, n, err)
			}
			if c, err := bus.Publish(t, i, nil).Get(); c != 1 || err != nil {
				fail("publish to topic %d of %d gives %v, %v", i, n, c, err)
			}
			if e, err := rc.Receive(); err != nil || e.Data() != i {
				fail("receive from topic %d of %d gives %v, %v", i, n, e, err)
			}
			rc.Close()
		}
		for i, t := range names {
			if !bus.RemoveTopic(t) || bus.ExistTopic(t) || bus.RemoveTopic(t) {
				fail("topic %d of %d cannot be removed, is still there, or can be removed twice", i, n)
			}
		}
	})
}

func c18Volume(r *vk.Run) func() {
	return volume(r, "futures with many waiters or questions", func(fail func(string, ...any)) {
		release := make(chan struct{})
		var runs int64
		f := concurrency.NewFuture(concurrency.NewTask(func() (any, error) {
			atomic.AddInt64(&runs, 1)
			<-release
			return "result", errBroken
		}))
		const n = 4000
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				switch i % 3 {
				case 0:
					if v, err := f.Get(); v != "result" || err != errBroken {
						fail("get %d of %d gives %v, %v", i, n, v, err)
					}
				case 1:
					if err := f.Wait(); err != nil {
						fail("wait %d of %d gives %v", i, n, err)
					}
				default:
					if err := f.WaitFor(time.Hour); err != nil {
						fail("wait with limit %d of %d gives %v", i, n, err)
					}
				}
			}()
		}
		time.Sleep(300 * time.Millisecond)
		close(release)
		wg.Wait()
		for i := 0; i < much; i++ {
			if v, err := f.Get(); v != "result" || err != errBroken {
				fail("get %d gives %v, %v", i, v, err)
			}
		}
		if runs != 1 {
			fail("the task has run %d times", runs)
		}
		var fs []concurrency.Future
		for i := 0; i < much; i++ {
			fs = append(fs, concurrency.NewFuture(concurrency.NewTask(func() (any, error) { return i, nil })))
		}
		for i, f := range fs {
			if v, err := f.Get(); v != i || err != nil {
				fail("future %d of %d gives %v, %v", i, much, v, err)
			}
		}
	})
}

func c19Volume(r *vk.Run) func() {
	return volume(r, "maps with many keys", func(fail func(string, ...any)) {
		for k, m := range []types.DataMap{types.NewSimpleDataMap(), types.NewLockedDataMap(), types.NewSyncDataMap()} {
			const writers = 4
			all := func(fn func(i int)) {
				if k == 0 { // for one goroutine
					for i := 0; i < much; i++ {
						fn(i)
					}
					return
				}
				vk.Parallel(writers, func(w int) {
					for i := w; i < much; i += writers {
						fn(i)
					}
				})
			}
			key := func(i int) string { return fmt.Sprint("key", i) }
			all(func(i int) { m.Set(key(i), i) })
			if m.Len() != much {
				fail("%T: %d keys instead of %d", m, m.Len(), much)
			}
			all(func(i int) {
				if v, ok := m.Get(key(i)); !ok || v != i || !m.Has(key(i)) {
					fail("%T: key %d of %d gives %v, %v", m, i, much, v, ok)
				}
				if i%3 == 0 {
					m.Remove(key(i))
				} else {
					m.Set(key(i), -i)
				}
			})
			if n := much - (much+2)/3; m.Len() != n {
				fail("%T: %d keys instead of %d", m, m.Len(), n)
			}
			all(func(i int) {
				if v, ok := m.Get(key(i)); ok != (i%3 != 0) || ok && v != -i {
					fail("%T: key %d of %d gives %v, %v after the change", m, i, much, v, ok)
				}
			})
			for i := 0; i < much; i++ { // one key many times
				m.Set("", i)
			}
			if v, _ := m.Get(""); v != much-1 {
				fail("%T: a key that was set %d times has %v", m, much, v)
			}
		}
	})
}

func c24Volume(r *vk.Run) func() {
	return volume(r, "broadcasters with many readers", func(fail func(string, ...any)) {
		b := concurrency.NewBroadCaster()
		const n = 5000
		var wg sync.WaitGroup
		var begun atomic.Bool
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if v := b.Get(); v != "value" || !begun.Load() {
					fail("reader %d of %d gets %v, set: %v", i, n, v, begun.Load())
				}
			}()
		}
		time.Sleep(300 * time.Millisecond)
		begun.Store(true)
		b.Set("value")
		wg.Wait()
		for i := 0; i < much; i++ {
			if v := b.Get(); v != "value" {
				fail("read %d gives %v", i, v)
			}
		}
	})
}

func c25Volume(r *vk.Run) func() {
	return volume(r, "files of many and large writes", func(fail func(string, ...any)) {
		path := filepath.Join(r.Scratch(), "volume")
		f, err := os.OpenFile(path, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0600)
		if err != nil {
			r.Infra("%v", err)
		}
		defer os.Remove(path)
		defer f.Close()
		p := log.NewPersistentFile(f)
		var want bytes.Buffer
		add := func(i int, s string) {
			var err error
			n := len(s)
			switch i % 3 {
			case 0:
				n, err = p.Write([]byte(s))
			case 1:
				n, err = p.WriteString(s)
			default:
				for j := 0; j < len(s) && err == nil; j++ {
					err = p.WriteByte(s[j])
				}
			}
			if err != nil || n != len(s) {
				fail("write %d of %d bytes gives %d, %v", i, len(s), n, err)
			}
			want.WriteString(s)
		}
		same := func(when string) {
			size, err := p.FlushedSize()
			if err != nil || size != int64(want.Len()) {
				fail("%s: the flushed size is %d, %v instead of %d", when, size, err, want.Len())
			}
			b, err := os.ReadFile(path)
			if err != nil {
				r.Infra("%v", err)
			}
			if !bytes.Equal(b, want.Bytes()) {
				i := 0
				for i < len(b) && i < want.Len() && b[i] == want.Bytes()[i] {
					i++
				}
				fail("%s: the file has %d bytes, of which the first %d are those of the %d that were written", when, len(b), i, want.Len())
			}
		}
		for i := 0; i < much; i++ {
			add(i, fmt.Sprint(i, ";"))
		}
		same("many writes")
		for k := 6; k <= 16; k++ { // writes of all sizes close to a power of two, at all kinds of places in the buffer
			for n := 1<<k - 6; n <= 1<<k+6; n++ {
				for i := 0; i < 2; i++ {
					add(i, strings.Repeat(string(rune('a'+n%26)), n))
				}
				add(n%3, strings.Repeat("-", n%5))
			}
			if err := p.Flush(); err != nil {
				fail("flush: %v", err)
			}
		}
		same("writes close to powers of two")
		for rest := 0; rest < 12; rest++ { // writes that fill the buffer almost, exactly, or a little more
			for _, more := range []int{-2, -1, 0, 1, 2} {
				for i := 0; i < 3; i++ {
					if err := p.Flush(); err != nil {
						fail("flush: %v", err)
					}
					add(0, strings.Repeat("(", rest))
					if n := p.Available() + more; n > 0 && n < 1<<20 {
						add(i, strings.Repeat("=", n))
					}
					add(i, ")")
				}
			}
		}
		same("writes that fill the buffer")
		add(0, strings.Repeat("0123456789abcdef", 1<<20))
		add(1, strings.Repeat("fedcba9876543210", 1<<20))
		same("large writes")
	})
}

func c29Volume(r *vk.Run) func() {
	return volume(r, "a pipeline of many handlers", func(fail func(string, ...any)) {
		for _, broken := range []int{-1, much - 1, much / 2} {
			p := util.NewPipeline()
			calls := 0
			var last types.DataMap
			for i := 0; i < much; i++ {
				p = p.AddHandler(func(in types.DataMap) (types.DataMap, error) {
					if calls != i || i > 0 && in != last {
						fail("call %d is of handler %d with %v instead of %v", calls, i, in, last)
					}
					calls++
					last = in
					if i%1000 == 0 {
						last = types.NewSimpleDataMap()
					}
					if i == broken {
						return last, errBroken
					}
					return last, nil
				})
			}
			for round := 0; round < 2; round++ {
				calls = 0
				out, err := p.Run(types.NewSimpleDataMap())
				if broken < 0 && (err != nil || calls != much || out != last) || broken >= 0 && (err != errBroken || calls != broken+1 || out != last) {
					fail("%d handlers are called, of %d of which number %d fails: %v", calls, much, broken, err)
				}
			}
		}
	})
}

func c23Volume(r *vk.Run) func() {
	return volume(r, "a sorted set of many members", func(fail func(string, ...any)) {
		rng := r.Rng("volume")
		s := container.NewSortedSetContainer("volume")
		var ref []member
		for i := 0; i < much; i++ {
			ref = append(ref, member{fmt.Sprint("m", i), float64(rng.Intn(much / 3))})
		}
		for i := 0; i < much; {
			var scores []float64
			var names []*container.StringContainer
			for j := i + 1 + rng.Intn(300); i < j && i < much; i++ {
				scores, names = append(scores, ref[i].score), append(names, container.NewString(ref[i].name))
			}
			if err := s.Add(scores, names); err != nil {
				fail("adding %d members: %v", len(names), err)
			}
		}
		look := func(when string) {
			sort.Slice(ref, func(i, j int) bool {
				return ref[i].score < ref[j].score || ref[i].score == ref[j].score && ref[i].name < ref[j].name
			})
			if s.Len() != len(ref) {
				fail("%s: %d members instead of %d", when, s.Len(), len(ref))
			}
			for i, m := range ref {
				if n, err := s.Rank(container.NewString(m.name)); err != nil || n != i {
					fail("%s: rank %d is given as %d, %v", when, i, n, err)
				}
				if sc, err := s.Score(container.NewString(m.name)); err != nil || sc != m.score {
					fail("%s: score %v is given as %v, %v", when, m.score, sc, err)
				}
			}
		}
		look("after the additions")
		for i := range ref {
			if rng.Intn(20) == 0 {
				by := float64(rng.Intn(1000) - 500)
				ref[i].score += by
				if sc, err := s.IncreaseBy(container.NewString(ref[i].name), by); err != nil || sc != ref[i].score {
					fail("an increase gives %v, %v instead of %v", sc, err, ref[i].score)
				}
			}
		}
		look("after increases")
		var del []*container.StringContainer
		var left []member
		for _, m := range ref {
			if rng.Intn(3) > 0 {
				del = append(del, container.NewString(m.name))
			} else {
				left = append(left, m)
			}
		}
		s.Del(del)
		ref = left
		look("after the removal of two thirds")
		for len(ref) > 0 {
			if v, err := s.PopMin(); err != nil || v.String() != ref[0].name {
				fail("%d members: pop gives %v, %v", len(ref), v, err)
			}
			if ref = ref[1:]; len(ref) > 0 {
				if v, err := s.PopMax(); err != nil || v.String() != ref[len(ref)-1].name {
					fail("%d members: pop gives %v, %v", len(ref), v, err)
				}
				ref = ref[:len(ref)-1]
			}
		}
		if s.Len() != 0 {
			fail("%d members are left", s.Len())
		}
	})
}

func c15Volume(r *vk.Run, listeners chan net.Listener) func() {
	return volume(r, "a connection with many and large objects", func(fail func(string, ...any)) {
		l := <-listeners
		c, peer := tcpPair(r, l)
		listeners <- l
		defer peer.Close()
		conn := network.NewConnWithExpire(c, time.Hour)
		object := func(i int) string {
			if i%10000 == 9999 {
				return vk.Bulk(strings.Repeat("x", i*20)).Encode()
			}
			return vk.Cmd("object", fmt.Sprint(i))
		}
		go func() {
			var b strings.Builder
			for i := 0; i < much; i++ {
				b.WriteString(object(i))
			}
			if _, err := io.WriteString(peer, b.String()); err != nil {
				fail("the peer cannot send: %v", err)
			}
		}()
		for i := 0; i < much; i++ {
			if o, err := conn.Read(); err != nil || o.String() != object(i) {
				fail("read %d gives %v, %v", i, o, err)
			}
		}
		go func() {
			for i := 0; i < much; i++ {
				if err := conn.Write(object(i)); err != nil {
					fail("write %d gives %v", i, err)
				}
			}
		}()
		for i := 0; i < much; {
			var want strings.Builder
			for j := i + 1000; i < j; i++ {
				want.WriteString(object(i))
			}
			b := make([]byte, want.Len())
			if _, err := io.ReadFull(peer, b); err != nil || string(b) != want.String() {
				fail("the peer does not get the writes up to %d: %v", i, err)
			}
		}
		if err := conn.Close(); err != nil {
			fail("close gives %v", err)
		}
	})
}

func c09Volume(r *vk.Run) func() {
	return volume(r, "many and large objects", func(fail func(string, ...any)) {
		var all strings.Builder
		var want []string
		var objects []protocol.RedisObject
		for i := 0; i < much; i++ {
			o := protocol.RedisObject(protocol.NewBulkRedisString(fmt.Sprint("text", i)))
			if i%7 == 0 {
				o = protocol.NewRedisInteger(int64(i))
			}
			objects = append(objects, o)
		}
		add := func(s string) {
			want = append(want, s)
			all.WriteString(s)
		}
		add(protocol.NewRedisArray(objects).String())
		if !strings.HasPrefix(all.String(), fmt.Sprintf("*%d\r\n:0\r\n$5\r\ntext1\r\n", much)) {
			fail("an array of %d elements begins %q", much, all.String()[:30])
		}
		for k := 6; k <= 17; k++ {
			for n := 1<<k - 9; n <= 1<<k+3; n++ {
				add(vk.Bulk(strings.Repeat(string(rune('a'+n%26)), n)).Encode())
			}
			add(protocol.NewRedisArray(objects[:min(much, 1<<k)]).String())
			add("+" + strings.Repeat("s", 1<<k) + "\r\n")
		}
		add(vk.Bulk(strings.Repeat("0123456789abcdef", 1<<20)).Encode())
		for _, o := range objects {
			add(o.String())
		}
		rd := protocol.NewRESPReader(strings.NewReader(all.String()))
		for i, s := range want {
			o, err := rd.ReadObject()
			if err != nil || o.String() != s || !bytes.Equal(o.Byte(), []byte(s)) {
				fail("object %d of %d, with %d bytes, does not come back: %v", i, len(want), len(s), err)
			}
		}
		if o, err := rd.ReadObject(); err == nil {
			fail("there is an object more: %v", o)
		}
	})
}
