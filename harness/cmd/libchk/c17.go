package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/lxdlam/vertex/pkg/concurrency"

	"verif/vk"
)

func init() {
	checks["C17"] = check{"exploration",
		"topics and the event bus under a perturbed schedule. Delivery: several topics, publishers and subscribers of random capacity and expiry time, some of which close and subscribe again under the same name; every received event is " +
			"logged and compared with what was published (topic, payload, error, source, identity), nothing arrives twice or elsewhere, each publish result must equal the number of subscribers that logged the event, and a ready subscriber must get everything. " +
			"Removal: waiting subscribers must be told, publish and subscribe must report no such topic. Registry: histories of concurrent topic creation, removal and lookup are checked for linearizability. " +
			"A case is one scenario; non-trivial with two subscribers or two goroutines; distinct by its drawn parameters.",
		c17}
}

var topicNo int64

func topicName() string { return fmt.Sprintf("topic-%d", atomic.AddInt64(&topicNo, 1)) }

func c17(r *vk.Run) {
	r.Assume("a subscriber that closes has read what was sent to it, or does not count")
	var mu sync.Mutex
	levels := r.Rng("levels")
	var done int64
	for i := 0; i < r.N(4, 60) && !raceBuild; i++ {
		c17Forgotten(r, i)
	}
	defer patient(r, func(d time.Duration) { c17Late(r, d) })()
	defer c17Volume(r)()
	cases(r, 12, r.N(20000, 600000), func(k int, w *note) {
		if atomic.AddInt64(&done, 1)%100 == 0 {
			mu.Lock()
			perturb(levels)
			mu.Unlock()
		}
		rng := r.Rng("case", k)
		switch x := rng.Intn(20); {
		case x < 1:
			c17Stuck(r, rng, w)
		case x < 10:
			c17Delivery(r, rng, w)
		case x < 14:
			c17Renewal(r, rng, w)
		case x < 18:
			c17Removal(r, rng, w)
		default:
			c17Registry(r, rng, w)
		}
	})
}

// c17Late has subscribers that wait long for an event, and an event that waits long for a subscriber with that much time.
func c17Late(r *vk.Run, d time.Duration) {
	fail := caseFail(r, &note{}, fmt.Sprintf("subscribers and events that wait for %s", d))
	name := topicName()
	bus := concurrency.GetEventBus()
	if !bus.NewTopic(name) {
		fail("a new topic exists")
	}
	defer bus.RemoveTopic(name)
	var wg sync.WaitGroup
	take := func(rc concurrency.Receiver, err error, first time.Duration) {
		if err != nil {
			fail("subscribe: %v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(first)
			if e, err := rc.Receive(); err != nil || e.Data() != any(d) {
				fail("receive gives %v, %v", e, err)
			}
		}()
	}
	a, err := bus.SubscribeWithOptions(name, "waits", 0, time.Hour)
	take(a, err, 0)
	b, err := bus.Subscribe(name, "waits too")
	take(b, err, 0)
	c, err := bus.SubscribeWithOptions(name, "comes late", 0, time.Hour)
	take(c, err, 2*d)
	e, err := bus.SubscribeWithOptions(name, "buffers", 1, concurrency.DefaultExpireTime)
	take(e, err, 2*d)
	time.Sleep(d)
	fut := bus.Publish(name, d, nil)
	if !vk.Within(d+2*hangLimit, wg.Wait) {
		fail("not received %s after the publish", d+2*hangLimit)
	}
	if !vk.Within(hangLimit, func() {
		if n, err := fut.Get(); n != 4 || err != nil {
			fail("the publish gives %v, %v instead of 4", n, err)
		}
	}) {
		fail("the publish has no result")
	}
	for _, rc := range []concurrency.Receiver{a, b, c, e} {
		rc.Close()
	}
	r.Case(fmt.Sprint("late", d))
}

// c17Forgotten has many subscribers with large buffers close. What they took must be given back.
func c17Forgotten(r *vk.Run, k int) {
	rng := r.Rng("forgotten", k)
	n, size := 1000+rng.Intn(1000), 2000
	useBus := k%2 == 0
	what := fmt.Sprintf("%d subscribers with %d events of room each that close, by the bus: %v", n, size, useBus)
	fail := caseFail(r, &note{}, what)
	bus, name := concurrency.GetEventBus(), topicName()
	tp := concurrency.NewTopic(name)
	subscribe := func(who string, size int) concurrency.Receiver {
		if !useBus {
			return tp.SubscribeWithOptions(who, size, time.Hour)
		}
		rc, err := bus.SubscribeWithOptions(name, who, size, time.Hour)
		if err != nil {
			fail("subscribe: %v", err)
		}
		return rc
	}
	publish := func() (n any) {
		var err error
		if !vk.Within(hangLimit, func() {
			if useBus {
				n, err = bus.Publish(name, "event", nil).Get()
			} else {
				n, err = tp.Publish(concurrency.NewEvent(name, "event", nil)).Get()
			}
		}) || err != nil {
			fail("a publish gives %v", err)
		}
		return
	}
	heap := func() int64 {
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	if useBus {
		bus.NewTopic(name)
		defer bus.RemoveTopic(name)
	}
	base := heap()
	var rcs []concurrency.Receiver
	for i := 0; i < n; i++ {
		rcs = append(rcs, subscribe(fmt.Sprint("gone", i), size))
	}
	stays := subscribe("stays", 0)
	var got int64
	go func() {
		for {
			if _, err := stays.Receive(); err != nil {
				return
			}
			atomic.AddInt64(&got, 1)
		}
	}()
	defer stays.Close()
	if c := publish(); c != n+1 {
		fail("a publish to %d subscribers with room gives %v", n+1, c)
	}
	full := heap()
	for _, rc := range rcs {
		rc.Close()
	}
	rcs = nil
	limit := time.Now().Add(hangLimit)
	left := full
	for full-left < (full-base)*3/4 {
		if time.Now().After(limit) {
			fail("the subscribers took %d bytes; %s after they closed, with publishes since then, %d of them are still taken", full-base, hangLimit, left-base)
		}
		if c := publish(); c != 1 {
			fail("a publish to one subscriber and %d that closed gives %v", n, c)
		}
		time.Sleep(time.Millisecond)
		left = heap()
	}
	r.Count("closed_subscribers_forgotten", int64(n))
	r.Case(what)
}

type failFunc func(format string, args ...any)

func caseFail(r *vk.Run, w *note, what string) failFunc {
	w.set(what)
	return func(format string, args ...any) {
		r.Violate(map[string]any{"case": what, "stacks": vk.Clip(vk.Stacks(), 50000)}, "%s: %s", what, fmt.Sprintf(format, args...))
	}
}

type published struct {
	topic  string
	source string
	err    error
	data   *int
	count  int
}

type subscriber struct {
	name string
	rc   concurrency.Receiver
	got  []concurrency.Event
	n    int64
}

func (s *subscriber) run(wg *sync.WaitGroup, g *rand.Rand, slow bool) {
	defer wg.Done()
	for {
		e, err := s.rc.Receive()
		if err != nil {
			return
		}
		s.got = append(s.got, e)
		if !raceBuild {
			atomic.AddInt64(&s.n, 1)
		}
		if slow && g.Intn(8) == 0 {
			time.Sleep(time.Duration(g.Intn(3000)) * time.Microsecond)
		}
	}
}

func c17Delivery(r *vk.Run, rng *rand.Rand, w *note) {
	bus := concurrency.GetEventBus()
	topics := 1 + rng.Intn(3)
	slow := rng.Intn(3) == 0
	what := fmt.Sprintf("delivery over %d topics, slow receivers: %v;", topics, slow)
	type sub struct {
		*subscriber
		topic int
		ready bool // gets everything whatever the schedule
	}
	var names []string
	var subs []*sub
	type plan struct {
		size   int
		expire time.Duration
	}
	for t := 0; t < topics; t++ {
		name := topicName()
		names = append(names, name)
		if !bus.NewTopic(name) {
			r.Violate(map[string]any{"topic": name}, "a new topic is said to exist")
		}
		for i := rng.Intn(5); i > 0; i-- {
			p := plan{[]int{0, 1, 3, 100}[rng.Intn(4)], []time.Duration{time.Millisecond, concurrency.DefaultExpireTime, time.Hour, time.Hour}[rng.Intn(4)]}
			s := &sub{&subscriber{name: fmt.Sprintf("s%d", i)}, t, p.expire == time.Hour}
			var err error
			if rng.Intn(3) == 0 {
				s.ready = false
				what += fmt.Sprintf(" plain@%d", t)
				s.rc, err = bus.Subscribe(name, s.name)
			} else {
				what += fmt.Sprintf(" %d/%s@%d", p.size, p.expire, t)
				s.rc, err = bus.SubscribeWithOptions(name, s.name, p.size, p.expire)
			}
			if err != nil {
				r.Violate(map[string]any{"topic": name}, "subscribe to an existing topic fails: %v", err)
			}
			subs = append(subs, s)
		}
	}
	publishers, events := 1+rng.Intn(3), 1+rng.Intn(12)
	overlap := rng.Intn(3) == 0 // publish without waiting for the result
	what += fmt.Sprintf("; %d publishers of %d events, overlapping: %v", publishers, events, overlap)
	fail := caseFail(r, w, what)
	var recvWG, pubWG sync.WaitGroup
	for _, s := range subs {
		recvWG.Add(1)
		go s.run(&recvWG, rand.New(rand.NewSource(rng.Int63())), slow)
	}
	logs := make([][]published, publishers)
	for i := 0; i < publishers; i++ {
		g := rand.New(rand.NewSource(rng.Int63()))
		pubWG.Add(1)
		go func(i int) {
			defer pubWG.Done()
			var futures []concurrency.Future
			for k := 0; k < events; k++ {
				p := published{topic: names[g.Intn(len(names))], source: "anonymous", data: new(int), count: -1}
				if g.Intn(3) == 0 {
					p.err = errors.New("an error")
				}
				var f concurrency.Future
				if g.Intn(2) == 0 {
					p.source = fmt.Sprintf("source %d", i)
					f = bus.PublishWithSource(p.topic, p.source, p.data, p.err)
				} else {
					f = bus.Publish(p.topic, p.data, p.err)
				}
				logs[i] = append(logs[i], p)
				futures = append(futures, f)
				if !overlap {
					_ = f.Wait()
				}
			}
			for k, f := range futures {
				v, err := f.Get()
				n, ok := v.(int)
				if err != nil || !ok {
					fail("publish gives %v, %v", v, err)
				}
				logs[i][k].count = n
			}
		}(i)
	}
	if !vk.Within(hangLimit, pubWG.Wait) {
		fail("a publish has not been settled for %s", hangLimit)
	}
	// what was counted is received, then the subscribers leave
	want := int64(0)
	for _, l := range logs {
		for _, p := range l {
			want += int64(p.count)
		}
	}
	limit := time.Now().Add(hangLimit)
	for !raceBuild {
		have := int64(0)
		for _, s := range subs {
			have += atomic.LoadInt64(&s.n)
		}
		if have >= want {
			break
		}
		if time.Now().After(limit) {
			fail("%d deliveries are counted, but only %d events are received", want, have)
		}
		time.Sleep(50 * time.Microsecond)
	}
	if raceBuild {
		time.Sleep(20 * time.Millisecond)
	}
	for _, s := range subs {
		s.rc.Close()
	}
	if !vk.Within(hangLimit, recvWG.Wait) {
		fail("a receive has not returned %s after the close", hangLimit)
	}
	byData := map[*int]*published{}
	for _, l := range logs {
		for i := range l {
			byData[l[i].data] = &l[i]
		}
	}
	received := map[*int]int{}
	ids := map[*int]string{}
	for _, s := range subs {
		mine := map[*int]bool{}
		for _, e := range s.got {
			d, ok := e.Data().(*int)
			p := byData[d]
			if !ok || p == nil {
				fail("subscriber %s gets an event that was never published: %v", s.name, e)
			}
			if e.Topic() != p.topic || p.topic != names[s.topic] || e.Error() != p.err || e.Source() != p.source || e.ID() == "" {
				fail("subscriber %s of %s gets an event of topic %s, error %v, source %s, published to %s with error %v, source %s", s.name, names[s.topic], e.Topic(), e.Error(), e.Source(), p.topic, p.err, p.source)
			}
			if id, seen := ids[d]; seen && id != e.ID() {
				fail("subscribers see different identities of one event")
			}
			ids[d] = e.ID()
			if mine[d] {
				fail("subscriber %s gets one event twice", s.name)
			}
			mine[d] = true
			received[d]++
			r.Count("events_received", 1)
		}
		if s.ready && !raceBuild {
			for d, p := range byData {
				if p.topic == names[s.topic] && !mine[d] {
					fail("subscriber %s, which waits for an hour and reads on, misses an event", s.name)
				}
			}
		}
	}
	for d, p := range byData {
		if !raceBuild && received[d] != p.count {
			fail("the publish result is %d, but %d subscribers received the event", p.count, received[d])
		}
		r.Count("events_published", 1)
	}
	for _, n := range names {
		if !bus.RemoveTopic(n) {
			fail("removing an existing topic fails")
		}
	}
	sig := ""
	if len(subs) > 1 || publishers > 1 {
		sig = what
	}
	if r.WantSample() && len(subs) > 1 {
		r.Sample(what)
	}
	r.Case(sig)
}

// c17Renewal has subscribers close and subscribe again under the same name while events are published.
func c17Renewal(r *vk.Run, rng *rand.Rand, w *note) {
	tp := concurrency.NewTopic("renewal")
	rounds := 2 + rng.Intn(8)
	others := rng.Intn(3)
	noise := rng.Intn(3)
	what := fmt.Sprintf("%d times closed and subscribed again under the same name, %d other subscribers, %d concurrent publishers", rounds, others, noise)
	fail := caseFail(r, w, what)
	var wg, noiseWG sync.WaitGroup
	var stop atomic.Bool
	var os []*subscriber
	for i := 0; i < others; i++ {
		s := &subscriber{name: fmt.Sprintf("other%d", i), rc: tp.SubscribeWithOptions(fmt.Sprintf("other%d", i), 0, time.Hour)}
		os = append(os, s)
		wg.Add(1)
		go s.run(&wg, nil, false)
	}
	for i := 0; i < noise; i++ {
		noiseWG.Add(1)
		go func() {
			defer noiseWG.Done()
			for !stop.Load() {
				_ = tp.Publish(concurrency.NewEvent("renewal", "noise", nil)).Wait()
			}
		}()
	}
	for k := 0; k < rounds; k++ {
		s := &subscriber{name: "renewed"}
		if rng.Intn(2) == 0 {
			s.rc = tp.SubscribeWithOptions(s.name, 0, time.Hour)
		} else {
			s.rc = tp.SubscribeWithOptions(s.name, 4, time.Hour)
		}
		wg.Add(1)
		go s.run(&wg, nil, false)
		time.Sleep(time.Duration(rng.Intn(3)*rng.Intn(400)) * time.Microsecond)
		var n any
		var err error
		mark := fmt.Sprintf("mark %d", k)
		if !vk.Within(hangLimit, func() { n, err = tp.Publish(concurrency.NewEvent("renewal", mark, nil)).Get() }) {
			fail("a publish has not been settled for %s", hangLimit)
		}
		if err != nil || n != others+1 {
			fail("round %d: a publish to %d ready subscribers, the newest of which took the name of one that closed, gives %v, %v", k, others+1, n, err)
		}
		limit := time.Now().Add(hangLimit)
		for !raceBuild && atomic.LoadInt64(&s.n) == 0 {
			if time.Now().After(limit) {
				fail("the subscriber counted gets nothing")
			}
			time.Sleep(20 * time.Microsecond)
		}
		s.rc.Close()
		if rng.Intn(2) == 0 { // somebody notices the close
			if !vk.Within(hangLimit, func() { n, err = tp.Publish(concurrency.NewEvent("renewal", "after", nil)).Get() }) {
				fail("a publish after a subscriber closed has not been settled for %s", hangLimit)
			}
			if err != nil || n != others {
				fail("round %d: a publish with %d subscribers left gives %v, %v", k, others, n, err)
			}
		}
		r.Count("renewals", 1)
	}
	stop.Store(true)
	if !vk.Within(hangLimit, noiseWG.Wait) {
		fail("a publish has not been settled for %s", hangLimit)
	}
	for _, s := range os {
		s.rc.Close()
	}
	if !vk.Within(hangLimit, wg.Wait) {
		fail("a receive has not returned %s after the close", hangLimit)
	}
	for _, s := range os {
		marks := 0
		for _, e := range s.got {
			if m, _ := e.Data().(string); m != "noise" && m != "after" {
				if m != fmt.Sprintf("mark %d", marks) {
					fail("subscriber %s gets %s when mark %d is due", s.name, m, marks)
				}
				marks++
			}
		}
		if marks != rounds {
			fail("subscriber %s gets %d of %d marked events", s.name, marks, rounds)
		}
	}
	r.Case(what)
}

// c17Stuck has subscribers that take nothing next to ready ones.
func c17Stuck(r *vk.Run, rng *rand.Rand, w *note) {
	bus, name := concurrency.GetEventBus(), topicName()
	ready, stuck, events := 1+rng.Intn(6), 1+rng.Intn(3), 1+rng.Intn(4)
	what := fmt.Sprintf("%d ready subscribers next to %d that take nothing, %d events", ready, stuck, events)
	fail := caseFail(r, w, what)
	bus.NewTopic(name)
	defer bus.RemoveTopic(name)
	subscribe := func(who string, size int) concurrency.Receiver {
		rc, err := bus.SubscribeWithOptions(name, who, size, time.Hour)
		if err != nil {
			fail("subscribe: %v", err)
		}
		return rc
	}
	var wg sync.WaitGroup
	var subs []*subscriber
	var blocked []concurrency.Receiver
	for _, i := range rng.Perm(ready + stuck) {
		if i < stuck {
			blocked = append(blocked, subscribe(fmt.Sprint("stuck", i), 0))
			continue
		}
		s := &subscriber{name: fmt.Sprint("ready", i)}
		s.rc = subscribe(s.name, []int{0, 8}[rng.Intn(2)])
		subs = append(subs, s)
		wg.Add(1)
		go s.run(&wg, nil, false)
	}
	var futs []concurrency.Future
	if !vk.Within(hangLimit, func() {
		for k := 0; k < events; k++ {
			futs = append(futs, bus.Publish(name, k, nil))
		}
	}) {
		fail("publishing waits for a subscriber that takes nothing")
	}
	limit := time.Now().Add(hangLimit)
	for _, s := range subs {
		for !raceBuild && atomic.LoadInt64(&s.n) < int64(events) {
			if time.Now().After(limit) {
				fail("%s, which is ready, has got %d of %d events in %s", s.name, atomic.LoadInt64(&s.n), events, hangLimit)
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
	for _, rc := range blocked {
		rc.Close()
	}
	for k, f := range futs {
		var n any
		var err error
		if !vk.Within(hangLimit, func() { n, err = f.Get() }) {
			fail("publish %d has not been settled %s after the subscribers that took nothing closed", k, hangLimit)
		}
		if err != nil || n != ready {
			fail("publish %d gives %v, %v", k, n, err)
		}
	}
	for _, s := range subs {
		s.rc.Close()
	}
	if !vk.Within(hangLimit, wg.Wait) {
		fail("a receive has not returned %s after the close", hangLimit)
	}
	r.Count("events_next_to_stuck_subscribers", int64(events))
	r.Case(what)
}

func c17Removal(r *vk.Run, rng *rand.Rand, w *note) {
	bus := concurrency.GetEventBus()
	name := topicName()
	waiting, closedSubs, events := rng.Intn(6), rng.Intn(3), rng.Intn(4)
	useBus := rng.Intn(3) > 0
	what := fmt.Sprintf("removal of a topic with %d waiting and %d closed subscribers after %d events, by the bus: %v", waiting, closedSubs, events, useBus)
	fail := caseFail(r, w, what)
	var tp concurrency.Topic
	subscribe := func(n string) concurrency.Receiver {
		size := rng.Intn(3)
		if !useBus {
			return tp.SubscribeWithOptions(n, size, time.Hour)
		}
		rc, err := bus.SubscribeWithOptions(name, n, size, time.Hour)
		if err != nil {
			fail("subscribe: %v", err)
		}
		return rc
	}
	if useBus {
		if bus.ExistTopic(name) {
			fail("a topic exists before it is created")
		}
		if _, err := bus.Subscribe(name, "x"); !errors.Is(err, concurrency.ErrNoSuchTopic) {
			fail("subscribing to a topic that does not exist gives %v", err)
		}
		if !bus.NewTopic(name) || bus.NewTopic(name) || !bus.ExistTopic(name) {
			fail("creating a topic twice is not a success and a failure")
		}
	} else {
		tp = concurrency.NewTopic(name)
	}
	var wg sync.WaitGroup
	told := make([]int, waiting)
	after := make([]int, waiting)
	var toldN int64
	var rcs []concurrency.Receiver
	for i := 0; i < waiting; i++ {
		rc := subscribe(fmt.Sprintf("w%d", i))
		rcs = append(rcs, rc)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for {
				e, err := rc.Receive()
				if err != nil {
					return
				}
				if errors.Is(e.Error(), concurrency.ErrTopicRemoved) {
					told[i]++
					atomic.AddInt64(&toldN, 1)
				} else if told[i] > 0 {
					after[i]++
				}
			}
		}(i)
	}
	for i := 0; i < closedSubs; i++ {
		subscribe(fmt.Sprintf("c%d", i)).Close()
	}
	for i := 0; i < events; i++ {
		var n any
		if useBus {
			n, _ = bus.Publish(name, i, nil).Get()
		} else {
			n, _ = tp.Publish(concurrency.NewEvent(name, i, nil)).Get()
		}
		if n != waiting {
			fail("a publish to %d ready subscribers gives %v", waiting, n)
		}
	}
	if !vk.Within(hangLimit, func() {
		if useBus {
			if !bus.RemoveTopic(name) {
				fail("removing an existing topic fails")
			}
			if bus.RemoveTopic(name) {
				fail("removing a topic twice succeeds twice")
			}
		} else {
			tp.Remove()
		}
	}) {
		fail("the removal has not returned for %s", hangLimit)
	}
	if useBus {
		if bus.ExistTopic(name) {
			fail("a removed topic exists")
		}
		if v, err := bus.Publish(name, 1, nil).Get(); !errors.Is(err, concurrency.ErrNoSuchTopic) {
			fail("a publish to a removed topic gives %v, %v", v, err)
		}
		if v, err := bus.PublishWithSource(name, "s", 1, nil).Get(); !errors.Is(err, concurrency.ErrNoSuchTopic) {
			fail("a publish with a source to a removed topic gives %v, %v", v, err)
		}
		if rc, err := bus.SubscribeWithOptions(name, "x", 1, time.Second); rc != nil || !errors.Is(err, concurrency.ErrNoSuchTopic) {
			fail("subscribing to a removed topic gives %v", err)
		}
		if rc, err := bus.Subscribe(name, "x"); rc != nil || !errors.Is(err, concurrency.ErrNoSuchTopic) {
			fail("subscribing to a removed topic gives %v", err)
		}
	}
	limit := time.Now().Add(hangLimit)
	for atomic.LoadInt64(&toldN) < int64(waiting) {
		if time.Now().After(limit) {
			fail("%d of %d waiting subscribers are told about the removal", toldN, waiting)
		}
		time.Sleep(20 * time.Microsecond)
	}
	for _, rc := range rcs {
		rc.Close()
	}
	if !vk.Within(hangLimit, wg.Wait) {
		fail("a receive has not returned %s after the close", hangLimit)
	}
	for i := range told {
		if told[i] != 1 || after[i] != 0 {
			fail("a subscriber is told %d times about the removal, and gets %d events after it", told[i], after[i])
		}
	}
	r.Count("removals", 1)
	r.Count("subscribers_told", int64(waiting))
	sig := ""
	if waiting > 0 {
		sig = what
	}
	r.Case(sig)
}

type regOp struct {
	kind int // 0 new, 1 remove, 2 exist, 3 subscribe, 4 publish
	name string
}

func c17Registry(r *vk.Run, rng *rand.Rand, w *note) {
	bus := concurrency.GetEventBus()
	names := []string{topicName(), topicName()}
	goroutines, ops := 2+rng.Intn(4), 5+rng.Intn(15)
	what := fmt.Sprintf("registry under %d goroutines of %d operations, seed %d", goroutines, ops, rng.Int63())
	fail := caseFail(r, w, what)
	logs := make([][]porcupine.Operation, goroutines)
	start := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < goroutines; i++ {
		g := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < ops; k++ {
				op := regOp{g.Intn(5), names[g.Intn(2)]}
				call := time.Since(start)
				var ok bool
				switch op.kind {
				case 0:
					ok = bus.NewTopic(op.name)
				case 1:
					ok = bus.RemoveTopic(op.name)
				case 2:
					ok = bus.ExistTopic(op.name)
				case 3:
					rc, err := bus.Subscribe(op.name, "s")
					ok = err == nil
					if ok {
						rc.Close()
					} else if !errors.Is(err, concurrency.ErrNoSuchTopic) {
						fail("subscribe gives %v", err)
					}
				case 4:
					f := bus.Publish(op.name, 1, nil)
					ret := time.Since(start)
					_, err := f.Get()
					if err != nil && !errors.Is(err, concurrency.ErrNoSuchTopic) {
						fail("publish gives %v", err)
					}
					logs[i] = append(logs[i], porcupine.Operation{ClientId: i, Input: op, Call: int64(call), Output: err == nil, Return: int64(ret)})
					continue
				}
				logs[i] = append(logs[i], porcupine.Operation{ClientId: i, Input: op, Call: int64(call), Output: ok, Return: int64(time.Since(start))})
			}
		}(i)
	}
	if !vk.Within(hangLimit, wg.Wait) {
		fail("an operation has not returned for %s", hangLimit)
	}
	var all []porcupine.Operation
	for _, l := range logs {
		all = append(all, l...)
	}
	model := porcupine.Model{
		Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
			parts := make([][]porcupine.Operation, 2)
			for _, o := range h {
				k := 0
				if o.Input.(regOp).name == names[1] {
					k = 1
				}
				parts[k] = append(parts[k], o)
			}
			return parts
		},
		Init: func() any { return false },
		Step: func(state, in, out any) (bool, any) {
			exists, ok := state.(bool), out.(bool)
			switch in.(regOp).kind {
			case 0:
				return ok == !exists, true
			case 1:
				return ok == exists, false
			}
			return ok == exists, exists
		},
	}
	switch porcupine.CheckOperationsTimeout(model, all, 60*time.Second) {
	case porcupine.Illegal:
		var lines []string
		for _, o := range all {
			lines = append(lines, fmt.Sprintf("goroutine %d: %v -> %v [%d, %d]", o.ClientId, o.Input, o.Output, o.Call, o.Return))
		}
		r.Violate(map[string]any{"case": what, "history": lines}, "the answers of concurrent topic creations, removals and lookups fit no order")
	case porcupine.Unknown:
		r.Count("histories_undecided", 1)
	}
	for _, n := range names {
		bus.RemoveTopic(n)
	}
	r.Count("registry_operations", int64(len(all)))
	r.Case(what)
}
