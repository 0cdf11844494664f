package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/lxdlam/vertex/pkg/container"

	"verif/vk"
)

func init() {
	checks["C23"] = check{"exploration",
		"random sequences of adding new members, deleting, increasing scores and popping on sorted sets, with many equal scores, extreme and infinite scores, empty and binary names, compared after every operation with a sorted reference list: " +
			"length, scores, ranks of all or sampled members, the popped members and the errors for missing members; at the end everything is popped from random ends. A case is one sequence; non-trivial with three members at some time; distinct by its operations.",
		c23}
}

type member struct {
	name  string
	score float64
}

func c23(r *vk.Run) {
	r.Assume("members are added once, scores are no NaN")
	// the random source of the skip list is shared and not for concurrent use
	c23Volume(r)()
	cases(r, 1, r.N(25000, 1500000), func(k int, w *note) { c23Case(r, r.Rng("case", k), w) })
}

func c23Case(r *vk.Run, rng *rand.Rand, w *note) {
	ops := 10 + rng.Intn(60)
	if rng.Intn(30) == 0 {
		ops = 600
	}
	scores := []float64{0, 1, -1, 2, 2.5}
	switch rng.Intn(4) {
	case 0:
		scores = []float64{0, math.Copysign(0, -1), 5e-324, -5e-324, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), 1e300, 1}
	case 1:
		scores = []float64{7}
	case 2:
		for i := 0; i < 200; i++ {
			scores = append(scores, rng.NormFloat64()*100)
		}
	}
	var log []string
	sum := ""
	var ref []member // ordered by score, then name
	key := fmt.Sprintf("key%d", rng.Intn(5))
	s := container.NewSortedSetContainer(key)
	fail := func(format string, args ...any) {
		r.Violate(map[string]any{"operations": log}, "after %d operations: %s", len(log), fmt.Sprintf(format, args...))
	}
	w.set("sorted set sequence")
	find := func(name string) int {
		for i, m := range ref {
			if m.name == name {
				return i
			}
		}
		return -1
	}
	insert := func(m member) {
		i := sort.Search(len(ref), func(i int) bool {
			return ref[i].score > m.score || (ref[i].score == m.score && ref[i].name > m.name)
		})
		ref = append(ref[:i], append([]member{m}, ref[i:]...)...)
	}
	newName := func() string {
		for {
			n := ""
			switch rng.Intn(3) {
			case 0:
				n = string([]byte{"\x00ab\xff\x80"[rng.Intn(5)]})[:rng.Intn(2)]
			case 1:
				b := make([]byte, 1+rng.Intn(4))
				for i := range b {
					b[i] = "\x00abc\xff\x7f"[rng.Intn(6)]
				}
				n = string(b)
			default:
				n = fmt.Sprintf("member%d", rng.Intn(1000))
			}
			if find(n) < 0 {
				return n
			}
		}
	}
	str := container.NewString
	biggest := 0
	pop := func(min bool) {
		var got *container.StringContainer
		var err error
		at := 0
		if min {
			log = append(log, "popmin")
			got, err = s.PopMin()
		} else {
			log = append(log, "popmax")
			got, err = s.PopMax()
			at = len(ref) - 1
		}
		if len(ref) == 0 {
			if got != nil || !errors.Is(err, container.ErrSortedSetEmpty) {
				fail("popping from an empty set gives %v, %v", got, err)
			}
			return
		}
		if err != nil || got == nil || got.String() != ref[at].name {
			fail("pop gives %v, %v instead of %s", got, err, vk.Q(ref[at].name))
		}
		ref = append(ref[:at], ref[at+1:]...)
		r.Count("pops", 1)
	}
	verify := func() {
		if s.Len() != len(ref) {
			fail("the length is %d instead of %d", s.Len(), len(ref))
		}
		step := 1
		if len(ref) > 40 {
			step = 1 + rng.Intn(len(ref)/10)
		}
		for i := 0; i < len(ref); i += step {
			sc, err := s.Score(str(ref[i].name))
			if err != nil || sc != ref[i].score {
				fail("the score of %s is %v, %v instead of %v", vk.Q(ref[i].name), sc, err, ref[i].score)
			}
			n, err := s.Rank(str(ref[i].name))
			if err != nil || n != i {
				fail("the rank of %s is %v, %v instead of %v", vk.Q(ref[i].name), n, err, i)
			}
			r.Count("ranks_compared", 1)
		}
		missing := newName()
		if _, err := s.Score(str(missing)); !errors.Is(err, container.ErrEntryNotFound) {
			fail("the score of a missing member gives %v", err)
		}
		if _, err := s.Rank(str(missing)); !errors.Is(err, container.ErrEntryNotFound) {
			fail("the rank of a missing member gives %v", err)
		}
	}
	if s.Key() != key || s.Type() != container.SortedSetType {
		fail("key %s, type %v", s.Key(), s.Type())
	}
	verify()
	for i := 0; i < ops; i++ {
		switch x := rng.Intn(12); {
		case x < 4: // add new members
			var sc []float64
			var names []*container.StringContainer
			var ms []member
			for n := rng.Intn(4); n > 0; n-- {
				m := member{newName(), scores[rng.Intn(len(scores))]}
				dup := false
				for _, o := range ms {
					dup = dup || o.name == m.name
				}
				if dup {
					continue
				}
				ms = append(ms, m)
				sc = append(sc, m.score)
				names = append(names, str(m.name))
			}
			log = append(log, fmt.Sprintf("add %+v", ms))
			if rng.Intn(12) == 0 {
				if err := s.Add(append(sc, 1), names); !errors.Is(err, container.ErrSortedSetLengthNotMatch) {
					fail("adding with one score too many gives %v", err)
				}
				break
			}
			if err := s.Add(sc, names); err != nil {
				fail("add gives %v", err)
			}
			for _, m := range ms {
				insert(m)
			}
		case x < 6: // delete
			var names []*container.StringContainer
			l := "del"
			for n := rng.Intn(4); n > 0; n-- {
				name := newName()
				if len(ref) > 0 && rng.Intn(4) > 0 {
					name = ref[rng.Intn(len(ref))].name
				}
				l += " " + vk.Q(name)
				names = append(names, str(name))
			}
			log = append(log, l)
			s.Del(names)
			for _, n := range names {
				if at := find(n.String()); at >= 0 {
					ref = append(ref[:at], ref[at+1:]...)
				}
			}
		case x < 10: // increase
			name := newName()
			if len(ref) > 0 && rng.Intn(8) > 0 {
				name = ref[rng.Intn(len(ref))].name
			}
			by := scores[rng.Intn(len(scores))]
			at := find(name)
			if at >= 0 && math.IsNaN(ref[at].score+by) {
				break
			}
			log = append(log, fmt.Sprintf("increase %s by %v", vk.Q(name), by))
			sc, err := s.IncreaseBy(str(name), by)
			if at < 0 {
				if !errors.Is(err, container.ErrEntryNotFound) {
					fail("increasing a missing member gives %v, %v", sc, err)
				}
				break
			}
			m := member{name, ref[at].score + by}
			if err != nil || sc != m.score {
				fail("increasing %s by %v gives %v, %v instead of %v", vk.Q(name), by, sc, err, m.score)
			}
			ref = append(ref[:at], ref[at+1:]...)
			insert(m)
		default:
			pop(rng.Intn(2) == 0)
		}
		r.Count("operations", 1)
		biggest = max(biggest, len(ref))
		if len(log) > 0 && len(sum) < 2000 {
			sum += log[len(log)-1] + ";"
		}
		verify()
	}
	for len(ref) > 0 {
		pop(rng.Intn(2) == 0)
		if rng.Intn(5) == 0 {
			verify()
		}
	}
	pop(true)
	pop(false)
	verify()
	r.Max("most_members", int64(biggest))
	sig := ""
	if biggest >= 3 {
		sig = sum
	}
	if r.WantSample() && ops < 15 {
		r.Sample(log)
	}
	r.Case(sig)
}
