package main

import (
	"math"
	"strings"

	"github.com/lxdlam/vertex/pkg/util"

	"verif/vk"
)

func init() {
	checks["C21"] = check{"exploration",
		"every size up to a bound with every index and pair of indexes around it, and boundary values up to the ends of the integer range with random sizes, compared with the documented definition computed in 128-bit-safe steps; " +
			"every pair of byte strings over a small hostile alphabet up to a length and random longer pairs compared with the byte order and with each other. A case is one call compared; all but calls of size 0 and equal strings are non-trivial; " +
			"distinct by the arguments.",
		c21}
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// refIndex resolves an index as documented; ok is false if it is not in the range.
func refRaw(index, size int) int {
	if index < 0 {
		return index + size // size is not negative, so this does not overflow
	}
	return index
}

func c21(r *vk.Run) {
	var calls int64
	distinct := 0
	checkIndex := func(index, size int) {
		want := refRaw(index, size)
		if got := util.NewIndex(index).ResolveRaw(size); got != want {
			r.Violate(map[string]any{"index": index, "size": size}, "index %d of %d resolves raw to %d instead of %d", index, size, got, want)
		}
		if want < 0 || want >= size {
			want = -1
		}
		x := util.NewIndex(index)
		for i := 0; i < 2; i++ { // resolving leaves the index as it is
			if got := x.Resolve(size); got != want {
				r.Violate(map[string]any{"index": index, "size": size, "call": i + 1}, "index %d of %d resolves to %d instead of %d", index, size, got, want)
			}
		}
		calls += 3
	}
	checkSlice := func(left, right, size int) {
		wl, wr := refRaw(left, size), refRaw(right, size)
		s := util.NewSlice(left, right)
		if gl, gr := s.ResolveRaw(size); gl != wl || gr != wr {
			r.Violate(map[string]any{"left": left, "right": right, "size": size}, "slice [%d, %d] of %d resolves raw to [%d, %d] instead of [%d, %d]", left, right, size, gl, gr, wl, wr)
		}
		if wl < 0 || wr < 0 || wl >= size || wl > wr {
			wl, wr = -1, -1
		} else if wr >= size {
			wr = size - 1
		}
		for i := 0; i < 2; i++ {
			if gl, gr := s.Resolve(size); gl != wl || gr != wr {
				r.Violate(map[string]any{"left": left, "right": right, "size": size, "call": i + 1}, "slice [%d, %d] of %d resolves to [%d, %d] instead of [%d, %d]", left, right, size, gl, gr, wl, wr)
			}
		}
		calls += 3
	}
	bound := r.N(70, 160)
	for size := 0; size <= bound; size++ {
		for i := -size - 4; i <= size+4; i++ {
			checkIndex(i, size)
			for j := -size - 4; j <= size+4; j++ {
				checkSlice(i, j, size)
				distinct++
			}
		}
	}
	rng := r.Rng("boundary")
	edge := func(size int) int {
		base := []int{0, size, -size, math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, size / 2, 1 << 40, -(1 << 40)}[rng.Intn(10)]
		d := rng.Intn(7) - 3
		if (base > math.MaxInt-4 && d > 0) || (base < math.MinInt+4 && d < 0) {
			d = -d
		}
		return base + d
	}
	for k := 0; k < r.N(400000, 20000000); k++ {
		size := []int{0, 1, 2, rng.Intn(100), rng.Intn(1 << 30), math.MaxInt32, math.MaxInt, math.MaxInt - 1, 1 << 40}[rng.Intn(9)]
		i, j := edge(size), edge(size)
		checkIndex(i, size)
		checkSlice(i, j, size)
	}
	// one index and one slice asked about many sizes, as a command does that is resolved again
	for k := 0; k < r.N(60000, 3000000); k++ {
		base := rng.Intn(40)
		i, j := rng.Intn(60)-30, rng.Intn(60)-30
		if rng.Intn(4) == 0 {
			i, j = edge(base), edge(base)
		}
		x, s := util.NewIndex(i), util.NewSlice(i, j)
		var asked []int
		for n := 2 + rng.Intn(6); n > 0; n-- {
			size := base + rng.Intn(20) - rng.Intn(20)
			if size < 0 {
				size = 0
			}
			asked = append(asked, size)
			want, wl, wr := refRaw(i, size), refRaw(i, size), refRaw(j, size)
			if want < 0 || want >= size {
				want = -1
			}
			if wl < 0 || wr < 0 || wl >= size || wl > wr {
				wl, wr = -1, -1
			} else if wr >= size {
				wr = size - 1
			}
			if got := x.Resolve(size); got != want {
				r.Violate(map[string]any{"index": i, "sizes": asked}, "index %d, asked about the sizes %v in turn, resolves to %d instead of %d", i, asked, got, want)
			}
			if gl, gr := s.Resolve(size); gl != wl || gr != wr {
				r.Violate(map[string]any{"left": i, "right": j, "sizes": asked}, "slice [%d, %d], asked about the sizes %v in turn, resolves to [%d, %d] instead of [%d, %d]", i, j, asked, gl, gr, wl, wr)
			}
			calls += 2
		}
	}
	r.Count("index_and_slice_calls", calls)

	checkCompare := func(a, b string) {
		got := util.LexicalCompare(a, b)
		if sign(got) != strings.Compare(a, b) {
			r.Violate(map[string]any{"lhs": vk.Q(a), "rhs": vk.Q(b)}, "comparing %s with %s gives %d, the byte order is %d", vk.Q(a), vk.Q(b), got, strings.Compare(a, b))
		}
		if back := util.LexicalCompare(b, a); back != -got {
			r.Violate(map[string]any{"lhs": vk.Q(a), "rhs": vk.Q(b)}, "comparing %s with %s gives %d, but %d the other way round", vk.Q(a), vk.Q(b), got, back)
		}
	}
	alphabet := []byte{0, 'a', 'b', 0x7f, 0x80, 0xff}
	words := []string{""}
	for from, n := 0, 0; n < 4; n++ {
		to := len(words)
		for _, w := range words[from:to] {
			for _, c := range alphabet {
				words = append(words, w+string([]byte{c}))
			}
		}
		from = to
	}
	if !r.Thorough() {
		words = words[:1+6+36+216+300]
	}
	for _, a := range words {
		for _, b := range words {
			checkCompare(a, b)
		}
	}
	random := r.N(200000, 10000000)
	for k := 0; k < random; k++ {
		n := rng.Intn(300)
		if rng.Intn(2000) == 0 {
			n = rng.Intn(1 << (10 + rng.Intn(11)))
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[rng.Intn(6)]
		}
		a := string(b)
		switch rng.Intn(4) {
		case 0:
			checkCompare(a, a[:rng.Intn(n+1)])
		case 1:
			checkCompare(a, a+string([]byte{byte(rng.Intn(256))}))
		case 2:
			if n > 0 {
				b[rng.Intn(n)] = byte(rng.Intn(256))
			}
			checkCompare(a, string(b))
		default:
			checkCompare(a, strings.Clone(a))
		}
	}
	r.Count("string_pairs", int64(len(words)*len(words)+random))
	r.Sample(map[string]any{"slice": []int{-3, 100}, "size": 5, "resolves_to": []int{2, 4}})
	r.Sample(map[string]any{"compare": []string{"\x00", ""}, "sign": 1})
	r.Bulk(calls+int64(len(words)*len(words)+random), int64(distinct+len(words)*(len(words)-1)))
}
