package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lxdlam/vertex/pkg/log"

	"verif/vk"
)

func init() {
	checks["C25"] = check{"exploration",
		"persistent files under concurrent writers of records of random sizes around the buffer size (all three write methods), flushers, size queries and readers of the file on disk, with a perturbed schedule. Each record names its writer and position; " +
			"after the last flush the file must parse into every record once, contiguous and in each writer's order; each flush is logged with what was written before it began and must have put that into the file; each look at the disk must be a prefix of the final content. " +
			"A case is one file; non-trivial with two writers; distinct by its drawn parameters.",
		c25}
}

func c25(r *vk.Run) {
	var mu sync.Mutex
	levels := r.Rng("levels")
	var done int64
	dir := r.Scratch()
	defer c25Volume(r)()
	cases(r, 8, r.N(8000, 300000), func(k int, w *note) {
		if atomic.AddInt64(&done, 1)%30 == 0 {
			mu.Lock()
			perturb(levels)
			mu.Unlock()
		}
		c25Case(r, r.Rng("case", k), w, filepath.Join(dir, fmt.Sprintf("f%d", k)))
	})
}

// A record is <writer.seq.length> and a body, or a single byte 0x80+writer written by WriteByte.
func fileRecord(writer, seq, size int) []byte {
	b := []byte(fmt.Sprintf("<%d.%d.%d>", writer, seq, size))
	for i := 0; i < size; i++ {
		b = append(b, byte('a'+(writer*5+seq*3+i)%26))
	}
	return b
}

func recordSize(g *rand.Rand) int {
	switch g.Intn(6) {
	case 0:
		return 4096 - g.Intn(40)
	case 1:
		return 4000 + g.Intn(9000)
	case 2:
		return g.Intn(1500)
	default:
		return g.Intn(60)
	}
}

type flushRec struct {
	began   []int64 // records completed by each writer before it began
	size    int64   // of the file after it returned
	claimed int64   // what FlushedSize reported
}

type lookRec struct {
	size int
	hash uint64
}

func c25Case(r *vk.Run, rng *rand.Rand, w *note, path string) {
	writers, flushers, lookers := 1+rng.Intn(5), rng.Intn(3), rng.Intn(2)
	records := 1 + rng.Intn(60)
	pre := rng.Intn(3) * rng.Intn(3000)
	what := fmt.Sprintf("%d writers of %d records, %d flushers, %d readers, %d bytes there before", writers, records, flushers, lookers, pre)
	fail := caseFail(r, w, what)
	before := bytes.Repeat([]byte{'#'}, pre)
	if err := os.WriteFile(path, before, 0644); err != nil {
		r.Infra("%v", err)
	}
	defer os.Remove(path)
	f, err := os.OpenFile(path, os.O_RDWR|os.O_APPEND, 0644)
	if err != nil {
		r.Infra("%v", err)
	}
	defer f.Close()
	p := log.NewPersistentFile(f)
	completed := make([]int64, writers)
	var wg, helpers sync.WaitGroup
	var stop atomic.Bool
	for i := 0; i < writers; i++ {
		g := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < records; k++ {
				var err error
				switch x := g.Intn(8); {
				case x == 0:
					err = p.WriteByte(byte(0x80 + i))
				case x < 5:
					b := fileRecord(i, k, recordSize(g))
					var n int
					n, err = p.Write(b)
					if err == nil && n != len(b) {
						err = fmt.Errorf("%d of %d bytes", n, len(b))
					}
					for j := range b { // the caller's slice is its own again
						b[j] = '!'
					}
				default:
					b := fileRecord(i, k, recordSize(g))
					var n int
					n, err = p.WriteString(string(b))
					if err == nil && n != len(b) {
						err = fmt.Errorf("%d of %d bytes", n, len(b))
					}
				}
				if err != nil {
					fail("write %d of writer %d fails: %v", k, i, err)
				}
				if !raceBuild {
					atomic.StoreInt64(&completed[i], int64(k+1))
				}
				if g.Intn(10) == 0 {
					time.Sleep(time.Duration(g.Intn(200)) * time.Microsecond)
				}
				if g.Intn(20) == 0 {
					_, _, _ = p.Available(), p.Buffered(), p.Size()
				}
			}
		}(i)
	}
	flushes := make([][]flushRec, flushers)
	for i := 0; i < flushers; i++ {
		g := rand.New(rand.NewSource(rng.Int63()))
		helpers.Add(1)
		go func(i int) {
			defer helpers.Done()
			for !stop.Load() {
				rec := flushRec{claimed: -1}
				for j := range completed {
					rec.began = append(rec.began, atomic.LoadInt64(&completed[j]))
				}
				var err error
				if g.Intn(2) == 0 {
					err = p.Flush()
				} else {
					rec.claimed, err = p.FlushedSize()
				}
				if err != nil {
					fail("a flush fails: %v", err)
				}
				st, err := os.Stat(path)
				if err != nil {
					r.Infra("%v", err)
				}
				rec.size = st.Size()
				flushes[i] = append(flushes[i], rec)
				time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
			}
		}(i)
	}
	looks := make([][]lookRec, lookers)
	for i := 0; i < lookers; i++ {
		g := rand.New(rand.NewSource(rng.Int63()))
		helpers.Add(1)
		go func(i int) {
			defer helpers.Done()
			for !stop.Load() {
				b, err := os.ReadFile(path)
				if err != nil {
					r.Infra("%v", err)
				}
				h := fnv.New64a()
				h.Write(b)
				looks[i] = append(looks[i], lookRec{len(b), h.Sum64()})
				time.Sleep(time.Duration(g.Intn(500)) * time.Microsecond)
			}
		}(i)
	}
	if !vk.Within(hangLimit, wg.Wait) {
		fail("a write has not returned for %s", hangLimit)
	}
	if rng.Intn(2) == 0 {
		if err := p.Flush(); err != nil {
			fail("the last flush fails: %v", err)
		}
	} else if n, err := p.FlushedSize(); err != nil {
		fail("the last flush fails: %v", err)
	} else if st, _ := os.Stat(path); st != nil && st.Size() != n {
		fail("the flushed size is %d, but the file has %d bytes", n, st.Size())
	}
	content, err := os.ReadFile(path) // before the flushers, which could repair an incomplete flush, are done
	if err != nil {
		r.Infra("%v", err)
	}
	stop.Store(true)
	if !vk.Within(hangLimit, helpers.Wait) {
		fail("a flush has not returned for %s", hangLimit)
	}
	if n := p.Buffered(); n != 0 {
		fail("%d bytes are buffered after the last flush", n)
	}
	end, _ := os.ReadFile(path)
	if !bytes.Equal(end, content) {
		fail("the file changes after the last flush, from %d to %d bytes", len(content), len(end))
	}

	// the offline part
	if !bytes.HasPrefix(content, before) {
		fail("what was in the file before is damaged")
	}
	at := pre
	next := make([]int, writers)
	ends := make([][]int64, writers)
	for at < len(content) {
		rest := content[at:]
		if rest[0] >= 0x80 {
			i := int(rest[0] - 0x80)
			if i >= writers {
				fail("byte %#x at %d was never written", rest[0], at)
			}
			next[i]++
			at++
			ends[i] = append(ends[i], int64(at))
			continue
		}
		var i, k, n int
		if c, err := fmt.Sscanf(string(rest[:min(len(rest), 40)]), "<%d.%d.%d>", &i, &k, &n); c != 3 || err != nil || i < 0 || i >= writers || n < 0 {
			fail("no record begins at byte %d: %s", at, vk.Q(string(rest[:min(len(rest), 60)])))
		}
		rec := fileRecord(i, k, n)
		if !bytes.HasPrefix(rest, rec) {
			fail("record %d of writer %d at byte %d is torn or altered", k, i, at)
		}
		if k != next[i] {
			fail("record %d of writer %d is in the file where %d is due", k, i, next[i])
		}
		next[i]++
		at += len(rec)
		ends[i] = append(ends[i], int64(at))
	}
	for i, n := range next {
		if n != records {
			fail("the file holds %d of %d records of writer %d", n, records, i)
		}
	}
	for _, list := range flushes {
		for _, fl := range list {
			for i, n := range fl.began {
				if n > 0 && fl.size < ends[i][n-1] {
					fail("a flush that began after record %d of writer %d was written, which ends at byte %d, left a file of %d bytes", n-1, i, ends[i][n-1], fl.size)
				}
				if n > 0 && fl.claimed >= 0 && fl.claimed < ends[i][n-1] {
					fail("a flushed size of %d was reported after record %d of writer %d, which ends at byte %d", fl.claimed, n-1, i, ends[i][n-1])
				}
			}
			if fl.claimed > fl.size {
				fail("a flushed size of %d was reported for a file of %d bytes", fl.claimed, fl.size)
			}
			r.Count("flushes_judged", 1)
		}
	}
	for _, list := range looks {
		for _, l := range list {
			if l.size > len(content) {
				fail("the file had %d bytes, more than at the end", l.size)
			}
			h := fnv.New64a()
			h.Write(content[:l.size])
			if h.Sum64() != l.hash {
				fail("the %d bytes that were in the file at some moment are no prefix of the final content", l.size)
			}
			r.Count("looks_judged", 1)
		}
	}
	r.Count("records", int64(writers*records))
	sig := ""
	if writers > 1 {
		sig = what + fmt.Sprint(len(content))
	}
	if r.WantSample() {
		r.Sample(what)
	}
	r.Case(sig)
}
