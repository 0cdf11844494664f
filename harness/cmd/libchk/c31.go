package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"syscall"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/network"
	"github.com/lxdlam/vertex/pkg/protocol"
	"github.com/lxdlam/vertex/pkg/util"

	"verif/vk"
)

func init() {
	checks["C31"] = check{"exploration",
		"identifiers are drawn by many goroutines at once and by processes started together, directly and through new events, log entries and connections, with the schedule perturbed; each must have the form of a UUID, stay the same, and differ from every other " +
			"of the whole run. A case is one identifier; all are non-trivial; distinct by the identifier itself.",
		c31}
	modes["ids"] = c31Child
}

var uuidForm = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-[1-8][0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`)

// c31Draw makes n identifiers; kind says how.
func c31Draw(n, kind int, emit func(kind, id, again string)) {
	objects := []protocol.RedisObject{protocol.NewBulkRedisString("set"), protocol.NewBulkRedisString("k"), protocol.NewBulkRedisString("v")}
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			id := util.GenNewUUID()
			emit("identifier", id, id)
		case 1:
			e := concurrency.NewEvent("topic", i, nil)
			id := e.ID()
			emit("event", id, e.ID())
		case 2:
			vl := log.NewLog("set", 1, objects)
			id := vl.Id
			emit("log entry", id, vl.GetId())
		default:
			a, b := net.Pipe()
			c := network.NewConn(a)
			id := c.ID()
			emit("connection", id, c.ID())
			_ = b.Close() // first, so that closing does not wait for a reader
			_ = c.Close()
		}
	}
}

func c31Child() {
	w := bufio.NewWriter(os.Stdout)
	var mu sync.Mutex
	_, _ = io.ReadFull(os.Stdin, make([]byte, 1)) // so that all start together
	vk.Parallel(4, func(g int) {
		c31Draw(300, g, func(kind, id, again string) {
			mu.Lock()
			defer mu.Unlock()
			if id != again {
				id += " and " + again
			}
			fmt.Fprintf(w, "%s\t%s\n", kind, id)
		})
	})
	_ = w.Flush()
	os.Exit(0)
}

func c31(r *vk.Run) {
	seen := map[string]string{}
	var mu sync.Mutex
	note := func(where, kind, id string) {
		if !uuidForm.MatchString(id) {
			r.Violate(map[string]any{"id": id, "kind": kind, "where": where}, "the identifier of %s is %q, which is no UUID", kind, id)
		}
		if old, ok := seen[id]; ok {
			r.Violate(map[string]any{"id": id, "first": old, "second": where + ", " + kind}, "the identifier %s was given to %s and to %s", id, old, where+", "+kind)
		}
		seen[id] = where + ", " + kind
		r.Count("identifiers_of_"+strings.ReplaceAll(kind, " ", "_"), 1)
	}
	rounds := r.N(40, 300)
	for round := 0; round < rounds; round++ {
		rng := r.Rng("round", round)
		level := perturb(rng)
		if round%3 == 0 {
			level = 0
		}
		workers := 2 + rng.Intn(30)
		share := 120000 / workers
		if level > 0 {
			share /= 4 * level // most of the time would be spent sleeping
		}
		var batches [][][2]string
		if !vk.Within(2*hangLimit, func() {
			var start sync.WaitGroup
			start.Add(1)
			var done sync.WaitGroup
			for g := 0; g < workers; g++ {
				done.Add(1)
				kind := 0
				n := share
				if g%3 == 1 {
					kind = 1 + rng.Intn(3)
					n = share / 20
				}
				go func() {
					defer done.Done()
					var batch [][2]string
					start.Wait()
					c31Draw(n, kind, func(kind, id, again string) {
						if id != again {
							r.Violate(map[string]any{"first": id, "then": again}, "the identifier of %s changes from %s to %s", kind, id, again)
						}
						batch = append(batch, [2]string{kind, id})
					})
					mu.Lock()
					batches = append(batches, batch)
					mu.Unlock()
				}()
			}
			start.Done()
			done.Wait()
		}) {
			r.Violate(map[string]any{"stacks": vk.Stacks()}, "drawing identifiers does not return")
		}
		n := 0
		for g, b := range batches {
			for _, x := range b {
				note(fmt.Sprintf("round %d goroutine %d", round, g), x[0], x[1])
				n++
			}
		}
		r.Bulk(int64(n), int64(n))
		if r.WantSample() && len(batches[0]) > 0 {
			r.Sample(map[string]any{"goroutines": workers, "perturbation": level, "first": batches[0][0]})
		}
		if len(seen) > 12000000 { // bounded memory
			seen = map[string]string{}
		}
	}
	// processes that start at the same time share whatever is derived from the clock
	for group := 0; group < r.N(2, 20); group++ {
		const procs = 12
		var cmds []*exec.Cmd
		var ins []io.WriteCloser
		outs := make([]strings.Builder, procs)
		runtime.LockOSThread()
		for i := 0; i < procs; i++ {
			cmd := exec.Command("/proc/self/exe", "C31")
			cmd.Env = append(os.Environ(), "VERIF_MODE=ids")
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			cmd.Stdout = &outs[i]
			cmd.Stderr = os.Stderr
			in, err := cmd.StdinPipe()
			if err != nil {
				r.Infra("pipe: %v", err)
			}
			if err := cmd.Start(); err != nil {
				r.Infra("process: %v", err)
			}
			cmds, ins = append(cmds, cmd), append(ins, in)
		}
		for _, in := range ins {
			_, _ = in.Write([]byte("x"))
		}
		for i, cmd := range cmds {
			if err := cmd.Wait(); err != nil {
				r.Infra("process that draws identifiers: %v", err)
			}
			n := 0
			for _, l := range strings.Split(strings.TrimSpace(outs[i].String()), "\n") {
				x := strings.SplitN(l, "\t", 2)
				if len(x) == 2 {
					note(fmt.Sprintf("group %d process %d", group, i), x[0], x[1])
					n++
				}
			}
			if n != 1200 {
				r.Infra("a process drew %d identifiers", n)
			}
			r.Bulk(int64(n), int64(n))
			r.Count("processes", 1)
		}
		runtime.UnlockOSThread()
	}
	// generators made one after the other are independent; their seeds have 31 bits, so that a pair of so many may agree by chance
	streams := map[[2]int64]int{}
	chance := 0
	for i := 0; i < r.N(6000, 20000); i++ {
		g := util.GetNewRandom()
		k := [2]int64{g.Int63(), g.Int63()}
		if j, ok := streams[k]; ok {
			if chance++; chance <= 4 {
				continue
			}
			r.Violate(map[string]any{"generators": []int{j, i}}, "the random generators number %d and %d produce the same numbers", j, i)
		}
		streams[k] = i
		r.Count("random_generators", 1)
	}
	if util.GetGlobalRandom() != util.GetGlobalRandom() {
		r.Violate(nil, "the global random generator is not one")
	}
}
