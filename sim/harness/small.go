//go:build go1.21

package main

// Workloads that drive one part of pgutil directly: the scheduler, the
// targets of task sets, and the logger.

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"context"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	rbtypes "github.com/sjansen/pgutil/internal/runbook/types"
	tsbase "github.com/sjansen/pgutil/internal/taskset/base"
	tsdemo "github.com/sjansen/pgutil/internal/taskset/demo"
	tspg "github.com/sjansen/pgutil/internal/taskset/pg"
	tssh "github.com/sjansen/pgutil/internal/taskset/sh"
	tstypes "github.com/sjansen/pgutil/internal/taskset/types"
)

// ---- the scheduler (C14) ----

// SchedScenario is a graph, the capacities of the targets and an order of completions.
type SchedScenario struct {
	Caps  []int       `json:"caps"`
	Tasks []SchedTask `json:"tasks"`
	Order []int       `json:"order,omitempty"` // which of the running tasks completes next
	Empty int         `json:"empty,omitempty"` // the task with the empty name, plus one
	Names int         `json:"names,omitempty"` // how tasks and targets are named
}

// SchedTask is a task: its target and the tasks it comes after (-1: one that does not exist).
type SchedTask struct {
	Target int   `json:"target"`
	After  []int `json:"after,omitempty"`
}

type schedTarget struct{ cap int }

func (t *schedTarget) Analyze() error                                               { return nil }
func (t *schedTarget) ConcurrencyLimit() int                                        { return t.cap }
func (t *schedTarget) Handle(ctx context.Context, task rbtypes.TaskConfig) error    { return nil }
func (t *schedTarget) NewTaskConfig(class string) (c rbtypes.TaskConfig, err error) { return }
func (t *schedTarget) Start() error                                                 { return nil }
func (t *schedTarget) Stop() error                                                  { return nil }

func genSched(r *Rand, prop string) any {
	sc := &SchedScenario{}
	nt := 1 + r.Intn(4)
	for i := 0; i < nt; i++ {
		sc.Caps = append(sc.Caps, pick(r, 1, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 7, 10, 17, 100, 1<<31, math.MaxInt))
	}
	n := r.Intn(pick(r, 5, 5, 5, 12, 12, 12, 31, 31, 150))
	sc.Names = pick(r, 0, 0, 1, 2, 3)
	fan := pick(r, 6, 6, 6, 30)
	dens := pick(r, 0, 10, 25, 50, 80)
	span := pick(r, 3, 8, 30)
	if r.P(1, 60) { // a great many tasks that can all run at once
		n = pick(r, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300) + r.Intn(3)
		sc.Caps = []int{pick(r, 126, 127, 128, 255, 256, n-1, n-2, n, 1<<31), 1 + r.Intn(4)}
		nt, dens, span = 1+r.Intn(2), pick(r, 0, 0, 1), 3
	}
	perm := make([]int, n) // a random topological order, independent of the names' order
	for i := range perm {
		perm[i] = i
	}
	shuffle(r, perm)
	sc.Tasks = make([]SchedTask, n)
	for p, i := range perm {
		t := SchedTask{Target: r.Intn(nt)}
		for q := 0; q < p; q++ {
			if p-q <= span && r.P(dens, 100) && len(t.After) < fan {
				t.After = append(t.After, perm[q])
				if r.P(1, 12) {
					t.After = append(t.After, perm[q]) // named twice
				}
			}
		}
		shuffle(r, t.After)
		sc.Tasks[i] = t
	}
	if n > 0 && r.P(1, 12) { // invalid: cycle, self-dependency or missing prerequisite
		i := r.Intn(n)
		sc.Tasks[i].After = append(sc.Tasks[i].After, pick(r, -1, i, r.Intn(n)))
	}
	if n > 0 && r.P(1, 6) {
		sc.Empty = 1 + r.Intn(n)
	}
	mode := r.Intn(4)
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			sc.Order = append(sc.Order, 0) // oldest first
		case 1:
			sc.Order = append(sc.Order, 1<<20-1) // any large number
		default:
			sc.Order = append(sc.Order, r.Intn(1<<20))
		}
	}
	return sc
}

func (sc *SchedScenario) valid() bool {
	for _, c := range sc.Caps {
		if c < 1 {
			return false
		}
	}
	for _, t := range sc.Tasks {
		if t.Target < 0 || t.Target >= len(sc.Caps) {
			return false
		}
		for _, a := range t.After {
			if a < -1 || a >= len(sc.Tasks) {
				return false
			}
		}
	}
	for _, o := range sc.Order {
		if o < 0 {
			return false
		}
	}
	return len(sc.Tasks) < 400 && sc.Names >= 0 && sc.Names < 4
}

// badGraph tells whether a graph has a cycle or a missing prerequisite.
func (sc *SchedScenario) badGraph() bool {
	state := make([]int, len(sc.Tasks))
	var visit func(i int) bool
	visit = func(i int) bool {
		if state[i] != 0 {
			return state[i] == 1
		}
		state[i] = 1
		for _, a := range sc.Tasks[i].After {
			if a < 0 || visit(a) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	for i := range sc.Tasks {
		if visit(i) {
			return true
		}
	}
	return false
}

func (sc *SchedScenario) id(i int) string {
	if i == sc.Empty-1 && i >= 0 {
		return ""
	}
	if i < 0 {
		return "missing"
	}
	switch sc.Names {
	case 1: // that of one is the beginning of another's, or differs in case or space
		return pickAt(i, "t", "T", "t ", " t", "ŧ", "t\n", "t/", "t.") + strings.Repeat("t", i/8)
	case 2: // numbers, as targets are named too
		return fmt.Sprint(i)
	case 3:
		return strings.Repeat("é", i%5) + fmt.Sprintf("%x\x00", i*2654435761)
	}
	return fmt.Sprintf("t%02d", i)
}

func (sc *SchedScenario) target(i int) string {
	switch sc.Names {
	case 1:
		return strings.Repeat("t", i)
	case 2:
		return fmt.Sprint(i)
	}
	return fmt.Sprintf("q%d", i)
}

func runSched(s *Sim, scAny any) {
	sc := scAny.(*SchedScenario)
	n := len(sc.Tasks)
	targets := rbtypes.Targets{}
	for i, c := range sc.Caps {
		targets[sc.target(i)] = &schedTarget{c}
	}
	tasks := rbtypes.Tasks{}
	index := map[string]int{}
	for i, t := range sc.Tasks {
		var after []string
		for _, a := range t.After {
			after = append(after, sc.id(a))
		}
		tasks[sc.id(i)] = &rbtypes.Task{Target: sc.target(t.Target), After: after}
		index[sc.id(i)] = i
	}
	released := make([]bool, n)
	done := make([]bool, n)
	var running []int
	out := make([]int, len(sc.Caps))
	nrel := 0
	bad := func(sig, f string, a ...any) { s.violate("C14", sig, f, a...) }
	take := func(when string, ready map[string][]string) {
		var qs []string
		for q := range ready {
			qs = append(qs, q)
		}
		sort.Strings(qs)
		for _, q := range qs {
			for _, id := range ready[q] {
				i, ok := index[id]
				if !ok {
					bad("unknown task", "%s released %q, which is no task", when, id)
					continue
				}
				s.ev("released", id, "%s", when)
				if want := sc.target(sc.Tasks[i].Target); q != want {
					bad("wrong target", "%s released %s for target %s instead of %s", when, id, q, want)
				}
				if released[i] {
					bad("released twice", "%s released %s, which had been released before", when, id)
					continue
				}
				released[i] = true
				nrel++
				for _, a := range sc.Tasks[i].After {
					if a >= 0 && !done[a] {
						bad("released too early", "%s released %s before its prerequisite %s had completed", when, id, sc.id(a))
					}
				}
				t := sc.Tasks[i].Target
				out[t]++
				running = append(running, i)
				if out[t] > sc.Caps[t] {
					bad("capacity exceeded", "%s released %s although target q%d was already executing %d of at most %d", when, id, t, out[t]-1, sc.Caps[t])
				}
				if out[t] > 1 {
					s.probe("shared target")
				}
			}
		}
		for i := range sc.Tasks {
			t := sc.Tasks[i].Target
			if released[i] || out[t] >= sc.Caps[t] {
				continue
			}
			free := true
			for _, a := range sc.Tasks[i].After {
				if a < 0 || !done[a] {
					free = false
				}
			}
			if free {
				bad("withheld", "%s did not release %s although its prerequisites were complete and its target was executing %d of at most %d", when, sc.id(i), out[t], sc.Caps[t])
			}
		}
		var st []string
		for i := range sc.Tasks {
			switch {
			case done[i]:
				st = append(st, "d")
			case released[i]:
				st = append(st, "r")
			default:
				st = append(st, ".")
			}
		}
		s.state("sched", jsonOf(sc.Tasks), strings.Join(st, ""))
	}
	returned := s.runSUT(func() {
		sch, ready, err := scheduler.New(targets, tasks)
		if sc.badGraph() {
			s.probe("invalid graph")
			if err == nil {
				bad("invalid graph accepted", "an invalid graph was accepted")
			}
			return
		}
		if err != nil {
			bad("valid graph rejected", "a valid graph was rejected: %v", err)
			return
		}
		take("starting", ready)
		for step := 0; len(running) > 0; step++ {
			p := 0
			if step < len(sc.Order) {
				p = sc.Order[step] % len(running)
			}
			c := running[p]
			running = append(running[:p:p], running[p+1:]...)
			done[c] = true
			out[sc.Tasks[c].Target]--
			s.ev("completed", sc.id(c), "")
			all := nrel == n
			ready, err := sch.Next(sc.id(c))
			when := "completing " + sc.id(c)
			switch {
			case err != nil && !all:
				bad("ended early", "%s reported %q although %d of %d tasks had been released", when, err, nrel, n)
			case err == nil && all:
				bad("end not reported", "%s did not report that every task had been released", when)
			case err != nil && !errors.Is(err, scheduler.ErrNoPendingTasks):
				bad("other error", "%s reported %q", when, err)
			}
			if err != nil && len(ready) > 0 {
				bad("released with error", "%s released tasks along with an error", when)
			}
			if err == nil || !all {
				take(when, ready)
			}
			if len(sc.Tasks) > 2 {
				s.probe("completions")
			}
		}
		if nrel < n {
			bad("not released", "%d of %d tasks were never released", n-nrel, n)
		}
	})
	if !returned {
		bad("crash or hang", "%s%s", s.Fatal, s.Hang)
	}
}

// ---- task set targets (C26, C27, C28) ----

// TSScenario drives one task set target.
type TSScenario struct {
	Class   string    `json:"class"`
	Max     int       `json:"max,omitempty"`
	Text    string    `json:"text,omitempty"`
	Batches []TSBatch `json:"batches,omitempty"`
	CloseNS int64     `json:"closeNS,omitempty"` // pause before the queue is closed
	ReadNS  int64     `json:"readNS,omitempty"`  // pause before each result is read
	FirstNS int64     `json:"firstNS,omitempty"` // pause before the first
	Slow    int64     `json:"slow,omitempty"`
	Split   bool      `json:"split,omitempty"` // the writer takes a line in pieces
	Fail    int64     `json:"fail,omitempty"`  // >0: the writer fails after this many bytes -1
	Stalls  bool      `json:"stalls,omitempty"`
	Names   int       `json:"names,omitempty"` // how tasks are named
}

// TSBatch is a batch of tasks submitted together.
type TSBatch struct {
	WaitNS int64    `json:"waitNS,omitempty"`
	Tasks  []TSTask `json:"tasks,omitempty"`
	After  int      `json:"after,omitempty"` // wait until this many results have been read
}

// TSTask is a task.
type TSTask struct {
	Kind string `json:"kind"`
	Secs int    `json:"secs,omitempty"`
	// what the caller says about order: it is the caller who keeps to it
	After   []string `json:"after,omitempty"`
	Provide []string `json:"provide,omitempty"`
	Require []string `json:"require,omitempty"`
}

type bogusTask struct{}

func (*bogusTask) Dependencies() []string { return nil }
func (*bogusTask) Provides() []string     { return nil }
func (*bogusTask) Ready() error           { return nil }

func genTS(r *Rand, prop string) any {
	sc := &TSScenario{Class: "demo", Max: pick(r, 1, 1, 2, 2, 3, 4, pick(r, 7, 32, 200)), Text: pick(r, "abcNOP", "q w", "Xz!Mm", "ab", "été n", " ab ", "a\t", "%d a", "日本a")}
	if prop == "C26" && r.P(1, 3) {
		sc.Class = pick(r, "sh", "pg")
	}
	sc.Stalls = r.P(1, 3)
	n := r.Intn(pick(r, 2, 5, 9))
	kinds := []string{"echo", "rev", "rot13", "sleep", "fail", "bogus"}
	switch prop {
	case "C27":
		kinds = []string{"sleep", "sleep", "sleep", "echo"}
		n = 1 + r.Intn(6)
	case "C28":
		kinds = []string{"echo", "rev", "rot13", "echo", "rev", "rot13", "sleep"}
		sc.Max = pick(r, 1, 2, 3, 4, 8)
		n = 1 + r.Intn(5)
	}
	pause := func() int64 {
		if r.P(1, 20) {
			return int64(1+r.Intn(600)) * 60e9
		}
		return pick(r, 0, 0, 0, int64(1e6), int64(1e9), int64(2500e6), int64(r.Intn(5000))*1e6)
	}
	if prop != "C28" && r.P(1, 30) {
		n = 10 + r.Intn(40)
	}
	total := 0
	for i := 0; i < n; i++ {
		b := TSBatch{WaitNS: pause()}
		m := r.Intn(4)
		if r.P(1, 6) {
			m += r.Intn(8)
		}
		if prop != "C28" && r.P(1, 40) {
			m += r.Intn(60)
		}
		if prop == "C28" && total+m > 11 {
			m = 0
		}
		for j := 0; j < m; j++ {
			t := TSTask{Kind: pick(r, kinds...)}
			if t.Kind == "sleep" {
				t.Secs = pick(r, 1, 1, 2, 3, 5, pick(r, 1, 3600))
			}
			for q := 0; r.P(1, 4) && q < 3; q++ {
				what := pick(r, "a", "b", "task:b0.0", "", "a b")
				switch r.Intn(3) {
				case 0:
					t.After = append(t.After, pick(r, "b0.0", "b0.1", "none", ""))
				case 1:
					t.Provide = append(t.Provide, what)
				default:
					t.Require = append(t.Require, what)
				}
			}
			b.Tasks = append(b.Tasks, t)
		}
		if r.P(1, 4) && total > 0 {
			b.After = 1 + r.Intn(total)
		}
		total += m
		sc.Batches = append(sc.Batches, b)
	}
	sc.CloseNS = pause()
	sc.Names = pick(r, 0, 0, 1, 2, 3)
	if r.P(1, 3) {
		sc.ReadNS = pause()
	}
	if r.P(1, 4) {
		sc.FirstNS = pause()
	}
	if sc.Class == "demo" {
		sc.Slow = pick(r, 0, 0, 0, int64(1e6), int64(700e6))
		sc.Split = r.P(1, 2)
		if prop == "C26" && r.P(1, 5) {
			sc.Fail = 1 + int64(r.Intn(20))
		}
	}
	return sc
}

func (sc *TSScenario) id(batch, i int) string {
	switch sc.Names {
	case 1:
		if batch == 0 && i == 0 {
			return ""
		}
		return strings.Repeat("t", batch) + strings.Repeat(" ", i)
	case 2:
		return fmt.Sprintf("%d/%d\n", i, batch)
	case 3:
		return fmt.Sprintf("é%d:%d %%s", batch, i)
	}
	return fmt.Sprintf("b%d.%d", batch, i)
}

func (sc *TSScenario) valid() bool {
	switch sc.Class {
	case "demo":
		if sc.Max < 1 {
			return false
		}
	case "sh", "pg":
	default:
		return false
	}
	total := 0
	for _, b := range sc.Batches {
		if b.WaitNS < 0 || b.After > total || b.After < 0 {
			return false
		}
		for _, t := range b.Tasks {
			switch t.Kind {
			case "echo", "rev", "rot13", "fail", "bogus":
			case "sleep":
				if t.Secs < 0 || t.Secs > 100000 {
					return false
				}
			default:
				return false
			}
		}
		total += len(b.Tasks)
	}
	return sc.CloseNS >= 0 && sc.ReadNS >= 0 && sc.FirstNS >= 0 && sc.Slow >= 0 && sc.Fail >= 0 && total < 600 && strings.IndexByte(sc.Text, '\n') < 0
}

// splitWriter is the destination of demo output: not safe for concurrent use, perhaps slow,
// and it may take a line in pieces.
type splitWriter struct {
	s      *Sim
	slow   int64
	split  bool
	left   int64
	failed int
	data   []byte
}

func (w *splitWriter) Write(p []byte) (int, error) {
	if w.slow > 0 {
		time.Sleep(time.Duration(w.slow))
	}
	n := len(p)
	if w.left >= 0 && int64(n) > w.left {
		n = int(w.left)
	}
	if w.split && n > 1 {
		h := n / 2
		w.data = append(w.data, p[:h]...)
		w.s.fault("split write")
		runtime.Gosched()
		if w.slow > 0 {
			time.Sleep(time.Duration(w.slow))
		}
		w.data = append(w.data, p[h:n]...)
	} else {
		w.data = append(w.data, p[:n]...)
	}
	w.s.ev("write", "w:demo", "%q", clip(p[:n]))
	if w.left >= 0 {
		w.left -= int64(n)
		if n < len(p) {
			w.failed++
			w.s.fault("writer error")
			return n, errWriters[w.failed%len(errWriters)]
		}
	}
	return n, nil
}

type tsOp struct {
	id        string
	t         TSTask
	sub, sent int // event numbers: submission begins, ends
	subT      int64
	res       int
	resT      int64
	err       error
	n         int
}

func runTS(s *Sim, scAny any) {
	sc := scAny.(*TSScenario)
	s.K.exempt = false
	w := &splitWriter{s: s, slow: sc.Slow, split: sc.Split, left: -1}
	if sc.Fail > 0 {
		w.left = sc.Fail - 1
	}
	var ops []*tsOp
	byID := map[string]*tsOp{}
	var batches []tstypes.TaskBatch
	var target tstypes.Target
	var demo *tsdemo.Target
	log := logger.New(0, io.Discard, nil)
	switch sc.Class {
	case "demo":
		target = (&tsdemo.TargetFactory{Log: log, Stdout: w}).NewTarget()
		demo = target.(*tsdemo.Target)
		demo.String = sc.Text
		demo.MaxConcurrency = sc.Max
	case "sh":
		target = (&tssh.TargetFactory{Log: log}).NewTarget()
	case "pg":
		target = (&tspg.TargetFactory{Log: log}).NewTarget()
	}
	if err := target.Ready(); err != nil {
		s.Broken = "target not ready: " + err.Error()
		return
	}
	for bi, b := range sc.Batches {
		batch := tstypes.TaskBatch{}
		for ti, t := range b.Tasks {
			op := &tsOp{id: sc.id(bi, ti), t: t}
			about := tsbase.Task{Target: "q", After: t.After, Provide: t.Provide, Require: t.Require}
			var task tstypes.Task
			switch {
			case t.Kind == "bogus":
				task = &bogusTask{}
			case sc.Class == "sh":
				task = &tssh.Task{Task: about, Args: []string{t.Kind}}
			case sc.Class == "pg":
				task = &tspg.Task{Task: about, SQL: t.Kind}
			case t.Kind == "echo":
				task = &tsdemo.Echo{Task: about}
			case t.Kind == "rev":
				task = &tsdemo.Rev{Task: about}
			case t.Kind == "rot13":
				task = &tsdemo.Rot13{Task: about}
			case t.Kind == "fail":
				task = &tsdemo.Fail{Task: about}
			case t.Kind == "sleep":
				task = &tsdemo.Sleep{Task: about, Seconds: t.Secs}
			}
			if t.Kind == "sleep" && t.Secs < 1 {
				op.t.Secs = 1 // Ready corrects it
			}
			if err := task.Ready(); err != nil {
				s.Broken = "task not ready: " + err.Error()
				return
			}
			batch[tstypes.TaskID(op.id)] = task
			ops = append(ops, op)
			byID[op.id] = op
		}
		batches = append(batches, batch)
	}
	read := 0
	closedSeq, lastSent := 0, -1
	var rq waitq
	outstanding := 0
	returned := s.runSUT(func() {
		queue, results := target.Start()
		ended := make(chan struct{})
		// the caller's reader
		go func() {
			defer close(ended)
			if sc.FirstNS > 0 {
				time.Sleep(time.Duration(sc.FirstNS))
			}
			for res := range results {
				var ids []string
				for id := range res {
					ids = append(ids, string(id))
				}
				sort.Strings(ids)
				if len(ids) != 1 {
					s.violate("C26", "several outcomes in one result", "one result carried the outcomes of %d tasks: %v", len(ids), ids)
				}
				for _, id := range ids {
					err := res[tstypes.TaskID(id)]
					s.ev("result", id, "%v", err)
					seq := len(s.Events)
					op := byID[id]
					if op == nil {
						s.violate("C26", "foreign result", "a result was delivered for %q, which is no task", id)
						continue
					}
					op.n++
					if op.n > 1 {
						s.violate("C26", "result repeated", "%d results were delivered for task %s", op.n, id)
						continue
					}
					if op.sub == 0 {
						s.violate("C26", "result before submission", "a result was delivered for %s before it was submitted", id)
					}
					op.res, op.resT, op.err = seq, s.now(), err
					read++
					outstanding--
				}
				rq.wake()
				if sc.ReadNS > 0 {
					time.Sleep(time.Duration(sc.ReadNS))
				}
			}
			s.ev("results.closed", "", "")
			closedSeq = len(s.Events)
			rq.wake()
		}()
		for bi, b := range batches {
			cfg := sc.Batches[bi]
			for read < cfg.After && closedSeq == 0 {
				rq.wait()
			}
			if cfg.WaitNS > 0 {
				time.Sleep(time.Duration(cfg.WaitNS))
			}
			s.ev("submit", fmt.Sprintf("b%d", bi), "%d tasks", len(b))
			seq, t := len(s.Events), s.now()
			for ti := range cfg.Tasks {
				op := byID[sc.id(bi, ti)]
				op.sub, op.subT = seq, t
				outstanding++
			}
			queue <- b
			s.ev("submitted", fmt.Sprintf("b%d", bi), "")
			for ti := range cfg.Tasks {
				byID[sc.id(bi, ti)].sent = len(s.Events)
			}
			s.state("ts", sc.Class, sc.Max, outstanding, bi)
			if outstanding > 1 {
				s.probe("several outstanding")
			}
		}
		if sc.CloseNS > 0 {
			time.Sleep(time.Duration(sc.CloseNS))
		}
		lastSent = outstanding
		s.ev("queue.close", "", "%d outstanding", outstanding)
		close(queue)
		<-ended
	})
	if lastSent == 0 {
		s.probe("closed when idle")
	}
	if len(ops) > 0 {
		s.probe("tasks")
	} else {
		s.probe("nothing submitted")
	}
	if !returned {
		switch {
		case s.Fatal != "":
			s.violate("C26", "crash", "%s", s.Fatal)
		case lastSent >= 0 && read == len(ops):
			s.violate("C26", "results not closed", "the result channel was not closed after the queue was (%d outstanding then): %s", lastSent, s.Hang)
		case lastSent >= 0:
			s.violate("C26", "results not delivered", "%d results were not delivered after the queue was closed: %s", len(ops)-read, s.Hang)
		default:
			s.violate("C26", "results not delivered", "the target made no progress with %d results outstanding: %s", outstanding, s.Hang)
		}
	}
	echoErrs := 0
	for _, op := range ops {
		if op.n == 0 {
			if returned {
				s.violate("C26", "result missing", "no result was delivered for task %s before the result channel was closed", op.id)
			}
			continue
		}
		want := false
		switch {
		case op.t.Kind == "bogus":
			want = true
		case sc.Class == "demo" && op.t.Kind == "fail":
			want = true
		case sc.Class == "demo" && op.t.Kind == "echo":
			if op.err != nil {
				echoErrs++
				if !strings.Contains(op.err.Error(), errWriter.Error()) {
					s.violate("C26", "wrong outcome", "echo task %s reported %q", op.id, op.err)
				}
			}
			continue
		}
		if (op.err != nil) != want {
			s.violate("C26", "wrong outcome", "task %s (%s) reported %v", op.id, op.t.Kind, op.err)
		}
		if sc.Class == "demo" && op.t.Kind == "fail" && !strings.Contains(op.err.Error(), tsdemo.ErrFail.Error()) {
			s.violate("C26", "wrong outcome", "task %s (fail) reported %v", op.id, op.err)
		}
	}
	if returned && echoErrs != w.failed {
		s.violate("C26", "wrong outcome", "%d echo tasks reported an error, %d could not print their line", echoErrs, w.failed)
	}
	if s.Fatal == "" {
		if sc.Class == "demo" {
			tsConcurrency(s, sc, ops)
		}
		if sc.Class == "demo" && sc.Fail == 0 && returned && read == len(ops) {
			tsLinear(s, sc, ops, string(w.data), demo.String)
		}
	}
}

// tsConcurrency: between two instants, tasks submitted after the first and
// completed by the second cannot have slept longer than the concurrency allows.
func tsConcurrency(s *Sim, sc *TSScenario, ops []*tsOp) {
	var as, bs []int64
	for _, op := range ops {
		if op.t.Kind == "sleep" && op.n > 0 {
			as = append(as, op.subT)
			bs = append(bs, op.resT)
		}
	}
	if len(as) > sc.Max {
		s.probe("more sleeps than allowed at once")
	}
	for _, a := range as {
		for _, b := range bs {
			var sum int64
			k := 0
			for _, op := range ops {
				if op.t.Kind == "sleep" && op.n > 0 && op.subT >= a && op.resT <= b {
					sum += int64(op.t.Secs) * 1e9
					k++
				}
			}
			if k > sc.Max && sum > int64(sc.Max)*(b-a) {
				s.violate("C27", "too many at once", "%d sleep tasks of %.0f s together were submitted and completed within %.3f s, with a maximum concurrency of %d", k, float64(sum)/1e9, float64(b-a)/1e9, sc.Max)
				return
			}
		}
	}
}

// tsLinear looks for an order of the steps that explains the output.
func tsLinear(s *Sim, sc *TSScenario, ops []*tsOp, out, final string) {
	var steps []*tsOp
	for _, op := range ops {
		switch op.t.Kind {
		case "echo", "rev", "rot13":
			steps = append(steps, op)
		}
	}
	var lines []string
	if out != "" {
		if !strings.HasSuffix(out, "\n") {
			s.violate("C28", "torn line", "the output does not end in a whole line: %q", clip([]byte(out)))
			return
		}
		lines = strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	}
	echoes := 0
	for _, op := range steps {
		if op.t.Kind == "echo" {
			echoes++
		}
	}
	if echoes != len(lines) {
		s.violate("C28", "lines", "%d echo steps printed %d lines: %q", echoes, len(lines), lines)
		return
	}
	if len(steps) > 1 {
		s.probe("several steps")
	}
	if len(steps) > 20 {
		return
	}
	type key struct {
		set  uint32
		text string
	}
	seen := map[key]bool{}
	var dfs func(set uint32, text string, printed int) bool
	dfs = func(set uint32, text string, printed int) bool {
		if set == 1<<len(steps)-1 {
			return text == final
		}
		k := key{set, text}
		if seen[k] {
			return false
		}
		seen[k] = true
	next:
		for i, op := range steps {
			if set>>i&1 != 0 {
				continue
			}
			for j, q := range steps {
				if set>>j&1 == 0 && q.res < op.sub && j != i {
					continue next // q was complete before op was submitted
				}
			}
			t, p := text, printed
			switch op.t.Kind {
			case "echo":
				if lines[p] != t {
					continue next
				}
				p++
			case "rev":
				t = rev(t)
			case "rot13":
				t = rot13(t)
			}
			if dfs(set|1<<i, t, p) {
				return true
			}
		}
		return false
	}
	if !dfs(0, sc.Text, 0) {
		s.violate("C28", "not serializable", "no order of the steps explains the lines %q and the final text %q", lines, final)
	}
}

// ---- the logger (C25) ----

// LogScenario has several goroutines log messages.
type LogScenario struct {
	Verb    int       `json:"verb"`
	Debug   bool      `json:"debug,omitempty"`
	Gs      [][]LogOp `json:"gs"`
	Faults  []*Fault  `json:"faults,omitempty"`
	Slow    int64     `json:"slow,omitempty"`
	Discard bool      `json:"discard,omitempty"` // the default log is no file
	Stalls  bool      `json:"stalls,omitempty"`
}

// LogOp is one call of the logger.
type LogOp struct {
	Level int   `json:"level"` // 0 error, 1 warning, 2 information, 3 debugging
	How   int   `json:"how"`   // 0 plain, 1 formatted, 2 with fields, 3 through a derived logger
	Pad   int   `json:"pad,omitempty"`
	Wait  int64 `json:"wait,omitempty"`
	Same  bool  `json:"same,omitempty"` // a message logged again and again, told apart by its fields
	Twin  bool  `json:"twin,omitempty"` // or not told apart at all
}

func genLog(r *Rand, prop string) any {
	sc := &LogScenario{Verb: r.Intn(6) - 1, Debug: r.P(5, 6), Stalls: r.P(1, 3)}
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		var g []LogOp
		m := r.Intn(8)
		for j := 0; j < m; j++ {
			o := LogOp{Level: r.Intn(4), How: r.Intn(4), Pad: pick(r, 0, 0, 10, 300, 5000), Wait: pick(r, 0, 0, 0, int64(1e6), int64(1e9))}
			o.Same = o.How >= 2 && r.P(1, 4)
			o.Twin = o.How < 2 && r.P(1, 4)
			g = append(g, o)
		}
		if r.P(1, 30) { // a burst
			lv, how, same, twin := r.Intn(4), r.Intn(4), r.P(2, 3), false
			if same {
				how = 2 + r.Intn(2)
				if r.P(1, 3) {
					how, same, twin = r.Intn(2), false, true
				}
			}
			for j := 0; j < 120+r.Intn(100); j++ {
				g = append(g, LogOp{Level: lv, How: how, Same: same, Twin: twin})
			}
		}
		sc.Gs = append(sc.Gs, g)
	}
	sc.Slow = pick(r, 0, 0, 0, int64(1e6), int64(1e9))
	if r.P(1, 3) {
		sc.Faults = append(sc.Faults, &Fault{Op: "write", Path: "/dev/stdout", At: int64(r.Intn(400)), Err: pick(r, "ENOSPC", "EIO", "EDQUOT")})
	} else if r.P(1, 6) {
		sc.Discard = true
	}
	for _, p := range []string{"/dev/stdout", "/out/debug.log"} {
		if r.P(1, 4) {
			sc.Faults = append(sc.Faults, &Fault{Op: "short", Path: p, At: int64(1 + r.Intn(60))})
		}
		if r.P(1, 6) {
			sc.Faults = append(sc.Faults, &Fault{Op: "eintr", Path: p})
		}
	}
	return sc
}

func (sc *LogScenario) valid() bool {
	for _, g := range sc.Gs {
		for _, o := range g {
			if o.Level < 0 || o.Level > 3 || o.How < 0 || o.How > 3 || o.Same && o.How < 2 || o.Twin && o.How >= 2 || o.Pad < 0 || o.Pad > 20000 || o.Wait < 0 {
				return false
			}
		}
	}
	for _, f := range sc.Faults {
		switch f.Op {
		case "write":
			if f.Path != "/dev/stdout" || f.At < 0 {
				return false
			}
		case "short":
			if f.At < 1 {
				return false
			}
		case "eintr":
		default:
			return false
		}
	}
	return sc.Slow >= 0
}

type logMsg struct {
	g, i  int
	text  string
	field bool
	op    LogOp
}

func runLog(s *Sim, scAny any) {
	sc := scAny.(*LogScenario)
	s.K.slow = sc.Slow
	wfault := false
	for _, f := range sc.Faults {
		c := *f
		s.K.faults = append(s.K.faults, &c)
		if f.Op == "write" {
			wfault = true
		}
	}
	var msgs [][]*logMsg
	for g, ops := range sc.Gs {
		var l []*logMsg
		for i, o := range ops {
			m := &logMsg{g: g, i: i, text: fmt.Sprintf("message %d.%d %s.", g, i, strings.Repeat("x", o.Pad)), op: o}
			if o.Same {
				m.text = "the same message"
			}
			if o.Twin {
				m.text = twinText
			}
			l = append(l, m)
		}
		msgs = append(msgs, l)
	}
	name := ""
	returned := s.runSUT(func() {
		var dbg io.Writer
		if sc.Debug {
			f, err := os.OpenFile("/out/debug.log", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
			if err != nil {
				s.Broken = err.Error()
				return
			}
			defer f.Close()
			dbg = f
			name = f.Name()
		}
		var def io.Writer = os.Stdout
		if sc.Discard {
			def = io.Discard
		}
		log := logger.New(sc.Verb, def, dbg)
		done := make(chan struct{})
		for _, l := range msgs {
			l := l
			go func() {
				defer func() { done <- struct{}{} }()
				for _, m := range l {
					if m.op.Wait > 0 {
						time.Sleep(time.Duration(m.op.Wait))
					}
					logOne(log, m)
					s.ev("logged", fmt.Sprintf("%d.%d", m.g, m.i), "level %d", m.op.Level)
				}
			}()
		}
		for range msgs {
			<-done
		}
	})
	if s.Broken != "" {
		return
	}
	if !returned {
		s.violate("C25", "crash or hang", "%s%s", s.Fatal, s.Hang)
		return
	}
	total, active := 0, 0
	for _, l := range msgs {
		total += len(l)
		if len(l) > 0 {
			active++
		}
	}
	if sc.Debug && total > 0 {
		s.probe("debug log")
	}
	if active > 1 {
		s.probe("several goroutines")
	}
	if sc.Debug {
		d, ok := s.K.content("/out/debug.log")
		if !ok {
			s.violate("C25", "debug log missing", "the debug log was not written")
		} else {
			checkLog(s, "debug log", d, msgs, 3, true, name)
		}
	}
	if !sc.Discard && !wfault {
		lv := sc.Verb
		if lv < 0 {
			lv = 0
		}
		if lv > 3 {
			lv = 3
		}
		if !sc.Debug {
			name = ""
		}
		checkLog(s, "default log", s.K.stream("/dev/stdout"), msgs, lv, false, name)
	}
}

func logOne(log *zap.SugaredLogger, m *logMsg) {
	if m.op.How == 3 {
		log = log.With("g", m.g, "i", m.i)
		m.field = true
	}
	switch m.op.Level*10 + m.op.How {
	case 0, 3:
		log.Error(m.text)
	case 1:
		log.Errorf("%s", m.text)
	case 2:
		log.Errorw(m.text, "g", m.g, "i", m.i)
	case 10, 13:
		log.Warn(m.text)
	case 11:
		log.Warnf("%s", m.text)
	case 12:
		log.Warnw(m.text, "g", m.g, "i", m.i)
	case 20, 23:
		log.Info(m.text)
	case 21:
		log.Infof("%s", m.text)
	case 22:
		log.Infow(m.text, "g", m.g, "i", m.i)
	case 30, 33:
		log.Debug(m.text)
	case 31:
		log.Debugf("%s", m.text)
	case 32:
		log.Debugw(m.text, "g", m.g, "i", m.i)
	}
	if m.op.How == 2 {
		m.field = true
	}
}

var levelNames = []string{"ERROR", "WARN", "INFO", "DEBUG"}

// twinText is logged many times, by anyone.
const twinText = "once more"

// checkLog compares a log with the messages it should hold.
func checkLog(s *Sim, which, data string, msgs [][]*logMsg, level int, debug bool, name string) {
	sig := func(x string) string { return which + ": " + x }
	if data != "" && !strings.HasSuffix(data, "\n") {
		s.violate("C25", sig("torn line"), "the %s does not end with a whole line: %q", which, clip([]byte(data[strings.LastIndex(data, "\n")+1:])))
	}
	next := make([]int, len(msgs))
	announced := 0
	twins := map[string]int{}
	for _, l := range msgs {
		for _, m := range l {
			if m.op.Twin && m.op.Level <= level {
				twins[levelNames[m.op.Level]]++
			}
		}
	}
	for _, line := range strings.Split(strings.TrimSuffix(data, "\n"), "\n") {
		if line == "" && data == "" {
			continue
		}
		f := strings.Split(line, "\t")
		if debug {
			if len(f) < 2 {
				s.violate("C25", sig("torn line"), "the %s has a line that is no whole message: %q", which, clip([]byte(line)))
				continue
			}
			if _, err := time.Parse("2006-01-02T15:04:05.000Z0700", f[0]); err != nil {
				s.violate("C25", sig("torn line"), "the %s has a line that is no whole message: %q", which, clip([]byte(line)))
				continue
			}
			f = f[1:]
		}
		if len(f) < 2 {
			s.violate("C25", sig("torn line"), "the %s has a line that is no whole message: %q", which, clip([]byte(line)))
			continue
		}
		if name != "" && f[0] == "INFO" && f[1] == "logging to: "+name {
			announced++
			continue
		}
		if f[1] == twinText && len(f) == 2 {
			twins[f[0]]--
			continue
		}
		g, i := -1, -1
		if fmt.Sscanf(f[1], "message %d.%d ", &g, &i); f[1] == "the same message" && len(f) == 3 {
			x := struct{ G, I int }{-1, -1}
			json.Unmarshal([]byte(f[2]), &x)
			g, i = x.G, x.I
		}
		if g < 0 || g >= len(msgs) || i < 0 || i >= len(msgs[g]) {
			s.violate("C25", sig("torn line"), "the %s has a line that is no message: %q", which, clip([]byte(line)))
			continue
		}
		m := msgs[g][i]
		if f[1] != m.text || f[0] != levelNames[m.op.Level] || len(f) != 2 && !m.field || len(f) > 3 {
			s.violate("C25", sig("torn line"), "the %s has a line that is not as logged: %q", which, clip([]byte(line)))
			continue
		}
		if m.field {
			var x struct{ G, I *int }
			if len(f) != 3 || json.Unmarshal([]byte(f[2]), &x) != nil || x.G == nil || *x.G != m.g || x.I == nil || *x.I != m.i {
				s.violate("C25", sig("fields lost"), "the %s has a line without its fields: %q", which, clip([]byte(line)))
			}
		}
		if m.op.Level > level {
			s.violate("C25", sig("not admitted"), "the %s has message %d.%d, which its verbosity does not admit", which, g, i)
			continue
		}
		for next[g] < i && (msgs[g][next[g]].op.Level > level || msgs[g][next[g]].op.Twin) {
			next[g]++
		}
		switch {
		case i < next[g]:
			s.violate("C25", sig("repeated or out of order"), "the %s has message %d.%d again or after a later one", which, g, i)
		case i > next[g]:
			s.violate("C25", sig("message missing"), "the %s lacks message %d.%d", which, g, next[g])
			next[g] = i + 1
		default:
			next[g]++
		}
	}
	for g, l := range msgs {
		for ; next[g] < len(l); next[g]++ {
			if l[next[g]].op.Level <= level && !l[next[g]].op.Twin {
				s.violate("C25", sig("message missing"), "the %s lacks message %d.%d", which, g, next[g])
				break
			}
		}
	}
	for _, lv := range levelNames {
		switch n := twins[lv]; {
		case n > 0:
			s.violate("C25", sig("message missing"), "the %s lacks %d of several equal messages of level %s", which, n, lv)
		case n < 0:
			s.violate("C25", sig("repeated or out of order"), "the %s has a message of level %s %d times too often", which, lv, -n)
		}
	}
	if name != "" && level >= 2 && announced != 1 {
		s.violate("C25", sig("start line"), "the %s names the debug log %d times", which, announced)
	}
	if name != "" && level < 2 && announced != 0 {
		s.violate("C25", sig("start line"), "the %s has a message its verbosity does not admit", which)
	}
}

func smallNonTriv(s *Sim, prop string) bool {
	p := s.Probes
	switch prop {
	case "C14":
		return p["completions"] > 0 || p["invalid graph"] > 0
	case "C25":
		return p["debug log"] > 0 || p["announced"] > 0
	case "C26":
		return true
	case "C27":
		return p["more sleeps than allowed at once"] > 0
	case "C28":
		return p["several steps"] > 0
	}
	return true
}

func init() {
	workloads["scheduler"] = &Workload{
		name: "scheduler", gen: genSched, blank: func() any { return &SchedScenario{} },
		valid: func(sc any) bool { return sc.(*SchedScenario).valid() },
		body:  runSched, nontriv: smallNonTriv,
	}
	workloads["taskset"] = &Workload{
		name: "taskset", gen: genTS, blank: func() any { return &TSScenario{} },
		valid:  func(sc any) bool { return sc.(*TSScenario).valid() },
		stalls: func(sc any) bool { return sc.(*TSScenario).Stalls },
		body:   runTS, nontriv: smallNonTriv,
	}
	workloads["logger"] = &Workload{
		name: "logger", gen: genLog, blank: func() any { return &LogScenario{} },
		valid:  func(sc any) bool { return sc.(*LogScenario).valid() },
		stalls: func(sc any) bool { return sc.(*LogScenario).Stalls },
		body:   runLog, nontriv: smallNonTriv,
	}
	propWork["C14"] = []string{"scheduler"}
	propWork["C25"] = []string{"logger", "logger", "runbook"}
	for _, p := range []string{"C26", "C27", "C28"} {
		propWork[p] = []string{"taskset"}
	}
}
