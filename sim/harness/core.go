//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

// ---- random numbers ----

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ s uint64 }

func newRand(seed uint64) *Rand { return &Rand{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.Intn(den) < num }

func pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func shuffle[T any](r *Rand, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// ---- schedules ----

// Pre is one preemption: at point N, yield, or stall for D ns.
type Pre struct {
	N uint64 `json:"n"`
	D int64  `json:"d,omitempty"`
}

// Schedule decides every scheduling choice of a run.
type Schedule struct {
	Seed      uint64    `json:"seed"`
	Mode      int       `json:"mode"`
	PickProb  uint32    `json:"pickProb,omitempty"`
	LifoProb  uint32    `json:"lifoProb,omitempty"`
	PreProb   uint32    `json:"preProb,omitempty"`
	StallProb uint32    `json:"stallProb,omitempty"`
	StallMax  int64     `json:"stallMax,omitempty"`
	Change    [8]uint64 `json:"change"`
	Picks     []uint16  `json:"picks,omitempty"`
	Pre       []Pre     `json:"pre,omitempty"`
}

// genSchedule draws a scheduling policy: plain FIFO, LIFO, random with
// various preemption rates, or priorities with a few change points.
func genSchedule(r *Rand, stalls bool) Schedule {
	s := Schedule{Seed: r.U64()}
	switch r.Intn(8) {
	case 0:
		s.Mode = 1
	case 1:
		s.Mode = 1
		s.LifoProb = 65536
	case 2, 3, 4:
		s.Mode = 1
		s.PickProb = uint32(pick(r, 8192, 32768, 65536))
		s.PreProb = uint32(pick(r, 0, 64, 512, 4096, 16384))
	case 5:
		s.Mode = 1
		s.PickProb = 65536
		s.PreProb = uint32(pick(r, 32768, 65536))
	default:
		s.Mode = 2
		n := r.Intn(6)
		lim := pick(r, 50, 400, 3000)
		for i := 0; i < n; i++ {
			s.Change[i] = 1 + uint64(r.Intn(lim))
		}
	}
	if stalls && r.P(1, 3) {
		s.StallProb = uint32(pick(r, 20, 200, 1500))
		s.StallMax = int64(pick(r, 1000, 1000000, 200000000, 5000000000))
	}
	return s
}

// ---- events ----

// Ev is one entry of a run's history.
type Ev struct {
	Seq  int
	T    int64 // simulated ns since the start of the run
	Kind string
	Who  string // task, connection, process or path concerned
	Arg  string
}

func (e Ev) String() string {
	return fmt.Sprintf("%4d %13.6fms %-14s %-12s %s", e.Seq, float64(e.T)/1e6, e.Kind, e.Who, e.Arg)
}

// Violation is a broken property.
type Violation struct {
	Prop   string `json:"prop"`
	Sig    string `json:"sig"`    // class, stable under minimisation
	Detail string `json:"detail"` // specifics
}

// Sim is one run in progress.
type Sim struct {
	T0     int64
	Events []Ev
	K      *Kernel
	Net    *Network
	Faults map[string]int // fault kinds that fired
	Probes map[string]int // rare conditions reached
	Viol   []Violation
	Broken string // the harness could not run the scenario
	Fatal  string // panic, os.Exit or fatal error of the system under test
	Hang   string // the run can make no progress
	states map[uint64]struct{}
	onIdle func()           // invariants at quiescence
	onEv   func(e *Ev)      // invariants at each event
	onExit func(code int)   // the program calls os.Exit
	abort  chan struct{}    // closed when the run has hung or died
	ended  bool             // the system under test has returned
	errs   map[string]error // results by name
	panics []string
	data   any

	secrets []secret
	own     map[string][]byte // what the system under test wrote, by destination
	told    []string          // the errors it returned
	conns   []*PGConn
}

var cur *Sim // the active run

const baseTime = 946684800000000000

func (s *Sim) now() int64 { return runtime.SimNow() - baseTime }

// ev records an event.
func (s *Sim) ev(kind, who, format string, a ...any) {
	arg := format
	if len(a) > 0 {
		arg = fmt.Sprintf(format, a...)
	}
	e := Ev{Seq: len(s.Events), T: s.now(), Kind: kind, Who: who, Arg: arg}
	if len(s.Events) < 200000 {
		s.Events = append(s.Events, e)
	}
	if s.onEv != nil {
		s.onEv(&e)
	}
}

func (s *Sim) fault(kind string) { s.Faults[kind]++ }
func (s *Sim) probe(kind string) { s.Probes[kind]++ }

func (s *Sim) violate(prop, sig, format string, a ...any) {
	for _, v := range s.Viol {
		if v.Prop == prop && v.Sig == sig {
			return
		}
	}
	s.Viol = append(s.Viol, Violation{prop, sig, fmt.Sprintf(format, a...)})
}

// state notes an abstract state reached, for the coverage measure.
func (s *Sim) state(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	s.states[h.Sum64()] = struct{}{}
}

// heapAddr matches addresses of objects, which mean nothing and may differ between processes.
var heapAddr = regexp.MustCompile(`0x[0-9a-f]*|…\([0-9]+\)$`)

// Outcome is what a run produced.
type Outcome struct {
	Viol    []Violation
	Events  []Ev
	Res     runtime.SimResult
	Faults  map[string]int
	Probes  map[string]int
	SimNS   int64
	LogHash uint64
	States  map[uint64]struct{}
	Broken  string
	NonTriv bool
}

// harnessGo starts a goroutine of the simulated environment.
func harnessGo(f func()) {
	go func() {
		runtime.SimMark(true)
		f()
	}()
}

// waitq is a condition variable for cooperative goroutines.
type waitq struct{ ws []chan struct{} }

func (q *waitq) wait() {
	c := make(chan struct{})
	q.ws = append(q.ws, c)
	<-c
}

// waitUntil waits for a wake-up, at most until t (0: for ever). It reports false on timeout.
func (q *waitq) waitUntil(t time.Time) bool {
	if t.IsZero() {
		q.wait()
		return true
	}
	d := time.Until(t)
	if d <= 0 {
		return false
	}
	c := make(chan struct{})
	q.ws = append(q.ws, c)
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-c:
		return true
	case <-tm.C:
		return false
	}
}

func (q *waitq) wake() {
	for _, c := range q.ws {
		close(c)
	}
	q.ws = nil
}

const (
	maxPoints = 400000
	maxPicks  = 400000
	maxSimNS  = int64(400 * 24 * 3600 * 1e9)
)

var (
	bufPicks = make([]uint16, 0, maxPicks)
	bufPreN  = make([]uint64, 0, maxPoints)
	bufPreD  = make([]int64, 0, maxPoints)
	runCount int
)

// simulate executes body as one run. body runs on a harness goroutine.
func simulate(sch *Schedule, nontrivial func(s *Sim) bool, body func(s *Sim)) *Outcome {
	runCount++
	if runCount%40 == 0 {
		runtime.GC()
	}
	s := &Sim{Faults: map[string]int{}, Probes: map[string]int{}, states: map[uint64]struct{}{}, errs: map[string]error{}}
	s.K = newKernel(s)
	cur = s
	syscall.SimK = s.K
	c := &runtime.SimConfig{
		Seed: sch.Seed, Mode: sch.Mode, PickProb: sch.PickProb, LifoProb: sch.LifoProb, PreProb: sch.PreProb,
		StallProb: sch.StallProb, StallMax: sch.StallMax, Change: sch.Change, Picks: sch.Picks,
		MaxPoints: maxPoints, MaxPicks: maxPicks,
	}
	if c.StallMax < 16 {
		c.StallMax = 16
	}
	for _, p := range sch.Pre {
		c.PreN = append(c.PreN, p.N)
		c.PreD = append(c.PreD, p.D)
	}
	res := &runtime.SimResult{Picks: bufPicks, PreN: bufPreN, PreD: bufPreD}
	oldEnv := os.Environ()
	wd, out, errf := os.Stdin, os.Stdout, os.Stderr
	os.Clearenv()
	os.Setenv("PATH", "/bin:/usr/bin")
	os.Setenv("HOME", "/root")
	os.Setenv("USER", "root")
	c.OnFatal = func(v any, kind string) {
		if kind == "os.Exit" && s.onExit != nil {
			s.onExit(v.(int))
			return
		}
		if s.Fatal == "" {
			s.Fatal = kind + ": " + fatalText(v)
			s.panics = append(s.panics, string(debug.Stack()))
			s.release()
		}
	}
	c.OnIdle = func(now, next int64) bool {
		if s.onIdle != nil {
			s.onIdle()
		}
		if s.K.idle() {
			return true
		}
		if s.ended || s.Fatal != "" || s.Hang != "" {
			if next == 0 || next-baseTime > maxSimNS {
				return s.release()
			}
			return false
		}
		switch {
		case runtime.SimOverrun():
			s.Hang = "step bound exceeded"
		case next == 0:
			s.Hang = "deadlock: " + describeG(runtime.SimGoroutines())
		case next-baseTime > maxSimNS:
			s.Hang = "no end within the simulated time bound: " + describeG(runtime.SimGoroutines())
		default:
			return false
		}
		return s.release()
	}
	err := runtime.SimRun(c, res, func() {
		s.abort = make(chan struct{})
		os.Stdin = os.NewFile(0, "/dev/stdin")
		os.Stdout = os.NewFile(1, "/dev/stdout")
		os.Stderr = os.NewFile(2, "/dev/stderr")
		if s.runSUT(runtime.SimInit) {
			s.ended = false
			body(s)
		} else {
			s.Broken = "initialisation: " + s.Fatal + s.Hang
		}
		s.T0 = s.now()
	})
	os.Stdin, os.Stdout, os.Stderr = wd, out, errf
	os.Clearenv()
	for _, kv := range oldEnv {
		if i := strings.Index(kv, "="); i > 0 {
			os.Setenv(kv[:i], kv[i+1:])
		}
	}
	if err != nil {
		if e, ok := err.(error); !ok || !strings.HasPrefix(e.Error(), "deadlock: main bubble goroutine has exited") {
			s.Broken = fmt.Sprintf("simulation ended with: %v", err)
		}
	}
	if res.Trap != 0 {
		s.Broken = fmt.Sprintf("system call %d reached outside the simulated kernel", res.Trap)
	}
	syscall.SimK = nil
	cur = nil
	o := &Outcome{Viol: s.Viol, Events: s.Events, Res: *res, Faults: s.Faults, Probes: s.Probes, SimNS: s.T0, States: s.states, Broken: s.Broken}
	o.Res.Picks = append([]uint16(nil), res.Picks...)
	o.Res.PreN = append([]uint64(nil), res.PreN...)
	o.Res.PreD = append([]int64(nil), res.PreD...)
	h := fnv.New64a()
	for i := range s.Events {
		e := &s.Events[i]
		arg := e.Arg
		if strings.Contains(arg, "0x") {
			arg = heapAddr.ReplaceAllString(arg, "0x")
		}
		fmt.Fprintln(h, e.Seq, e.T, e.Kind, e.Who, arg)
	}
	fmt.Fprintln(h, res.Hash, res.Points, res.Switches)
	o.LogHash = h.Sum64()
	if nontrivial != nil {
		o.NonTriv = nontrivial(s)
	}
	return o
}

func fatalText(v any) (t string) {
	defer func() {
		if recover() != nil {
			t = "?"
		}
	}()
	return fmt.Sprint(v)
}

// release lets the harness goroutine waiting for the system under test go on.
func (s *Sim) release() bool {
	if s.abort == nil {
		return false
	}
	select {
	case <-s.abort:
		return false
	default:
		close(s.abort)
		return true
	}
}

func describeG(gs []runtime.SimG) string {
	var sb strings.Builder
	n := 0
	for _, g := range gs {
		if g.Harness {
			continue
		}
		if n > 0 {
			sb.WriteString("; ")
		}
		fmt.Fprintf(&sb, "%s [%s]", shortFn(g.Start), g.Wait)
		n++
	}
	return sb.String()
}

func shortFn(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// runSUT runs f as the system under test and waits until it returns, hangs or
// dies. It reports whether f returned.
func (s *Sim) runSUT(f func()) bool {
	done := make(chan struct{})
	go func() {
		runtime.SimMark(false)
		f()
		s.ended = true
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-s.abort:
		// both may be ready
		select {
		case <-done:
			return true
		default:
		}
		return false
	}
}

// settle lets everything that can proceed without time passing proceed, then
// waits for goroutines stalled by the scheduler or by slow output; it returns the goroutines of
// the system under test that are left.
func (s *Sim) settle() []runtime.SimG {
	for i := 0; ; i++ {
		q := &quiesce{}
		q.wait(s)
		var left []runtime.SimG
		stalled := false
		for _, g := range runtime.SimGoroutines() {
			if !g.Harness {
				left = append(left, g)
				if g.Stalled {
					stalled = true
				}
			}
		}
		if !stalled && s.K.busy == 0 || i > 1000 {
			return left
		}
		time.Sleep(time.Second)
	}
}

// quiesce waits until everything else is blocked, at the present simulated time.
type quiesce struct{}

func (*quiesce) wait(s *Sim) {
	c := make(chan struct{})
	s.K.onIdle = append(s.K.onIdle, func() { close(c) })
	<-c
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}
