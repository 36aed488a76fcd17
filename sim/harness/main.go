//go:build go1.21

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
)

// Workload is one way of driving pgutil.
type Workload struct {
	name    string
	warm    int // runs before the first that counts
	gen     func(r *Rand, prop string) any
	blank   func() any
	valid   func(sc any) bool
	body    func(s *Sim, sc any)
	stalls  func(sc any) bool // may the scheduler stall goroutines in simulated time
	nontriv func(s *Sim, prop string) bool
}

// Case is one run: everything that determines it.
type Case struct {
	Prop     string          `json:"property"`
	Work     string          `json:"workload"`
	Scenario json.RawMessage `json:"scenario"`
	Sched    Schedule        `json:"schedule"`
}

// Replay is a replay file.
type Replay struct {
	Case
	Sig     string   `json:"signature"`
	Detail  string   `json:"detail"`
	Seed    uint64   `json:"seed"`
	Index   int      `json:"run"`
	LogHash string   `json:"logHash"`
	Note    string   `json:"note,omitempty"`
	Trace   []string `json:"trace"`
}

// genCase draws run number i of a property's check.
func genCase(prop string, seed uint64, i int) (*Workload, any, Schedule) {
	h := fnv.New64a()
	h.Write([]byte(prop))
	r := newRand(h.Sum64() ^ newRand(seed).U64() ^ newRand(uint64(i)+77).U64())
	ws := propWork[prop]
	w := workloads[ws[r.Intn(len(ws))]]
	sc := w.gen(r, prop)
	st := false
	if w.stalls != nil {
		st = w.stalls(sc)
	}
	return w, sc, genSchedule(r, st)
}

func runOne(w *Workload, prop string, sc any, sch *Schedule) *Outcome {
	return simulate(sch, func(s *Sim) bool { return w.nontriv(s, prop) }, func(s *Sim) { w.body(s, sc) })
}

// Found is a violation found by a worker.
type Found struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Index  int    `json:"index"`
	Count  int    `json:"count"`
	Case   Case   `json:"case"`
}

// Summary is what a worker reports.
type Summary struct {
	Runs       int               `json:"runs"`
	NonTriv    int               `json:"nontriv"`
	Hashes     []uint64          `json:"hashes"` // schedules+histories of non-trivial runs
	Orders     []uint64          `json:"orders"` // interleavings
	States     []uint64          `json:"states"`
	Faults     map[string]int    `json:"faults"`
	FaultRuns  int               `json:"faultRuns"`
	Probes     map[string]int    `json:"probes"`
	Work       map[string]int    `json:"work"`
	Found      map[string]*Found `json:"found"`
	Other      map[string]int    `json:"other"` // violations of other properties seen on the way
	Broken     int               `json:"broken"`
	BrokenWhy  string            `json:"brokenWhy"`
	BrokenIdx  int               `json:"brokenIdx"`
	SimNS      float64           `json:"simNS"`
	Points     uint64            `json:"points"`
	Picks      uint64            `json:"picks"`
	Switches   uint64            `json:"switches"`
	Yields     uint64            `json:"yields"`
	Stalls     uint64            `json:"stalls"`
	Events     int               `json:"events"`
	Rerun      int               `json:"rerun"`
	Mismatch   int               `json:"mismatch"`
	MismatchAt int               `json:"mismatchAt"`
	WallS      float64           `json:"wallS"`
	Timeout    bool              `json:"timeout"`
	Samples    []json.RawMessage `json:"samples"`
}

func keys(m map[uint64]struct{}) []uint64 {
	var out []uint64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

var (
	fProp     = flag.String("prop", "", "property")
	fSeed     = flag.Uint64("seed", 1, "")
	fFrom     = flag.Int("from", 0, "")
	fTo       = flag.Int("to", 100, "")
	fStep     = flag.Int("step", 1, "")
	fWall     = flag.Float64("wall", 1e9, "seconds")
	fOut      = flag.String("out", "", "")
	fReplay   = flag.String("replay", "", "replay file")
	fShrink   = flag.String("shrink", "", "case file")
	fV        = flag.Bool("v", false, "print histories")
	fSig      = flag.String("sig", "", "")
	fProgress = flag.String("progress", "", "file holding the run in progress")
	fDet      = flag.Int("det", 0, "run every case that many times more and compare")
	fWatch    = flag.String("watch", "", "report violations of this property instead")
	fStop     = flag.Bool("stop", false, "stop at the first violation")
)

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(code)
}

func setup() {
	runtime.GOMAXPROCS(1)
	runtime.MemProfileRate = 0
	debug.SetGCPercent(-1)
	// what the standard library tries first and does without
	for _, t := range []uintptr{247, 434, 424, 326, 275, 40, 16, 332, 221, 435} {
		runtime.SimTrapOK(t)
	}
	initTLS()
	installNetwork()
	// warm up: one-time initialisation must not fall into a counted run
	var names []string
	for n := range workloads {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w := workloads[n]
		for i := 0; i < max(60, w.warm); i++ {
			r := newRand(uint64(1000 + i))
			sc := w.gen(r, "")
			sch := genSchedule(r, false)
			runOne(w, "", sc, &sch)
		}
	}
}

func main() {
	flag.Parse()
	switch {
	case *fReplay != "":
		setup()
		replay()
	case *fShrink != "":
		setup()
		shrinkMain()
	default:
		setup()
		worker()
	}
}

func printOutcome(o *Outcome) {
	for _, e := range o.Events {
		fmt.Println(e.String())
	}
	for _, v := range o.Viol {
		fmt.Printf("VIOL %s [%s] %s\n", v.Prop, v.Sig, v.Detail)
	}
	if o.Broken != "" {
		fmt.Println("BROKEN", o.Broken)
	}
}

func worker() {
	if propWork[*fProp] == nil {
		die(2, "unknown property %q", *fProp)
	}
	sum := &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Work: map[string]int{}, Found: map[string]*Found{}, Other: map[string]int{}}
	hashes, orders, states := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	t0 := time.Now()
	var prog *os.File
	if *fProgress != "" {
		prog, _ = os.Create(*fProgress)
	}
	for i := *fFrom; i < *fTo; i += *fStep {
		if time.Since(t0).Seconds() > *fWall {
			sum.Timeout = true
			break
		}
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		w, sc, sch := genCase(*fProp, *fSeed, i)
		if !w.valid(sc) {
			die(2, "run %d of %s is not valid: %s", i, *fProp, clip([]byte(jsonOf(sc))))
		}
		o := runOne(w, *fProp, sc, &sch)
		if *fV {
			fmt.Printf("=== run %d: %s %s\n", i, w.name, jsonOf(sc))
			printOutcome(o)
		}
		nd := *fDet
		if nd == 0 && i%500 < 8 { // a sample of every check's runs
			nd = 1
		}
		for d := 0; d < nd; d++ {
			o2 := runOne(w, *fProp, sc, &sch)
			sum.Rerun++
			if o2.LogHash != o.LogHash {
				sum.Mismatch++
				sum.MismatchAt = i
				if *fDet > 0 {
					fmt.Printf("run %d is not repeatable: %d events %d points, then %d events %d points\n", i, len(o.Events), o.Res.Points, len(o2.Events), o2.Res.Points)
					for j := range o.Events {
						if j >= len(o2.Events) || o.Events[j] != o2.Events[j] {
							fmt.Println("  first:", o.Events[j])
							if j < len(o2.Events) {
								fmt.Println("  then: ", o2.Events[j])
							}
							break
						}
					}
				}
			}
		}
		sum.Runs++
		sum.Work[w.name]++
		sum.SimNS += float64(o.SimNS)
		sum.Points += o.Res.Points
		sum.Picks += o.Res.NPicks
		sum.Switches += o.Res.Switches
		sum.Yields += o.Res.Yields
		sum.Stalls += o.Res.Stalls
		sum.Events += len(o.Events)
		if o.Broken != "" {
			sum.Broken++
			if sum.BrokenWhy == "" {
				sum.BrokenWhy, sum.BrokenIdx = o.Broken, i
			}
			continue
		}
		for k, n := range o.Faults {
			sum.Faults[k] += n
		}
		if len(o.Faults) > 0 {
			sum.FaultRuns++
		}
		for k, n := range o.Probes {
			sum.Probes[k] += n
		}
		orders[o.Res.Hash] = struct{}{}
		for k := range o.States {
			states[k] = struct{}{}
		}
		if o.NonTriv {
			sum.NonTriv++
			hashes[o.LogHash] = struct{}{}
			if len(sum.Samples) < 2 {
				var tr []string
				for j, e := range o.Events {
					if j >= 60 {
						tr = append(tr, "...")
						break
					}
					tr = append(tr, e.String())
				}
				sum.Samples = append(sum.Samples, json.RawMessage(jsonOf(map[string]any{
					"run": i, "workload": w.name, "scenario": sc, "picks": o.Res.NPicks, "preemptions": o.Res.Yields, "history": tr})))
			}
		}
		stop := false
		for _, v := range o.Viol {
			if v.Prop != *fProp && v.Prop != *fWatch {
				sum.Other[v.Prop+": "+v.Sig]++
				continue
			}
			f := sum.Found[v.Sig]
			if f == nil {
				f = &Found{Sig: v.Sig, Detail: v.Detail, Index: i,
					Case: Case{Prop: v.Prop, Work: w.name, Scenario: json.RawMessage(jsonOf(sc)), Sched: sch}}
				sum.Found[v.Sig] = f
			}
			f.Count++
			stop = true
		}
		if stop && *fStop {
			break
		}
	}
	sum.Hashes, sum.Orders, sum.States = keys(hashes), keys(orders), keys(states)
	sum.WallS = time.Since(t0).Seconds()
	b, err := json.Marshal(sum)
	if err != nil {
		die(2, "%v", err)
	}
	if *fOut != "" {
		if err := os.WriteFile(*fOut, b, 0666); err != nil {
			die(2, "%v", err)
		}
		return
	}
	sum.Hashes, sum.Orders, sum.States, sum.Samples = nil, nil, nil, nil
	for _, f := range sum.Found {
		f.Case.Scenario = nil
	}
	b, _ = json.MarshalIndent(sum, "", " ")
	fmt.Println(string(b))
}

func readCase(file string) (*Replay, *Workload, any) {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die(2, "%s: %v", file, err)
	}
	w := workloads[rp.Work]
	if w == nil {
		die(2, "%s: unknown workload %q", file, rp.Work)
	}
	sc := w.blank()
	if err := json.Unmarshal(rp.Scenario, sc); err != nil {
		die(2, "%s: %v", file, err)
	}
	return &rp, w, sc
}

// replay repeats a recorded run. Exit 1: the violation occurs again, exactly;
// 0: it does not occur; 3: it occurs in another execution.
func replay() {
	rp, w, sc := readCase(*fReplay)
	o := runOne(w, rp.Prop, sc, &rp.Sched)
	if *fV {
		printOutcome(o)
	}
	hit := false
	for _, v := range o.Viol {
		if v.Prop == rp.Prop && v.Sig == rp.Sig {
			hit = true
			fmt.Printf("%s [%s] %s\n", v.Prop, v.Sig, v.Detail)
		}
	}
	same := fmt.Sprintf("%016x", o.LogHash) == rp.LogHash
	fmt.Printf("violation occurs: %v, execution identical to the recorded one: %v\n", hit, same)
	switch {
	case hit && same:
		os.Exit(1)
	case hit:
		os.Exit(3)
	}
}
