package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const workers = 8

type found struct {
	Sig    string                     `json:"sig"`
	Detail string                     `json:"detail"`
	Index  int                        `json:"index"`
	Count  int                        `json:"count"`
	Case   map[string]json.RawMessage `json:"case"` // raw: a schedule's seed has more digits than a float64
}

type summary struct {
	Runs, NonTriv            int
	Hashes, Orders, States   []uint64
	Faults, Probes, Work     map[string]int
	FaultRuns                int
	Found                    map[string]*found
	Other                    map[string]int
	Broken                   int
	BrokenWhy                string
	BrokenIdx                int
	SimNS                    float64
	Points, Picks, Switches  uint64
	Yields, Stalls           uint64
	Events, Rerun, Mismatch  int
	MismatchAt               int
	WallS                    float64
	Timeout                  bool
	Samples                  []json.RawMessage
	Real, Stub, Rule, Method string
}

type finding struct {
	Status      string `json:"status"` // known or fixed
	Property    string `json:"property"`
	Signature   string `json:"signature"`
	Description string `json:"description"`
	Commit      string `json:"commit,omitempty"`
}

// budget is how many runs a check makes, and for how long at most.
func budget(tier string) (runs int, wall float64, shrink float64) {
	if tier == "thorough" {
		return envInt("VERIF_RUNS", 2000000), float64(envInt("VERIF_WALL", 720)), 120
	}
	return envInt("VERIF_RUNS", 48000), float64(envInt("VERIF_WALL", 60)), 25
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

// sim runs the simulation binary, at most for limit.
func sim(limit time.Duration, w io.Writer, args ...string) (int, string) {
	cmd := exec.Command(*out, args...)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if w != nil {
		cmd.Stdout = w
	}
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return 0, buf.String()
		}
		if e, ok := err.(*exec.ExitError); ok && e.ExitCode() >= 0 {
			return e.ExitCode(), buf.String()
		}
		return -1, err.Error() + "\n" + buf.String()
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return -2, "killed after " + limit.String() + "\n" + buf.String()
	}
}

func replayFile(file string, w io.Writer) int {
	code, msg := sim(5*time.Minute, w, "-replay", file)
	if w != nil && msg != "" {
		fmt.Fprintln(os.Stderr, msg)
	}
	return code
}

func add(dst, src map[string]int) {
	for k, n := range src {
		dst[k] += n
	}
}

func check() int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	runs, wall, shrinkS := budget(tier)
	fmt.Printf("%s: %s, seed %d, up to %d runs\n", *prop, tier, seed, runs)

	// run, in processes of limited length: what a simulated program leaves
	// blocked when it ends stays in memory
	const chunk = 1000
	var sums []*summary
	var mu sync.Mutex
	why := make([]string, workers)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			of := filepath.Join(*work, fmt.Sprintf("sum%d.json", i))
			pf := filepath.Join(*work, fmt.Sprintf("progress%d", i))
			for from := i; from < runs; from += chunk * workers {
				to := min(runs, from+chunk*workers)
				left := wall - time.Since(t0).Seconds()
				if from > i && left <= 0 {
					mu.Lock()
					sums = append(sums, &summary{Timeout: true})
					mu.Unlock()
					return
				}
				os.Remove(of)
				code, msg := sim(time.Duration(max(left, 1)+90)*time.Second, nil, "-prop", *prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-step", fmt.Sprint(workers), "-wall", fmt.Sprint(left), "-out", of, "-progress", pf)
				if code != 0 {
					at, _ := os.ReadFile(pf)
					if len(msg) > 3000 {
						msg = msg[:3000]
					}
					why[i] = fmt.Sprintf("worker ended with %d in run %s: %s", code, strings.TrimSpace(string(at)), msg)
					return
				}
				b, err := os.ReadFile(of)
				if err != nil {
					why[i] = err.Error()
					return
				}
				s := &summary{}
				if err := json.Unmarshal(b, s); err != nil {
					why[i] = err.Error()
					return
				}
				mu.Lock()
				sums = append(sums, s)
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()

	// merge
	tot := &summary{Faults: map[string]int{}, Probes: map[string]int{}, Work: map[string]int{}, Found: map[string]*found{}, Other: map[string]int{}}
	hashes, orders, states := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	examples := map[string][]*found{} // of each violation, one per worker process
	dead := 0
	for _, y := range why {
		if y != "" {
			dead++
			fmt.Printf("error: %s\n", y)
		}
	}
	for _, s := range sums {
		tot.Runs += s.Runs
		tot.NonTriv += s.NonTriv
		tot.FaultRuns += s.FaultRuns
		tot.Broken += s.Broken
		if s.BrokenWhy != "" {
			tot.BrokenWhy, tot.BrokenIdx = s.BrokenWhy, s.BrokenIdx
		}
		tot.SimNS += s.SimNS
		tot.Points += s.Points
		tot.Picks += s.Picks
		tot.Switches += s.Switches
		tot.Yields += s.Yields
		tot.Stalls += s.Stalls
		tot.Events += s.Events
		tot.Rerun += s.Rerun
		tot.Mismatch += s.Mismatch
		tot.Timeout = tot.Timeout || s.Timeout
		add(tot.Faults, s.Faults)
		add(tot.Probes, s.Probes)
		add(tot.Work, s.Work)
		add(tot.Other, s.Other)
		for _, h := range s.Hashes {
			hashes[h] = true
		}
		for _, h := range s.Orders {
			orders[h] = true
		}
		for _, h := range s.States {
			states[h] = true
		}
		if len(tot.Samples) < 2 && len(s.Samples) > 0 {
			tot.Samples = append(tot.Samples, s.Samples[0])
		}
		for k, f := range s.Found {
			examples[k] = append(examples[k], f)
			if g := tot.Found[k]; g == nil {
				c := *f
				tot.Found[k] = &c
			} else {
				n := g.Count + f.Count
				if f.Index < g.Index {
					*g = *f
				}
				g.Count = n
			}
		}
	}

	tot.WallS = time.Since(t0).Seconds()

	// judge
	var kf []finding
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		must(json.Unmarshal(b, &kf))
	}
	var sigs []string
	for k := range tot.Found {
		sigs = append(sigs, k)
	}
	sort.Slice(sigs, func(i, j int) bool { return tot.Found[sigs[i]].Index < tot.Found[sigs[j]].Index })
	code := 0
	violations := 0
	knownSeen := 0
	var reports []map[string]interface{}
	var fresh []string
	for _, k := range sigs {
		known := false
		for _, f := range kf {
			if f.Status == "known" && f.Property == *prop && f.Signature == k {
				known = true
				knownSeen++
				fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", *prop, f.Description, tot.Found[k].Count)
			}
		}
		if !known {
			fresh = append(fresh, k)
		}
	}
	// a listed finding is reported on every run, whether or not this run came across it
	for _, f := range kf {
		if f.Status == "known" && f.Property == *prop && tot.Found[f.Signature] == nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this run)\n", *prop, f.Description)
		}
	}
	unconfirmed := 0
	for i, k := range fresh {
		violations++
		if i-unconfirmed >= 3 || i >= 9 {
			fmt.Printf("also broken, not minimised: [%s] %s\n", k, tot.Found[k].Detail)
			continue
		}
		f := tot.Found[k]
		cf := filepath.Join(*work, fmt.Sprintf("case%d.json", i))
		dir := filepath.Join(*verif, "replays")
		must(os.MkdirAll(dir, 0777))
		rf := filepath.Join(dir, fmt.Sprintf("%s-%s.json", *prop, regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(k, "-")))
		lim := shrinkS
		if i > 0 {
			lim /= 3
		}
		// the first example that happens again in another process is reported
		ex := examples[k]
		sort.Slice(ex, func(i, j int) bool { return ex[i].Index < ex[j].Index })
		var c int
		var msg string
		for n, x := range ex {
			if n >= 4 {
				break
			}
			for key, val := range map[string]interface{}{"signature": x.Sig, "seed": seed, "run": x.Index} {
				b, err := json.Marshal(val)
				must(err)
				x.Case[key] = b
			}
			b, err := json.Marshal(x.Case)
			must(err)
			must(os.WriteFile(cf, b, 0666))
			c, msg = sim(time.Duration(lim*2+60)*time.Second, nil, "-shrink", cf, "-wall", fmt.Sprint(lim), "-out", rf)
			if c == 0 {
				c = replayFile(rf, nil)
				if c != 1 {
					msg = fmt.Sprintf("replaying %s gave %d", rf, c)
				}
			}
			if c == 1 {
				f.Index, f.Detail = x.Index, x.Detail
				break
			}
		}
		if c != 1 {
			unconfirmed++
			fmt.Printf("error: [%s] %s: could not be reproduced: %s\n", k, f.Detail, msg)
			continue
		}
		b, err := os.ReadFile(rf)
		must(err)
		var rp struct {
			Detail   string
			Note     string
			Scenario json.RawMessage
			Trace    []string
		}
		must(json.Unmarshal(b, &rp))
		var flat bytes.Buffer
		json.Compact(&flat, rp.Scenario)
		fmt.Printf("[%s] %s\n  first seen in run %d, in %d runs; %s\n  scenario %s\n", k, rp.Detail, f.Index, f.Count, rp.Note, flat.Bytes())
		for j, l := range rp.Trace {
			if j >= 60 && j < len(rp.Trace)-5 {
				continue
			}
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rf)
		reports = append(reports, map[string]interface{}{"signature": k, "detail": rp.Detail, "seed": seed, "run": f.Index, "runs_affected": f.Count, "replay": rf})
		code = 1
	}
	if code == 0 {
		switch {
		case unconfirmed > 0:
			code = 2
		case dead > 0 || tot.Runs == 0:
			code = 2
		case tot.Broken*5 > tot.Runs:
			fmt.Printf("error: %d of %d runs could not be simulated: %s (run %d)\n", tot.Broken, tot.Runs, tot.BrokenWhy, tot.BrokenIdx)
			code = 2
		}
	}
	if tot.Mismatch > 0 {
		fmt.Printf("warning: %d of %d repeated runs differed\n", tot.Mismatch, tot.Rerun)
	}

	// evidence
	wallS := time.Since(t0).Seconds()
	meta := metaOf(*prop)
	perHour := 0
	if tot.WallS > 0 {
		perHour = int(float64(tot.Runs) / tot.WallS * 3600)
	}
	faultRuns := tot.FaultRuns
	cov := map[string]interface{}{
		"evaluations":                    tot.Runs,
		"distinct_nontrivial":            len(hashes),
		"rule":                           meta.rule,
		"samples":                        tot.Samples,
		"simulated_runs":                 tot.Runs,
		"nontrivial_runs":                tot.NonTriv,
		"runs_per_hour":                  perHour,
		"seeds_per_hour":                 perHour,
		"simulated_time_s":               tot.SimNS / 1e9,
		"faults_injected":                tot.Faults,
		"runs_with_faults":               faultRuns,
		"situations_reached":             tot.Probes,
		"distinct_interleavings":         len(orders),
		"interleaving_measure":           "distinct hashes of the sequence of goroutines executed, over the whole run",
		"distinct_abstract_states":       len(states),
		"scheduling_decisions":           tot.Picks,
		"context_switches":               tot.Switches,
		"preemption_points_passed":       tot.Points,
		"preemptions":                    tot.Yields,
		"stalls":                         tot.Stalls,
		"events_recorded":                tot.Events,
		"workloads":                      tot.Work,
		"runs_repeated_for_determinism":  tot.Rerun,
		"repeated_runs_that_differed":    tot.Mismatch,
		"runs_not_simulated":             tot.Broken,
		"stopped_by_time":                tot.Timeout,
		"components_real":                meta.real,
		"components_simulated":           meta.stub,
		"violations_found":               reports,
		"known_findings_met":             knownSeen,
		"violations_of_other_properties": tot.Other,
		"exhaustive":                     false,
	}
	if tot.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": meta.assume, "wall_s": wallS, "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(*verif, "evidence"), 0777))
	must(os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0666))
	fmt.Printf("%s: %d runs (%d non-trivial, %d distinct), %.0f simulated s, %d runs with faults, %d distinct interleavings, %.1f s\n", *prop, tot.Runs, tot.NonTriv, len(hashes), tot.SimNS/1e9, faultRuns, len(orders), wallS)
	if code == 0 {
		fmt.Printf("%s: held on everything explored\n", *prop)
	}
	return code
}

type propMeta struct {
	rule       string
	real, stub []string
	assume     []string
}

var (
	realAll   = []string{"every package under /repo/internal that the workload reaches, from this tree, with preemption points inserted", "pgx, zap, hcl, kingpin and the other vendored modules", "Go standard library above the system-call layer (os, os/exec, io, bufio, crypto/tls, encoding, sync, time)", "Go runtime: channels, select, timers, maps"}
	stubAll   = []string{"goroutine scheduling decisions, clock and timers, random numbers, map iteration order", "kernel: files, pipes, descriptors, child processes and their programs (in memory)", "TCP dialing and connections (in memory)", "PostgreSQL server (protocol-level simulation)"}
	assumeAll = []string{"preemption happens between statements of /repo's code and at every runtime scheduling point, not inside a statement (no weak-memory effects)", "the simulated kernel and server behave like Linux and PostgreSQL in what pgutil uses of them"}
)

func metaOf(p string) propMeta {
	m := propMeta{real: realAll, stub: stubAll, assume: assumeAll}
	m.rule = "each run draws a scenario, a scheduling policy and a fault plan from the seed and executes the real code under the simulator; non-trivial: " + rules[p] + "; distinct: different history and goroutine sequence"
	return m
}
