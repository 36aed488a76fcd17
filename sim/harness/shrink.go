//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"time"
)

// shrinker minimises a failing run while it keeps breaking the same property
// in the same way.
type shrinker struct {
	w        *Workload
	prop     string
	sig      string
	sc       any
	sch      Schedule
	out      *Outcome
	detail   string
	deadline time.Time
	runs     int
	tried    map[string]bool
}

func (sh *shrinker) try(sc any, sch Schedule) *Outcome {
	sh.runs++
	if sh.w.stalls == nil || !sh.w.stalls(sc) {
		sch.StallProb = 0
		sch.Pre = append([]Pre{}, sch.Pre...)
		for i := range sch.Pre {
			sch.Pre[i].D = 0
		}
	}
	o := runOne(sh.w, sh.prop, sc, &sch)
	if o.Broken != "" {
		return nil
	}
	for _, v := range o.Viol {
		if v.Prop == sh.prop && v.Sig == sh.sig {
			sh.detail = v.Detail
			return o
		}
	}
	return nil
}

// recorded is the schedule an outcome followed.
func recorded(sch Schedule, o *Outcome) Schedule {
	r := Schedule{Seed: sch.Seed}
	r.Picks = append([]uint16(nil), o.Res.Picks...)
	for len(r.Picks) > 0 && r.Picks[len(r.Picks)-1] == 0 {
		r.Picks = r.Picks[:len(r.Picks)-1]
	}
	for i, n := range o.Res.PreN {
		r.Pre = append(r.Pre, Pre{n, o.Res.PreD[i]})
	}
	return r
}

func (sh *shrinker) over() bool { return time.Now().After(sh.deadline) }

func (sh *shrinker) accept(sc any, sch Schedule, o *Outcome) {
	sh.sc, sh.sch, sh.out = sc, recorded(sch, o), o
}

// attempt tries a scenario under several schedules.
func (sh *shrinker) attempt(sc any) bool {
	key := jsonOf(sc)
	if sh.tried[key] || !sh.w.valid(sc) {
		return false
	}
	sh.tried[key] = true
	list := []Schedule{{Seed: sh.sch.Seed}, sh.sch}
	r := newRand(uint64(len(key)) * 31)
	for i := 0; i < 6; i++ {
		list = append(list, genSchedule(r, false))
	}
	if len(sh.sch.Pre) > 0 {
		for i := 0; i < 4; i++ {
			list = append(list, genSchedule(r, true))
		}
	}
	for _, sch := range list {
		if sh.over() {
			return false
		}
		if o := sh.try(sc, sch); o != nil {
			sh.accept(sc, sch, o)
			return true
		}
	}
	return false
}

// variants lists simpler versions of a JSON value.
func variants(v any, emit func(any)) {
	switch x := v.(type) {
	case []any:
		n := len(x)
		for size := n; size >= 1; size /= 2 {
			for i := 0; i+size <= n; i += size {
				y := append(append([]any{}, x[:i]...), x[i+size:]...)
				emit(y)
			}
		}
		for i := range x {
			i := i
			variants(x[i], func(e any) {
				y := append([]any{}, x...)
				y[i] = e
				emit(y)
			})
		}
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cp := func() map[string]any {
			y := map[string]any{}
			for k, v := range x {
				y[k] = v
			}
			return y
		}
		for _, k := range ks {
			y := cp()
			delete(y, k)
			emit(y)
		}
		for _, k := range ks {
			k := k
			variants(x[k], func(e any) {
				y := cp()
				y[k] = e
				emit(y)
			})
		}
	case float64:
		if x != 0 {
			emit(float64(0))
			if x > 1 {
				emit(float64(1))
			}
			if h := float64(int64(x / 2)); h != 0 && h != x {
				emit(h)
			}
		}
	case bool:
		if x {
			emit(false)
		}
	case string:
		if len(x) > 8 {
			emit(x[:len(x)/2])
		}
	}
}

func (sh *shrinker) shrinkScenario() {
	for changed := true; changed && !sh.over(); {
		changed = false
		var tree any
		if json.Unmarshal([]byte(jsonOf(sh.sc)), &tree) != nil {
			return
		}
		var cands []any
		variants(tree, func(v any) {
			if len(cands) < 20000 {
				cands = append(cands, v)
			}
		})
		for _, c := range cands {
			if sh.over() {
				return
			}
			sc := sh.w.blank()
			if json.Unmarshal([]byte(jsonOf(c)), sc) != nil {
				continue
			}
			if jsonOf(sc) == jsonOf(sh.sc) {
				continue
			}
			if sh.attempt(sc) {
				changed = true
				break
			}
		}
	}
}

// shrinkSchedule removes choices that differ from the default.
func (sh *shrinker) shrinkSchedule() {
	test := func(sch Schedule) bool {
		if sh.over() {
			return false
		}
		if o := sh.try(sh.sc, sch); o != nil {
			r := recorded(sch, o)
			if weight(r) <= weight(sh.sch) {
				sh.sch, sh.out = r, o
				return true
			}
		}
		return false
	}
	if test(Schedule{Seed: sh.sch.Seed}) {
		return
	}
	for _, seed := range []uint64{1, 2, 3} {
		s := sh.sch
		s.Seed = seed
		if test(s) {
			break
		}
	}
	for n := len(sh.sch.Pre); n >= 1 && !sh.over(); n /= 2 {
		for i := 0; i < len(sh.sch.Pre); {
			s := sh.sch
			j := i + n
			if j > len(s.Pre) {
				j = len(s.Pre)
			}
			s.Pre = append(append([]Pre{}, s.Pre[:i]...), s.Pre[j:]...)
			if !test(s) {
				i += n
			}
			if sh.over() {
				break
			}
		}
	}
	for n := len(sh.sch.Picks); n >= 1 && !sh.over(); n /= 2 {
		for i := 0; i < len(sh.sch.Picks) && !sh.over(); i += n {
			s := sh.sch
			s.Picks = append([]uint16{}, s.Picks...)
			any := false
			for k := i; k < i+n && k < len(s.Picks); k++ {
				if s.Picks[k] != 0 {
					any = true
					s.Picks[k] = 0
				}
			}
			if any {
				test(s)
			}
		}
	}
}

func weight(s Schedule) int {
	n := 2 * len(s.Pre)
	for _, p := range s.Picks {
		if p != 0 {
			n += 2
		}
	}
	for _, p := range s.Pre {
		if p.D > 0 {
			n++
		}
	}
	return n
}

// shrinkMain minimises a case file into a replay file.
func shrinkMain() {
	rp, w, sc := readCase(*fShrink)
	sh := &shrinker{w: w, prop: rp.Prop, sig: rp.Sig, sc: sc, sch: rp.Sched, tried: map[string]bool{}, deadline: time.Now().Add(time.Duration(*fWall * float64(time.Second)))}
	o := sh.try(sc, rp.Sched)
	if o == nil {
		die(2, "the violation does not occur again in another process")
	}
	first := recorded(rp.Sched, o)
	if o2 := sh.try(sc, first); o2 != nil && o2.LogHash == o.LogHash {
		sh.accept(sc, first, o2)
	} else {
		rp.Note = "replays the random schedule, which could not be replayed from its record"
		sh.sc, sh.sch, sh.out = sc, rp.Sched, o
	}
	orig := len(jsonOf(sc))
	ow := weight(first)
	sh.shrinkScenario()
	sh.deadline = sh.deadline.Add(time.Duration(*fWall / 2 * float64(time.Second)))
	sh.shrinkSchedule()
	// the final run, exactly as it will be replayed
	o = sh.try(sh.sc, sh.sch)
	if o == nil {
		die(2, "the minimised run does not fail again")
	}
	rp.Scenario = json.RawMessage(jsonOf(sh.sc))
	rp.Sched = sh.sch
	rp.Detail = sh.detail
	rp.LogHash = fmt.Sprintf("%016x", o.LogHash)
	rp.Trace = nil
	for i, e := range o.Events {
		if i >= 400 {
			rp.Trace = append(rp.Trace, "...")
			break
		}
		rp.Trace = append(rp.Trace, e.String())
	}
	for _, v := range o.Viol {
		rp.Trace = append(rp.Trace, fmt.Sprintf("=> %s [%s] %s", v.Prop, v.Sig, v.Detail))
	}
	if rp.Note == "" {
		rp.Note = fmt.Sprintf("minimised in %d runs: scenario %d -> %d bytes, schedule weight %d -> %d", sh.runs, orig, len(jsonOf(sh.sc)), ow, weight(sh.sch))
	}
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		die(2, "%v", err)
	}
	if err := os.WriteFile(*fOut, b, 0666); err != nil {
		die(2, "%v", err)
	}
}
