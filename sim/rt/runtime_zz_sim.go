// Deterministic simulation support, added to package runtime by the overlay
// that /verif/sim/build generates. Everything here is inert until SimRun.

package runtime

import (
	"internal/runtime/sys"
	"unsafe"
)

// SimConfig configures one simulated run.
type SimConfig struct {
	Seed uint64 // seeds goroutine-local random streams and the scheduler

	// Mode 0: follow Picks/PreN (0 and nothing beyond their ends).
	// Mode 1: random scheduling. Mode 2: priorities with change points (PCT).
	Mode      int
	PickProb  uint32 // mode 1: of 65536, how often a random goroutine is picked instead of the oldest
	LifoProb  uint32 // mode 1: of 65536, how often the newest is picked
	PreProb   uint32 // of 65536, how often a preemption point yields
	StallProb uint32 // of 65536, how often a preemption point stalls in simulated time
	StallMax  int64  // ns
	Change    [8]uint64

	Picks []uint16 // replay
	PreN  []uint64
	PreD  []int64

	MaxPoints uint64 // a run passing more preemption points is stopped
	MaxPicks  uint64

	OnIdle  func(now, next int64) bool // every goroutine is blocked; next is the next timer, 0 if none
	OnFatal func(v any, kind string)   // a goroutine panicked, called os.Exit or hit a fatal error
}

// SimResult is what a run recorded.
type SimResult struct {
	Picks    []uint16
	PreN     []uint64
	PreD     []int64
	Points   uint64
	NPicks   uint64 // scheduling decisions with more than one candidate
	Switches uint64
	Hash     uint64 // of the sequence of goroutines run
	Overrun  bool   // MaxPoints or MaxPicks exceeded
	Full     bool   // recording buffers were too small
	Stalls   uint64
	Yields   uint64
	Trap     uintptr // a system call outside the simulated kernel, 0 if none
}

const simMaxG = 8192

var (
	simActive bool
	simBubble *synctestBubble
	simCfg    *SimConfig
	simRes    SimResult
	simEpoch  uint64

	simList   [simMaxG]guintptr
	simN      int
	simOther  [simMaxG]guintptr
	simNOther int

	simSched   uint64 // scheduler random state
	simPickI   int
	simPreI    int
	simLow     uint64
	simTrapOK  [512]bool
	simNextTmr uint64
)

func simMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func simSchedRand() uint64 {
	simSched += 0x9e3779b97f4a7c15
	x := simSched
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// simUserG returns the current goroutine if it belongs to the simulation.
//
//go:nosplit
func simUserG() *g {
	if !simActive {
		return nil
	}
	gp := getg()
	if gp.m == nil || gp.m.curg != gp || gp.bubble == nil || gp.bubble != simBubble {
		return nil
	}
	return gp
}

// SimIn reports whether the caller runs inside an active simulation.
//
//go:nosplit
func SimIn() bool { return simUserG() != nil }

//go:nosplit
func simRand(gp *g) uint64 {
	gp.simRand += 0x9e3779b97f4a7c15
	x := gp.simRand
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// simRandn replaces cheaprandn where the result can be observed.
//
//go:nosplit
func simRandn(n uint32) uint32 {
	if gp := simUserG(); gp != nil {
		return uint32((uint64(uint32(simRand(gp)>>32)) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

// SimRand64 draws from the calling goroutine's stream.
func SimRand64() uint64 {
	if gp := simUserG(); gp != nil {
		return simRand(gp)
	}
	return rand()
}

// SimGetRand and SimSetRand let code that runs once per process leave the
// calling goroutine's stream as it was.
func SimGetRand() uint64 { return getg().simRand }

func SimSetRand(s uint64) {
	if gp := simUserG(); gp != nil {
		gp.simRand = s
	}
}

// simNewG initialises a new goroutine's simulation state. Runs on g0.
func simNewG(newg, callergp *g) {
	newg.simKids = 0
	newg.simHarness = false
	newg.simStall = false
	newg.simPrio = 0
	newg.simID = 0
	if !simActive || newg.bubble == nil || newg.bubble != simBubble {
		return
	}
	if callergp.m != nil && callergp == callergp.m.g0 {
		// started by a timer
		simNextTmr++
		newg.simID = simMix(0x7157 ^ simNextTmr<<20)
	} else {
		callergp.simKids++
		newg.simID = simMix(callergp.simID + uint64(callergp.simKids)*0x10001)
		newg.simHarness = callergp.simHarness
	}
	newg.simRand = simMix(newg.simID ^ simCfg.Seed)
	newg.simPrio = 1<<32 + simMix(newg.simID^simCfg.Seed<<1)>>32
}

func simEnq(gp *g) {
	if gp.bubble != nil && gp.bubble == simBubble {
		if simN >= simMaxG {
			throw("sim: too many goroutines")
		}
		simList[simN].set(gp)
		simN++
		return
	}
	if simNOther >= simMaxG {
		throw("sim: too many goroutines")
	}
	simOther[simNOther].set(gp)
	simNOther++
}

func simDrain(pp *p) {
	for {
		gp, _ := runqget(pp)
		if gp == nil {
			break
		}
		simEnq(gp)
	}
	if !sched.runq.empty() {
		lock(&sched.lock)
		for {
			gp := globrunqget()
			if gp == nil {
				break
			}
			simEnq(gp)
		}
		unlock(&sched.lock)
	}
}

// simPick chooses the goroutine to run next. Runs on g0.
func simPick(pp *p) *g {
	simDrain(pp)
	if simNOther > 0 {
		gp := simOther[0].ptr()
		simNOther--
		copy(simOther[:simNOther], simOther[1:simNOther+1])
		return gp
	}
	n := simN
	if n == 0 {
		return nil
	}
	k := 0
	if n > 1 {
		k = simDecide(n)
		simRes.NPicks++
		if simRes.NPicks > simCfg.MaxPicks {
			simRes.Overrun = true
		}
	}
	gp := simList[k].ptr()
	simN--
	for i := k; i < simN; i++ {
		simList[i] = simList[i+1]
	}
	simRes.Switches++
	simRes.Hash = simMix(simRes.Hash ^ gp.simID)
	return gp
}

func simDecide(n int) int {
	k := 0
	switch simCfg.Mode {
	case 0:
		if simPickI < len(simCfg.Picks) {
			k = int(simCfg.Picks[simPickI]) % n
		}
	case 1:
		r := simSchedRand()
		switch {
		case uint32(r&0xffff) < simCfg.PickProb:
			k = int((r >> 32) % uint64(n))
		case uint32(r>>16&0xffff) < simCfg.LifoProb:
			k = n - 1
		}
	case 2:
		best := uint64(0)
		for i := 0; i < n; i++ {
			if pr := simList[i].ptr().simPrio; pr > best {
				best = pr
				k = i
			}
		}
	}
	simPickI++
	if len(simRes.Picks) < cap(simRes.Picks) {
		simRes.Picks = simRes.Picks[:len(simRes.Picks)+1]
		simRes.Picks[len(simRes.Picks)-1] = uint16(k)
	} else {
		simRes.Full = true
	}
	return k
}

// SimPoint is a preemption point.
func SimPoint() {
	gp := simUserG()
	if gp == nil {
		return
	}
	n := simRes.Points
	simRes.Points++
	c := simCfg
	if simRes.Overrun || n >= c.MaxPoints {
		simRes.Overrun = true
		simParkForever()
	}
	yield, stall := false, int64(0)
	switch c.Mode {
	case 0:
		for simPreI < len(c.PreN) && c.PreN[simPreI] < n {
			simPreI++
		}
		if simPreI < len(c.PreN) && c.PreN[simPreI] == n {
			yield = true
			stall = c.PreD[simPreI]
		}
	case 1:
		r := simSchedRand()
		if uint32(r&0xffff) < c.PreProb {
			yield = true
		}
		if c.StallProb > 0 && uint32(r>>16&0xffff) < c.StallProb {
			yield = true
			stall = int64((r>>32)%uint64(c.StallMax>>(4*((r>>60)&3))+1)) + 1
		}
	case 2:
		for _, x := range &c.Change {
			if x == n+1 {
				simLow++
				gp.simPrio = 1<<20 - simLow
			}
		}
		systemstack(func() {
			simDrain(getg().m.p.ptr())
			for i := 0; i < simN; i++ {
				if simList[i].ptr().simPrio > gp.simPrio {
					yield = true
				}
			}
		})
		if c.StallProb > 0 {
			r := simSchedRand()
			if uint32(r>>16&0xffff) < c.StallProb {
				yield = true
				stall = int64((r>>32)%uint64(c.StallMax>>(4*((r>>60)&3))+1)) + 1
			}
		}
	}
	if !yield {
		return
	}
	if len(simRes.PreN) < cap(simRes.PreN) {
		i := len(simRes.PreN)
		simRes.PreN = simRes.PreN[:i+1]
		simRes.PreN[i] = n
		simRes.PreD = simRes.PreD[:i+1]
		simRes.PreD[i] = stall
	} else {
		simRes.Full = true
	}
	if stall > 0 {
		simRes.Stalls++
		gp.simStall = true
		timeSleep(stall)
		gp.simStall = false
		return
	}
	simRes.Yields++
	Gosched()
}

func simParkForever() {
	for {
		gopark(nil, nil, waitReasonSelectNoCases, traceBlockForever, 1)
	}
}

// SimStop records v as the end of the calling goroutine and parks it for good.
func SimStop(v any, kind string) {
	gp := simUserG()
	if gp == nil {
		return
	}
	if simCfg.OnFatal != nil {
		simCfg.OnFatal(v, kind)
	}
	simParkForever()
}

func simFatal(s string) {
	if gp := simUserG(); gp != nil && gp.m.locks == 0 && gp != simBubble.root {
		SimStop(s, "fatal error")
	}
}

//go:nosplit
func SimGuard(trap uintptr) bool {
	if simUserG() == nil {
		return false
	}
	if trap >= 512 || !simTrapOK[trap] {
		simRes.Trap = trap
		if trap == 0 {
			simRes.Trap = 1 << 20
		}
	}
	return true
}

// SimTrapOK lists system calls that may quietly fail with ENOSYS.
func SimTrapOK(trap uintptr) { simTrapOK[trap] = true }

// SimMark marks the calling goroutine, and those it starts, as part of the
// simulated environment rather than of the system under test.
func SimMark(harness bool) { getg().simHarness = harness }

// SimID identifies the calling goroutine.
func SimID() uint64 { return getg().simID }

// SimEpoch is the number of the active run, 0 outside.
//
//go:nosplit
func SimEpoch() uint64 {
	if simUserG() != nil {
		return simEpoch
	}
	return 0
}

// SimG describes a goroutine of the simulation.
type SimG struct {
	ID      uint64
	Harness bool
	Stalled bool
	Running bool
	Wait    string
	Start   string
}

// SimGoroutines lists the goroutines of the current run except its root and the caller.
func SimGoroutines() []SimG {
	me := getg()
	b := simBubble
	if b == nil {
		return nil
	}
	var out []SimG
	for i := uintptr(0); i < allglen; i++ {
		gp := allgs[i]
		if gp == me || gp.bubble != b || gp == b.root {
			continue
		}
		st := readgstatus(gp) &^ _Gscan
		if st == _Gdead || st == _Gidle || st == _Gdeadextra {
			continue
		}
		x := SimG{ID: gp.simID, Harness: gp.simHarness, Stalled: gp.simStall, Running: st != _Gwaiting}
		if st == _Gwaiting {
			x.Wait = gp.waitreason.String()
		}
		if f := findfunc(gp.startpc); f.valid() {
			x.Start = funcname(f)
		}
		out = append(out, x)
	}
	return out
}

// SimNow is the simulated time in ns.
func SimNow() int64 {
	if b := simBubble; b != nil {
		return b.now
	}
	return 0
}

// SimProgress returns counters of the current run.
func SimProgress() (points, switches uint64) { return simRes.Points, simRes.Switches }

// SimOverrun reports whether the run has exceeded its bounds.
func SimOverrun() bool { return simRes.Overrun }

// SimRun executes f and everything it starts as one simulated run. The panic
// value, if the run could not end normally (goroutines left blocked), is
// returned as err.
func SimRun(c *SimConfig, res *SimResult, f func()) (err any) {
	if getg().bubble != nil || simActive {
		panic("sim: nested run")
	}
	if gomaxprocs != 1 {
		panic("sim: GOMAXPROCS must be 1")
	}
	defer func() {
		simActive = false
		systemstack(func() {
			pp := getg().m.p.ptr()
			for i := 0; i < simNOther; i++ {
				runqput(pp, simOther[i].ptr(), false)
			}
			simNOther = 0
			simN = 0
		})
		*res = simRes
		simBubble = nil
		err = recover()
	}()
	simEpoch++
	simCfg = c
	simRes = SimResult{Picks: res.Picks[:0], PreN: res.PreN[:0], PreD: res.PreD[:0]}
	simN, simNOther, simPickI, simPreI = 0, 0, 0, 0
	simSched = simMix(c.Seed ^ 0x5ced)
	simLow, simNextTmr = 0, 0
	synctestRun(f)
	return nil
}

// simStart is called by synctestRun once the bubble exists.
func simStart(b *synctestBubble) {
	if simCfg == nil || simActive {
		return
	}
	gp := getg()
	gp.simID = simMix(0x5157)
	gp.simKids = 0
	gp.simRand = simMix(gp.simID ^ simCfg.Seed)
	gp.simHarness = true
	simBubble = b
	simActive = true
}

// simIdle is called on the root goroutine when everything is blocked; it
// reports whether something was made runnable.
func simIdle(b *synctestBubble, next int64) bool {
	if !simActive || b != simBubble || simCfg.OnIdle == nil || b.done {
		return false
	}
	return simCfg.OnIdle(b.now, next)
}

var _ = sys.GetCallerPC
var _ = unsafe.Pointer(nil)

// package variables: every simulated run begins as a new process does, so the
// packages under test register functions that initialise them again

var simInits []func()

// SimOnInit registers f, which initialises a package's variables again.
func SimOnInit(f func()) { simInits = append(simInits, f) }

// SimInit initialises the variables of the packages under test again.
func SimInit() {
	for _, f := range simInits {
		f()
	}
}
