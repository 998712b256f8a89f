// Deterministic simulation mode of the Go runtime.
//
// This file is added to package runtime through "go build -overlay" by
// /verif/vsim.py. It is never part of /repo. With sim.on false nothing in the
// runtime behaves differently. With sim.on true (and GOMAXPROCS=1):
//
//   - the choice of which goroutine runs next is taken from a seeded PRNG or
//     from a recorded tape, at every point where a goroutine yields, blocks,
//     is created or exits;
//   - nanotime, time.Now and timers run on a simulated clock that advances by
//     a fixed amount per step and jumps to the next timer when nothing is
//     runnable;
//   - all runtime randomness (map seeds and iteration order, select order,
//     math/rand top-level functions) comes from a seeded PRNG.
package runtime

import "unsafe"

const simMaxQ = 512
const simMaxLog = 1 << 16
const simClockBase = 1 << 50

type simCtl struct {
	on      bool
	stopped bool // step budget exhausted: only the controller may run
	ctl     *g   // controller goroutine, runs only when nothing else can

	q  [simMaxQ]guintptr
	nq int
	// Goroutines that are not part of the run: the runtime's own, and those
	// (finalizers, cleanups) that existed before it. They cost no decision.
	outQ      [simMaxQ]guintptr
	nout      int
	firstGoid uint64
	outsiders uint64

	next int // pre-decided pick (index+1), 0 = none

	steps     uint64 // yield points passed
	stepLimit uint64
	points    uint64 // decision points with more than one alternative
	switches  uint64 // decisions that differ from the default
	hash      uint64 // running hash of all decisions taken
	mark      uint64 // steps at last external mark

	prng uint64 // scheduling decisions
	// policy
	mode  uint8  // 0: never deviate, 1: random deviation, 2: priorities, 3: tape
	prob  uint32 // deviation probability, in 1/65536
	prio  [256]uint32
	npri  uint32
	prioG [4096]uint64 // goid last seen in this slot
	prioI [4096]uint32 // its index, in order of first appearance in the run

	tapeAt  [simMaxLog]uint64
	tapeCh  [simMaxLog]uint16
	tapeLen int
	tapePos int

	logAt    [simMaxLog]uint64
	logCh    [simMaxLog]uint16
	logLen   int
	logTrunc bool

	rand     uint64 // runtime randomness
	clock    int64
	wallBase int64
	stepNs   int64
	jumps    uint64
	maxq     int
}

var sim simCtl

// SimConfig configures a simulated run.
type SimConfig struct {
	Mode      int
	Prob      uint32
	SchedSeed uint64
	RandSeed  uint64
	WallBase  int64
	StepNs    int64
	StepLimit uint64
	TapeAt    []uint64
	TapeCh    []uint16
}

// SimStats describes a finished simulated run.
type SimStats struct {
	Steps, Points, Switches, Hash, Jumps uint64
	Clock                                int64
	Stopped                              bool
	LogAt                                []uint64
	LogCh                                []uint16
	LogTrunc                             bool
	MaxRunnable                          int
}

//go:nosplit
func simMix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimStart enters simulation mode. The calling goroutine becomes the controller.
func SimStart(c *SimConfig) {
	if gomaxprocs != 1 {
		throw("SimStart: GOMAXPROCS must be 1")
	}
	// Drain whatever the runtime wants to do in the background.
	for i := 0; i < 3; i++ {
		Gosched()
	}
	sim.nq = 0
	sim.next = 0
	sim.stopped = false
	sim.steps, sim.points, sim.switches, sim.jumps, sim.mark = 0, 0, 0, 0, 0
	sim.hash = 0xcbf29ce484222325
	sim.stepLimit = c.StepLimit
	sim.prng = c.SchedSeed
	sim.mode = uint8(c.Mode)
	sim.prob = c.Prob
	sim.npri = 0
	sim.prioG = [4096]uint64{}
	sim.tapeLen = copy(sim.tapeAt[:], c.TapeAt)
	copy(sim.tapeCh[:], c.TapeCh)
	sim.tapePos = 0
	sim.logLen = 0
	sim.logTrunc = false
	sim.rand = c.RandSeed
	sim.wallBase = c.WallBase
	sim.stepNs = c.StepNs
	sim.clock = simClockBase
	sim.maxq = 0
	for i := range sim.prio {
		sim.prio[i] = uint32(simMix(&sim.prng))
	}
	// Objects pooled by earlier runs must not be visible in this one. One
	// processor and no preemption: nobody can be inside a pool now.
	if poolcleanup != nil {
		poolcleanup()
		poolcleanup()
	}
	sim.ctl = getg()
	sim.firstGoid = getg().m.p.ptr().goidcache
	sim.on = true
}

// SimStop leaves simulation mode; must be called by the controller.
func SimStop() SimStats {
	if raceenabled {
		raceacquireg(getg(), unsafe.Pointer(&simRaceAddr))
	}
	mp := acquirem()
	sim.on = false
	lock(&sched.lock)
	for i := 0; i < sim.nq; i++ {
		globrunqput(sim.q[i].ptr())
		sim.q[i] = 0
	}
	sim.nq = 0
	for i := 0; i < sim.nout; i++ {
		globrunqput(sim.outQ[i].ptr())
		sim.outQ[i] = 0
	}
	sim.nout = 0
	unlock(&sched.lock)
	sim.ctl = nil
	releasem(mp)
	st := SimStats{
		Steps: sim.steps, Points: sim.points, Switches: sim.switches, Hash: sim.hash,
		Jumps: sim.jumps, Clock: sim.clock, Stopped: sim.stopped, LogTrunc: sim.logTrunc,
		MaxRunnable: sim.maxq,
	}
	st.LogAt = append(st.LogAt, sim.logAt[:sim.logLen]...)
	st.LogCh = append(st.LogCh, sim.logCh[:sim.logLen]...)
	return st
}

var simBoots []func()

// SimOnBoot registers a function that gives the package-level variables of one
// package the values they have when a process starts. Packages register in the
// order in which a process initialises them.
func SimOnBoot(f func()) { simBoots = append(simBoots, f) }

// SimBoot puts the code under test into the state of a process that has just
// started. Never during a run.
func SimBoot() {
	for _, f := range simBoots {
		f()
	}
}

var simRaceAddr uint64

// simRaceExit orders everything a goroutine did before what the controller
// does after the run. It orders nothing within the run.
func simRaceExit() { racereleasemergeg(getg(), unsafe.Pointer(&simRaceAddr)) }

var simOffSteps, simOffLimit uint64

// SimOffBudget bounds the steps the code under test may take outside the
// simulation (building inputs and references) before it panics.
func SimOffBudget(n uint64) { simOffSteps, simOffLimit = 0, n }

// simCPUs is the number of processors the simulated machine claims to have;
// with 0 the real one answers. simProcs is what GOMAXPROCS was set to.
var simCPUs, simProcs int

// SimCPUs gives the simulated machine n processors.
func SimCPUs(n int) { simCPUs, simProcs = n, n }

func simSetProcs(n int) int {
	old := simProcs
	if n > 0 {
		simProcs = n
	}
	return old
}

// SimFill stands in for the system's entropy source.
func SimFill(b []byte) bool {
	if !sim.on {
		return false
	}
	for i := range b {
		b[i] = byte(simMix(&sim.rand))
	}
	return true
}

// SimActive reports whether simulation mode is on.
func SimActive() bool { return sim.on }

// SimSteps returns the number of yield points passed in this run: the
// simulator's global event sequence number.
func SimSteps() uint64 { return sim.steps }

// SimExhausted reports whether the step budget was exceeded.
func SimExhausted() bool { return sim.stopped }

// SimWaitIdle parks the controller until no other goroutine can run (all have
// exited or are blocked forever) or the step budget is exhausted.
func SimWaitIdle() {
	if getg() != sim.ctl {
		throw("SimWaitIdle: not the controller")
	}
	mcall(gosched_m)
}

// SimYield is a preemption point. A call is inserted before every statement of
// the code under test.
func SimYield() {
	if !sim.on {
		if simOffLimit != 0 {
			simOffSteps++
			if simOffSteps > simOffLimit {
				simOffSteps = 0
				panic(plainError("sim: step budget exceeded outside the simulation"))
			}
		}
		return
	}
	gp := getg()
	if gp == sim.ctl || gp.m.curg != gp || gp.m.locks != 0 || gp.m.mallocing != 0 {
		return
	}
	sim.steps++
	sim.clock += sim.stepNs
	if sim.steps > sim.stepLimit {
		sim.stopped = true
	}
	if sim.stopped {
		mcall(gosched_m)
		return
	}
	mp := acquirem()
	pp := mp.p.ptr()
	simDrain(pp)
	n := simCandidates()
	if n == 0 {
		releasem(mp)
		return
	}
	d := simDecide(n+1, gp)
	if d != 0 {
		sim.next = d
	}
	releasem(mp)
	if d != 0 {
		mcall(gosched_m)
	}
}

// simCandidates returns the number of queued goroutines other than the
// controller. The controller, when queued, is kept at the end of the queue.
//
//go:nosplit
func simCandidates() int {
	n := sim.nq
	if n > 0 && sim.q[n-1].ptr() == sim.ctl {
		n--
	}
	return n
}

func simPush(gp *g) {
	if gp != sim.ctl && (gp.goid < sim.firstGoid || isSystemGoroutine(gp, false)) {
		if sim.nout >= simMaxQ {
			throw("sim: system queue overflow")
		}
		sim.outQ[sim.nout].set(gp)
		sim.nout++
		return
	}
	if sim.nq >= simMaxQ {
		throw("sim: run queue overflow")
	}
	n := sim.nq
	if n > 0 && sim.q[n-1].ptr() == sim.ctl {
		sim.q[n] = sim.q[n-1]
		sim.q[n-1].set(gp)
	} else {
		sim.q[n].set(gp)
	}
	sim.nq++
	if sim.nq > sim.maxq {
		sim.maxq = sim.nq
	}
}

// simDrain moves every runnable goroutine of the scheduler queues to the
// simulator's queue.
func simDrain(pp *p) {
	for {
		gp, _ := runqget(pp)
		if gp == nil {
			break
		}
		simPush(gp)
	}
	if !sched.runq.empty() {
		lock(&sched.lock)
		for {
			gp := globrunqget()
			if gp == nil {
				break
			}
			simPush(gp)
		}
		unlock(&sched.lock)
	}
}

func simTake(i int) *g {
	gp := sim.q[i].ptr()
	copy(sim.q[i:sim.nq-1], sim.q[i+1:sim.nq])
	sim.nq--
	sim.q[sim.nq] = 0
	return gp
}

// simPrio returns the priority slot of gp. Slots are numbered by first
// appearance in the run, so they do not depend on what ran before.
func simPrio(gp *g) *uint32 {
	h := gp.goid & 4095
	if sim.prioG[h] != gp.goid {
		sim.prioG[h] = gp.goid
		sim.prioI[h] = sim.npri
		sim.npri++
	}
	return &sim.prio[sim.prioI[h]&255]
}

// simDecide chooses one of n alternatives; 0 is the default. self is the
// running goroutine when alternative 0 is "keep running".
func simDecide(n int, self *g) int {
	sim.points++
	d := 0
	switch sim.mode {
	case 1:
		r := simMix(&sim.prng)
		if uint32(r&0xffff) < sim.prob {
			d = int((r >> 16) % uint64(n))
		}
	case 2:
		// Random priorities, reshuffled at random change points.
		r := simMix(&sim.prng)
		if uint32(r&0xffff) < sim.prob {
			sim.prio[(r>>16)&255] = uint32(r >> 32)
			if (r>>24)&3 == 0 {
				for i := range sim.prio {
					sim.prio[i] = uint32(simMix(&sim.prng))
				}
			}
		}
		var best uint32
		off := 0
		if self != nil {
			best = *simPrio(self)
			off = 1
		} else {
			best = *simPrio(sim.q[0].ptr())
		}
		for i := 0; i+off < n; i++ {
			if p := *simPrio(sim.q[i].ptr()); p > best {
				best = p
				d = i + off
			}
		}
	case 3:
		for sim.tapePos < sim.tapeLen && sim.tapeAt[sim.tapePos] < sim.points {
			sim.tapePos++
		}
		if sim.tapePos < sim.tapeLen && sim.tapeAt[sim.tapePos] == sim.points {
			d = int(sim.tapeCh[sim.tapePos]) % n
			sim.tapePos++
		}
	}
	sim.hash = (sim.hash ^ uint64(d)<<8 ^ uint64(n)) * 0x100000001b3
	if d != 0 {
		sim.switches++
		if sim.logLen < simMaxLog {
			sim.logAt[sim.logLen] = sim.points
			sim.logCh[sim.logLen] = uint16(d)
			sim.logLen++
		} else {
			sim.logTrunc = true
		}
	}
	return d
}

// simPick is called by findRunnable in simulation mode.
func simPick(pp *p) *g {
	for {
		simDrain(pp)
		if sim.nout > 0 {
			gp := sim.outQ[0].ptr()
			copy(sim.outQ[:sim.nout-1], sim.outQ[1:sim.nout])
			sim.nout--
			sim.outQ[sim.nout] = 0
			sim.outsiders++
			return gp
		}
		n := simCandidates()
		if sim.stopped && sim.nq > n {
			return simTake(sim.nq - 1)
		}
		if n > 0 {
			d := 0
			if sim.next > 0 {
				d = sim.next - 1
				sim.next = 0
				if d >= n {
					throw("sim: bad pre-decided pick")
				}
			} else if n > 1 {
				d = simDecide(n, nil)
			}
			return simTake(d)
		}
		sim.next = 0
		// Nothing but the controller can run: jump to the next timer, if any.
		if w := pp.timers.wakeTime(); w != 0 && w < maxWhen && !sim.stopped {
			if w > sim.clock {
				sim.clock = w
			}
			sim.jumps++
			sim.steps++
			if sim.steps > sim.stepLimit {
				sim.stopped = true
			}
			pp.timers.check(sim.clock, nil)
			continue
		}
		if sim.nq > 0 {
			return simTake(sim.nq - 1)
		}
		return nil
	}
}

// simRandn replaces cheaprandn where the result is visible to programs.
//
//go:nosplit
func simRandn(n uint32) uint32 {
	if sim.on {
		return uint32((uint64(uint32(simMix(&sim.rand))) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

func simNow() (sec int64, nsec int32, mono int64) {
	ns := sim.wallBase + (sim.clock - simClockBase)
	return ns / 1e9, int32(ns % 1e9), sim.clock
}
