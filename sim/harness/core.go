//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	exprand "golang.org/x/exp/rand"
)

func simYield() { runtime.SimYield() }

// ---------------------------------------------------------------- randomness

// rng is the only source of randomness of the workload generator.
type rng struct {
	s    uint64
	grid bool // u draws from few values, so that they often coincide

	// the draw-th draw differs from what it would be, entirely (how 0) or by
	// a small amount
	draw, how int
	nudge     float64
}

func newRng(parts ...uint64) *rng {
	r := &rng{s: 0x243f6a8885a308d3}
	for _, p := range parts {
		r.s ^= p
		r.u64()
	}
	return r
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	r.nudge = 0
	if r.draw > 0 {
		if r.draw--; r.draw == 0 {
			if r.how == 0 {
				z ^= 0x1d8e4e27c47d124f
			} else {
				r.nudge = []float64{1e-13, 1e-10, 1e-8, 1e-5, 1e-3, 0.03, -0.03}[r.how-1]
			}
		}
	}
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(n int) int {
	v := int(r.u64() % uint64(n))
	if r.nudge != 0 {
		v = (v + 1) % n // a small choice differs by one
	}
	return v
}
func (r *rng) rangei(lo, hi int) int { return lo + r.n(hi-lo+1) }
func (r *rng) f() float64            { return float64(r.u64()>>11) / (1 << 53) }
func (r *rng) u(lo, hi float64) float64 {
	f := r.f()
	nudge := r.nudge
	if r.grid {
		g := math.Floor(f*3)/3 + 0.2
		switch x := f*3 - math.Floor(f*3); {
		case x < 0.06:
			g += 1e-4
		case x < 0.1:
			g += 1e-9
		}
		f = g
	}
	f += nudge
	return lo + (hi-lo)*f
}

// gridBit in the seed of a Node makes its parameters coincide with those of
// other nodes, completely or nearly, more often than chance would.
const gridBit = 1 << 40

func paramRng(seed uint64) *rng {
	r := newRng(seed&(1<<siblingShift-1), 77)
	r.grid = seed&gridBit != 0
	r.draw, r.how = int(seed>>siblingShift&15), int(seed>>(siblingShift+4)&7)
	return r
}

// The bits from siblingShift on in the seed of a Node make one of its
// parameters differ from those of the node without them.
const siblingShift = 41

// sibling returns the seed of a node like that of seed but for one parameter.
func sibling(r *rng, seed uint64) uint64 {
	how := 0
	if r.p(0.5) {
		how = r.rangei(1, 7)
	}
	return seed&(1<<siblingShift-1) | uint64(r.rangei(1, []int{3, 6}[r.n(2)]))<<siblingShift | uint64(how)<<(siblingShift+4)
}

func (r *rng) sign() float64 { return float64(2*r.n(2) - 1) }

func (r *rng) p(p float64) bool { return r.f() < p }

// ---------------------------------------------------------------------- spec

// Sched says how scheduling decisions are made.
type Sched struct {
	Mode int         `json:"mode"` // 0 sequential, 1 random, 2 priorities, 3 tape
	Prob uint32      `json:"prob,omitempty"`
	Seed uint64      `json:"seed,omitempty"`
	Tape [][2]uint64 `json:"tape,omitempty"` // [decision point, choice], others default
}

// Crash stops the machine after mutation At, with Torn bytes of the next write.
type Crash struct {
	At   int `json:"at"`
	Torn int `json:"torn"`
}

// Step is one scripted reply of a renderer, reader or writer.
type Step struct {
	N   int    `json:"n"`
	Err string `json:"err,omitempty"` // "", "eof", "fail", "short" (writer: n < len without error)
	Rep int    `json:"rep,omitempty"` // further calls answered in the same way
}

// moves reports whether repeating steps ever gets anywhere.
func moves(steps []Step) bool {
	for _, st := range steps {
		if st.N != 0 {
			return true
		}
	}
	return false
}

// script hands out the steps one call at a time.
type script struct {
	steps []Step
	i     int
	reps  int
	cycle bool
}

func (s *script) next() Step {
	if s.i >= len(s.steps) {
		if !s.cycle || !moves(s.steps) {
			return Step{N: -1}
		}
		s.i = 0
	}
	st := s.steps[s.i]
	if s.reps < st.Rep {
		s.reps++
		st.Err = ""
		return st
	}
	s.i++
	s.reps = 0
	return st
}

// Op is one step of a generated operation history.
type Op struct {
	Op    string  `json:"op"`
	Path  string  `json:"path,omitempty"`
	N     int     `json:"n,omitempty"`
	Seed  uint64  `json:"seed,omitempty"`
	Steps []Step  `json:"steps,omitempty"`
	Shape *Node   `json:"shape,omitempty"`
	Cells int     `json:"cells,omitempty"`
	Conc  int     `json:"conc,omitempty"`
	Chunk []int   `json:"chunk,omitempty"`
	X     float64 `json:"x,omitempty"`
}

// Spec is one complete simulated run. A run is a pure function of its Spec and
// the code under test.
type Spec struct {
	Prop   string `json:"prop"`
	Scn    string `json:"scn"`
	Seed   uint64 `json:"seed"`
	Index  uint64 `json:"index"`
	Shape  *Node  `json:"shape,omitempty"`
	Cells  int    `json:"cells,omitempty"`
	Conc   int    `json:"conc,omitempty"`
	Chunk  []int  `json:"chunk,omitempty"`
	N      int    `json:"n,omitempty"`
	M      int    `json:"m,omitempty"`
	DSeed  uint64 `json:"dseed,omitempty"`
	Steps  []Step `json:"steps,omitempty"`
	Tasks  [][]Op `json:"tasks,omitempty"`
	K      KSpec  `json:"kernel"`
	Crash  *Crash `json:"crash,omitempty"`
	Sched  Sched  `json:"sched"`
	Rand   uint64 `json:"rand"`
	Wall   int64  `json:"wall"`
	Budget uint64 `json:"step_budget,omitempty"`
}

func (s *Spec) clone() *Spec {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	c := new(Spec)
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// workloadHash covers what the run does and which faults it meets, not the
// seeds that only steer scheduling.
func (s *Spec) workloadHash() uint64 {
	c := *s
	c.Seed, c.Index, c.Rand, c.Wall, c.Sched = 0, 0, 0, 0, Sched{}
	b, err := json.Marshal(&c)
	if err != nil {
		panic(err)
	}
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// ------------------------------------------------------------------- results

// Violation is one property violation observed in a run.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Result is what one run produced.
type Result struct {
	Viol       []Violation    `json:"viol,omitempty"`
	Skip       string         `json:"skip,omitempty"`
	Steps      uint64         `json:"steps"`
	Points     uint64         `json:"points"`
	Switches   uint64         `json:"switches"`
	Hash       uint64         `json:"hash"` // schedule + fault + output hash
	ILHash     uint64         `json:"il_hash"`
	SimNs      int64          `json:"sim_ns"`
	Fired      map[string]int `json:"fired,omitempty"`
	Probe      map[string]int `json:"probe,omitempty"`
	Nontrivial bool           `json:"nontrivial"`
	Evals      int            `json:"evals"` // oracle evaluations
	Fatal      bool           `json:"fatal,omitempty"`
	Tape       [][2]uint64    `json:"tape,omitempty"`
	TapeTrunc  bool           `json:"tape_trunc,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	Tail       string         `json:"tail,omitempty"`
}

// run is the state of one simulated execution.
type run struct {
	spec *Spec
	k    *kernel
	res  *Result
	out  uint64 // running hash of observed outputs
}

func (r *run) fail(class, format string, args ...interface{}) {
	if len(r.res.Viol) < 8 {
		msg := fmt.Sprintf(format, args...)
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		r.res.Viol = append(r.res.Viol, Violation{r.spec.Prop, class, msg})
	}
}

func (r *run) probe(name string) { r.res.Probe[name]++ }

func (r *run) observe(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	r.out = (r.out ^ h.Sum64()) * 0x100000001b3
}

// outcome of one simulated phase.
type outcome struct {
	done     bool
	panicked string
	leaked   int
	st       runtime.SimStats
}

const defaultBudget = 40_000_000

// offBudget bounds the steps of everything a run computes outside the
// simulated machine: inputs, references, oracles.
const offBudget = 400_000_000

// simulate runs body as the only initial task of a simulated machine with
// kernel k, until everything has finished or nothing can make progress.
func (r *run) simulate(sched Sched, body func()) outcome {
	return r.simulateSys(newKernel(KSpec{}), sched, r.spec.Rand, r.spec.Wall, func(*syscalls) { body() })
}

func (r *run) simulateSys(k *kernel, sched Sched, randSeed uint64, wall int64, body func(sys *syscalls)) outcome {
	cfg := runtime.SimConfig{
		Mode: sched.Mode, Prob: sched.Prob, SchedSeed: sched.Seed, RandSeed: randSeed,
		WallBase: wall, StepNs: 100, StepLimit: r.spec.Budget,
	}
	if cfg.StepLimit == 0 {
		cfg.StepLimit = defaultBudget
	}
	for _, t := range sched.Tape {
		cfg.TapeAt = append(cfg.TapeAt, t[0])
		cfg.TapeCh = append(cfg.TapeCh, uint16(t[1]))
	}
	var done int32
	var pan atomic.Value
	before := runtime.NumGoroutine()
	sys := &syscalls{k: k}
	exprand.Seed(randSeed) // gonum draws from this process-wide source
	// Every machine has its own number of processors and process id.
	env := newRng(randSeed, 77)
	runtime.SimCPUs([]int{1, 2, 3, 4, 6, 8, 12, 16, 64, 192}[env.n(10)])
	syscall.SimPID = env.rangei(2, 1<<22)
	restore := machine(env)
	syscall.SimK = sys
	runtime.SimStart(&cfg)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				pan.Store(fmt.Sprintf("%v\n%s", e, trimStack(debug.Stack())))
			}
			atomic.StoreInt32(&done, 1)
		}()
		body(sys)
	}()
	runtime.SimWaitIdle()
	fin := atomic.LoadInt32(&done) == 1
	leaked := runtime.NumGoroutine() - before
	st := runtime.SimStop()
	syscall.SimK = nil
	restore()
	runtime.SimCPUs(4)
	sys.mu.Lock() // everything the tasks did before their last system call
	sys.mu.Unlock()
	o := outcome{done: fin, leaked: leaked, st: st}
	if v := pan.Load(); v != nil {
		o.panicked = v.(string)
	}
	r.res.Steps += st.Steps
	r.res.Points += st.Points
	r.res.Switches += st.Switches
	r.res.SimNs += int64(st.Steps)*100 + int64(st.Jumps)
	r.res.ILHash = (r.res.ILHash ^ st.Hash) * 0x100000001b3
	for i := range st.LogAt {
		r.res.Tape = append(r.res.Tape, [2]uint64{st.LogAt[i], uint64(st.LogCh[i])})
	}
	r.res.TapeTrunc = r.res.TapeTrunc || st.LogTrunc
	for n, c := range k.fired {
		r.res.Fired[n] += c
	}
	if len(r.res.Trace) < 4000 {
		r.res.Trace = append(r.res.Trace, k.trace...)
	}
	if len(k.bad) > 0 {
		r.res.Skip = "unmodelled system call: " + strings.Join(k.bad, ",")
	}
	if !fin || st.Stopped || leaked > 0 {
		// Goroutines of this run are still around: the process cannot be reused.
		r.res.Fatal = true
	}
	return o
}

// machine gives the process a user, a host, a time zone and an environment
// that no result may depend on. It returns a function that restores the rest.
func machine(r *rng) func() {
	name := []string{"root", "ana", "build", "x"}[r.n(4)] + fmt.Sprint(r.n(1000))
	syscall.SimHost = "host-" + fmt.Sprint(r.n(1000))
	syscall.SimUID = r.n(1 << 16)
	vars := [][2]string{{"USER", name}, {"LOGNAME", name}, {"USERNAME", name}, {"HOME", "/home/" + name}, {"HOSTNAME", syscall.SimHost},
		{"LANG", []string{"C", "de_DE.UTF-8", "en_US.UTF-8", "tr_TR"}[r.n(4)]}, {"LC_ALL", []string{"", "C", "fr_FR.UTF-8"}[r.n(3)]},
		{"TZ", []string{"", "UTC", "Asia/Tokyo", "America/Lima"}[r.n(4)]}, {"SHELL", []string{"/bin/sh", "/bin/zsh"}[r.n(2)]},
		{"DEBUG", []string{"", "1"}[r.n(2)]}, {"VERBOSE", []string{"", "1"}[r.n(2)]}, {"CI", []string{"", "true"}[r.n(2)]},
		{"EDITOR", "ed" + fmt.Sprint(r.n(9))}, {"COLUMNS", fmt.Sprint(r.rangei(20, 200))}}
	for _, v := range vars {
		os.Setenv(v[0], v[1]) // never unset: package syscall would keep a hole for it
	}
	local, args := time.Local, os.Args
	time.Local = time.FixedZone("zone"+fmt.Sprint(r.n(9)), 900*r.rangei(-48, 56))
	os.Args = append([]string{"/home/" + name + "/tool" + fmt.Sprint(r.n(99))}, os.Args[1:]...)
	return func() { time.Local, os.Args = local, args }
}

// settle reports the generic failures of a phase; it returns false when the
// phase did not complete.
func (r *run) settle(o outcome, what string) bool {
	switch {
	case o.panicked != "":
		r.fail("panic", "%s panicked: %s", what, o.panicked)
		return false
	case o.st.Stopped:
		r.fail("livelock", "%s made no end of progress: %d scheduling steps without finishing", what, o.st.Steps)
		return false
	case !o.done:
		r.fail("deadlock", "%s deadlocked: no goroutine can run and the operation has not returned (after %d steps)", what, o.st.Steps)
		return false
	}
	return true
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "\t") && strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverifsim") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, " <- ")
}

// ------------------------------------------------------------------- registry

type property struct {
	id     string
	race   bool // also run under the race detector
	gen    func(s *Spec, r *rng)
	exec   func(r *run)
	shrink func(s *Spec) []*Spec // extra, property specific candidates
}

var properties = map[string]*property{}

func register(p *property) { properties[p.id] = p }

func propIDs() []string {
	var ids []string
	for id := range properties {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func generate(prop string, seed, index uint64) *Spec {
	p := properties[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", prop)
		os.Exit(3)
	}
	h := fnv.New64a()
	h.Write([]byte(prop))
	r := newRng(seed, h.Sum64(), index)
	s := &Spec{Prop: prop, Seed: seed, Index: index}
	s.Rand = r.u64()
	s.Wall = 1_000_000_000 * int64(r.n(2_000_000_000))
	s.Sched = genSched(r)
	runtime.SimOffBudget(offBudget)
	p.gen(s, r)
	return s
}

func genSched(r *rng) Sched {
	s := Sched{Seed: r.u64()}
	switch k := r.n(10); {
	case k == 0:
		s.Mode = 0
	case k <= 6:
		s.Mode = 1
		s.Prob = []uint32{40, 200, 800, 3000, 12000, 40000, 65536}[r.n(7)]
	default:
		s.Mode = 2
		s.Prob = []uint32{30, 150, 600, 3000}[r.n(4)]
	}
	return s
}

func execute(s *Spec) *Result {
	r := &run{spec: s, res: &Result{Fired: map[string]int{}, Probe: map[string]int{}}}
	workload := s.workloadHash()
	exprand.Seed(1)
	runtime.SimBoot()
	races := raceErrors()
	runtime.SimOffBudget(offBudget)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if runtime.SimActive() {
					panic(e)
				}
				class := "panic"
				if strings.Contains(fmt.Sprint(e), "step budget exceeded") {
					class = "livelock"
				}
				r.fail(class, "used alone, outside any concurrency or fault: %v\n%s", e, trimStack(debug.Stack()))
			}
		}()
		properties[s.Prop].exec(r)
	}()
	if n := raceErrors() - races; n > 0 {
		r.fail("data-race", "the race detector reported %d unsynchronised access pair(s) (see the race report)", n)
	}
	r.res.Hash = (workload^r.res.ILHash)*0x100000001b3 ^ r.out*0x9e3779b97f4a7c15
	return r.res
}
