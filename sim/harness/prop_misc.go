//go:build go1.21

package main

// C08, C09, C14, C16, C18: streams, shared SDFs, caller data, reproducibility.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/internal/d2"
	"github.com/soypat/sdf/internal/d3"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func bitsOf(x float64) uint64 {
	if math.IsNaN(x) {
		return 0x7ff8000000000001
	}
	return math.Float64bits(x)
}

// evaluator is an SDF2 or SDF3 behind one signature.
type evaluator func(p r3.Vec) float64

func evalOf(s interface{}) evaluator {
	switch v := s.(type) {
	case sdf.SDF3:
		return v.Evaluate
	case sdf.SDF2:
		return func(p r3.Vec) float64 { return v.Evaluate(r2.Vec{X: p.X, Y: p.Y}) }
	}
	panic(fmt.Sprintf("%T is not an SDF", s))
}

func boundsOf(s interface{}) r3.Box {
	switch v := s.(type) {
	case sdf.SDF3:
		return v.Bounds()
	case sdf.SDF2:
		b := v.Bounds()
		return r3.Box{Min: r3.Vec{X: b.Min.X, Y: b.Min.Y, Z: -1}, Max: r3.Vec{X: b.Max.X, Y: b.Max.Y, Z: 1}}
	}
	panic(fmt.Sprintf("%T is not an SDF", s))
}

// extremePoints returns points far beyond everything, and some that are no
// points at all.
func extremePoints(r *rng, n int) []r3.Vec {
	v := func() float64 {
		x := []float64{0, 1, 1e15, 1e19, 1e40, 1e160, 1e200, math.MaxFloat64, math.Inf(1), math.NaN(), 5e-324}[r.n(11)]
		if r.p(0.5) {
			return -x
		}
		return x
	}
	out := make([]r3.Vec, n)
	for i := range out {
		switch out[i] = (r3.Vec{X: v(), Y: v(), Z: v()}); r.n(4) {
		case 0:
			out[i].Y, out[i].Z = r.u(-1, 1), r.u(-1, 1)
		case 1:
			out[i].X, out[i].Z = r.u(-1, 1), 0
		}
	}
	return out
}

// samplePoints returns points in and around a box, some on special positions.
func samplePoints(r *rng, b r3.Box, n int) []r3.Vec {
	c := r3.Scale(0.5, r3.Add(b.Min, b.Max))
	h := r3.Scale(0.5, r3.Sub(b.Max, b.Min))
	out := make([]r3.Vec, n)
	for i := range out {
		k := []float64{0.2, 1, 1.3, 3}[r.n(4)]
		p := r3.Vec{X: c.X + k*h.X*r.u(-1, 1), Y: c.Y + k*h.Y*r.u(-1, 1), Z: c.Z + k*h.Z*r.u(-1, 1)}
		switch r.n(16) {
		case 12, 13: // close to another point
			if i > 0 {
				d := r3.Norm(h) * []float64{1e-2, 1e-4, 1e-7, 1e-10, 1e-13}[r.n(5)]
				p = r3.Add(out[r.n(i)], rv3(r, d))
			}
		case 14: // differing from another point in one coordinate
			if i > 0 {
				q := out[r.n(i)]
				switch r.n(3) {
				case 0:
					q.X = p.X
				case 1:
					q.Y = p.Y
				default:
					q.Z = p.Z
				}
				p = q
			}
		case 15: // another point mirrored, or with its coordinates swapped
			if i > 0 {
				q := out[r.n(i)]
				switch r.n(5) {
				case 0:
					q.X = -q.X
				case 1:
					q.Y = -q.Y
				case 2:
					q.Z = -q.Z
				case 3:
					q.X, q.Y = q.Y, q.X
				default:
					q.X, q.Y, q.Z = q.Y, q.Z, q.X
				}
				p = q
			}
		case 0:
			p = c
		case 1:
			p.X = c.X
		case 2:
			p.Z = b.Max.Z
		case 3:
			if i > 0 {
				p = out[r.n(i)]
			}
		}
		out[i] = p
	}
	return out
}

func genWSteps(r *rng) []Step {
	var st []Step
	for i := r.n(12); i > 0; i-- {
		s := Step{N: -1}
		if r.p(0.1) {
			s.Rep = r.n(700)
		}
		if r.p(0.15) {
			s.N = []int{0, 1, 25, 49, 50, 83, 84, 1000}[r.n(8)]
			s.Err = []string{"", "fail", "short", "ueof", []string{"shortwrite", "pipe", "closed", "timeout", "noprogress", "enospc", "eof", "eof"}[r.n(8)]}[r.n(5)]
		} else if r.p(0.04) {
			s.Err = "fail"
		}
		st = append(st, s)
	}
	return st
}

func init() {
	register(&property{
		id: "C08",
		gen: func(s *Spec, r *rng) {
			s.Budget = 40_000_000
			s.N = []int{0, 1, 2, r.n(40), r.n(400), r.n(1200)}[r.n(6)]
			if r.p(0.004) {
				s.N = r.rangei(65530, 66000)
			}
			s.DSeed = r.u64() >> 32
			if r.p(0.75) {
				s.Steps = genWSteps(r)
				if r.p(0.3) { // failure late in the stream
					for len(s.Steps) < s.N && r.p(0.995) {
						s.Steps = append(s.Steps, Step{N: -1})
					}
					s.Steps = append(s.Steps, Step{N: r.n(50), Err: []string{"fail", "short", ""}[r.n(3)]})
				}
			}
			s.M = r.n(2)
		},
		exec: func(r *run) {
			s := r.spec
			model := trisOf(s.DSeed, s.N)
			keep := append([]r3.Triangle(nil), model...)
			w := &scriptWriter{steps: script{steps: s.Steps}, sticky: s.M == 1}
			var err error
			o := r.simulate(s.Sched, func() { err = render.WriteSTL(w, model) })
			if !r.settle(o, "WriteSTL") {
				return
			}
			r.res.Evals++
			r.res.Nontrivial = s.N > 0
			r.observe(w.got)
			if d := diffSequence(model, keep); d != "" {
				r.fail("modified-model", "WriteSTL changed the caller's model: %s", d)
			}
			if w.failed != nil {
				r.res.Fired["writer:error"]++
			}
			if w.short {
				r.res.Fired["writer:short"]++
			}
			if s.N == 0 {
				if err == nil {
					r.fail("empty-accepted", "WriteSTL of an empty model returned nil")
				}
				if len(w.got) > 0 {
					r.fail("empty-accepted", "WriteSTL of an empty model wrote %d bytes", len(w.got))
				}
				return
			}
			if err == nil {
				if w.failed != nil || w.short {
					r.fail("error-swallowed", "the writer reported %v (short without error: %v) and WriteSTL returned nil", w.failed, w.short)
					return
				}
				if d := checkSTL(w.got, model, true); d != "" {
					r.fail("bad-file", "WriteSTL returned nil but %s", d)
				}
				return
			}
			if w.failed == nil && !w.short {
				r.fail("spurious-error", "WriteSTL to a healthy writer: %v", err)
				return
			}
			if w.failed != nil && !w.short && !errors.Is(err, w.failed) {
				r.fail("error-replaced", "the writer failed with %v, WriteSTL reported %v", w.failed, err)
			}
			var whole bytes.Buffer
			if e := render.WriteSTL(&whole, model); e != nil {
				r.fail("spurious-error", "WriteSTL to a healthy writer: %v", e)
			} else if !w.short && !bytes.HasPrefix(whole.Bytes(), w.got) {
				r.fail("not-a-prefix", "WriteSTL failed (%v); the %d bytes it wrote are not the beginning of the STL", err, len(w.got))
			}
			// A failed stream must not pass for a complete smaller or equal model.
			if selfConsistent(w.got) && checkSTL(w.got, model, true) != "" {
				r.fail("partial-passes-as-complete", "WriteSTL failed (%v) but the %d bytes it wrote are accepted as a complete STL: %s", err, len(w.got), checkSTL(w.got, model, true))
			}
		},
	})
	register(&property{
		id: "C09",
		gen: func(s *Spec, r *rng) {
			s.Budget = 40_000_000
			s.N = []int{1, 2, r.rangei(1, 30), r.rangei(1, 300)}[r.n(4)]
			if r.p(0.03) {
				s.N = r.rangei(300, 2500)
			}
			if r.p(0.002) {
				s.N = r.rangei(65530, 66000)
				s.Budget = 150_000_000
			}
			s.DSeed = r.u64() >> 32
			s.M = -1 // bytes kept, -1 all
			switch r.n(5) {
			case 0:
				s.M = r.n(84 + 50*s.N)
			case 1:
				s.M = 84 + 50*r.n(s.N)
			case 2:
				s.M = 84 + 50*s.N - 1 - r.n(50)
			}
			switch r.n(10) {
			case 0, 1, 2:
				s.Scn = "eof-with-data"
			case 3:
				s.Scn = "trailing"
			case 4:
				s.Scn = "lying"
				s.M = -1
			case 5, 6:
				// through a file on a disk which returns less than asked for,
				// is interrupted, and may fail
				s.Scn = "file"
				if r.p(0.5) {
					s.M = -1
				}
				if r.p(0.6) {
					s.K.ReadMax = []int{1, 7, 49, 50, 51, 83, 84, 100, 4095}[r.n(9)]
				}
				for i := r.n(4); i > 0; i-- {
					f := Fault{Call: "read", Nth: r.rangei(1, s.N+2), Kind: "EINTR"}
					if r.p(0.4) {
						f.Kind, f.Arg = "short", r.rangei(1, 90)
					} else if r.p(0.2) {
						f.Kind = "EIO"
					}
					s.K.Faults = append(s.K.Faults, f)
				}
				return
			}
			for i := r.n(6); i > 0; i-- {
				s.Steps = append(s.Steps, Step{N: []int{0, 1, 3, 49, 50, 51, 84, 7, -1, 20}[r.n(10)]})
			}
			if r.p(0.2) {
				at := r.n(8)
				for len(s.Steps) <= at {
					s.Steps = append(s.Steps, Step{N: r.rangei(1, 90)})
				}
				s.Steps[at].Err = []string{"fail", "ueof", failNames[r.n(len(failNames))]}[r.n(3)]
			}
		},
		exec: func(r *run) {
			s := r.spec
			want := genTris(s.DSeed, s.N)
			data := encodeSTL(want)
			for i := range want { // what survives single precision
				for j := range want[i] {
					v := want[i][j]
					want[i][j] = r3.Vec{X: float64(float32(v.X)), Y: float64(float32(v.Y)), Z: float64(float32(v.Z))}
				}
			}
			full := len(data)
			switch {
			case s.M >= 0 && s.M < full:
				data = data[:s.M]
			case s.Scn == "trailing":
				data = append(data, genJunk(s.DSeed)...)
			case s.Scn == "lying":
				// the header was damaged: it counts triangles that are not there
				lr := newRng(s.DSeed, 11)
				c := uint32(s.N + 1 + lr.n(50))
				switch lr.n(5) {
				case 0:
					c = uint32(s.N) | 1<<uint(16+lr.n(11))
				case 1:
					c = uint32(s.N) + uint32(lr.n(60_000_000)) + 1
				case 2: // beyond what a signed integer holds
					c = []uint32{1 << 31, 1<<31 | uint32(s.N), 1<<32 - 1, 1<<31 - 1, 1<<32 - 1 - uint32(lr.n(100))}[lr.n(5)]
				}
				if c <= uint32(s.N) {
					c = uint32(s.N) + 1
				}
				data[80], data[81], data[82], data[83] = byte(c), byte(c>>8), byte(c>>16), byte(c>>24)
				full = len(data) + 1
			}
			rd := &scriptReader{data: data, steps: s.Steps, withEOF: s.Scn == "eof-with-data"}
			var got []r3.Triangle
			var err error
			var before, after runtime.MemStats
			failed := func() error { return rd.failed }
			k := newKernel(KSpec{Faults: s.K.Faults, ReadMax: s.K.ReadMax})
			if s.Scn == "file" {
				k.files[stlPath] = &inode{data: data, mode: 0o644}
			}
			runtime.ReadMemStats(&before)
			o := r.simulateSys(k, s.Sched, s.Rand, s.Wall, func(*syscalls) {
				if s.Scn == "file" {
					f, e := os.Open(stlPath)
					if e != nil {
						err = e
						return
					}
					got, err = render.VerifReadSTL(f)
					f.Close()
					return
				}
				got, err = render.VerifReadSTL(rd)
			})
			runtime.ReadMemStats(&after)
			used := after.TotalAlloc - before.TotalAlloc
			if !r.settle(o, "reading an STL stream") {
				return
			}
			if s.Scn == "file" && k.hard > 0 {
				failed = func() error { return errScripted }
			}
			r.res.Evals++
			r.res.Nontrivial = true
			r.probe("source:" + s.Scn)
			r.observe([]byte(fmt.Sprint(len(got), err)))
			if len(data) < full {
				r.res.Fired["reader:truncated"]++
			}
			if rd.failed != nil {
				r.res.Fired["reader:error"]++
			}
			if lim := uint64(8<<20 + 64*len(data)*10); used > lim {
				r.fail("memory", "reading a stream of %d bytes allocated %d bytes", len(data), used)
			}
			// success needs every byte; the reader may stop asking after the last one
			switch {
			case err == nil || errors.Is(err, render.VerifNormalMismatch):
				if len(data) < full || s.Scn != "file" && rd.pos < full {
					r.fail("truncation-accepted", "the stream broke off after %d of %d bytes (reader error %v) and the reader reported success with %d triangles", len(data), full, failed(), len(got))
					return
				}
				if err != nil {
					r.fail("spurious-error", "well formed STL rejected: %v", err)
				}
				if d := diffSequence(posZero(got), posZero(want)); d != "" {
					r.fail("bad-data", "STL read back: %s", d)
				}
			case len(data) >= full && failed() == nil:
				r.fail("spurious-error", "all %d bytes of a well formed STL were available, the reader reported %v", full, err)
			}
		},
	})
	register(&property{
		id: "C14", race: true,
		gen: func(s *Spec, r *rng) {
			s.Budget = 40_000_000
			dim := 3
			if r.p(0.25) {
				dim = 2
			}
			s.Shape = genShape(r, dim, 1+r.n(3))
			if dim == 3 && r.p(0.15) {
				s.Shape = &Node{Op: []string{"import3", "importbih3"}[r.n(2)], Seed: r.u64() >> 32, Kids: []*Node{genSimple(r)}}
				if !usable(s.Shape, 3) {
					s.Shape = genSimple(r)
				}
			}
			if r.p(0.12) { // make sure every catalogue entry gets its turn
				n := &Node{Op: catNames[r.n(len(catNames))], Seed: r.u64() >> 32}
				for _, d := range catalogue[n.Op].kids {
					n.Kids = append(n.Kids, genShape(r, d, 0))
				}
				if usable(n, catalogue[n.Op].dim) {
					s.Shape = n
				}
			}
			s.N = r.rangei(2, 4)  // goroutines
			s.M = r.rangei(4, 40) // points
			if s.Shape.cost() > 100 {
				s.M = r.rangei(4, 12)
			}
			if s.Shape.cost() < 20 && r.p(0.02) {
				s.M = r.rangei(200, 3000)
				s.Budget = 100_000_000
			}
			s.DSeed = r.u64() >> 32
			if r.p(0.3) {
				s.Scn = "with-renderer" // one of the users renders meanwhile
				s.Cells = 3
			}
		},
		exec: execEval,
	})
	register(&property{
		id: "C16", race: true,
		gen: func(s *Spec, r *rng) {
			s.Budget = 20_000_000
			s.Scn = callerCaseNames[r.n(len(callerCaseNames))]
			s.N = r.rangei(1, 3)
			s.DSeed = r.u64() >> 32
		},
		exec: execCaller,
	})
	register(&property{
		id: "C18",
		gen: func(s *Spec, r *rng) {
			s.Budget = 100_000_000
			s.Scn = []string{"stl", "3mf", "import", "bih", "tetra", "shape", "stl", "3mf", "writestl"}[r.n(9)]
			s.Shape, s.Cells = genRenderShape(r)
			if s.Scn == "import" || s.Scn == "bih" || s.Scn == "tetra" {
				s.Shape = genSimple(r)
				s.Cells = r.rangei(2, 6)
			}
			s.DSeed = r.u64() >> 32
			s.M = r.rangei(5, 40)
			if s.Scn == "import" || s.Scn == "bih" {
				s.M *= 8
			}
			if g := gridify(s.Shape); r.p(0.4) && usable(g, 3) {
				s.Shape = g
			}
		},
		exec: execRepro,
	})
}

func genJunk(seed uint64) []byte {
	r := newRng(seed, 3)
	b := make([]byte, r.rangei(1, 200))
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}

// execEval lets several goroutines evaluate one SDF, each in its own order,
// and compares every value with a fresh instance used by nobody else.
func execEval(r *run) {
	s := r.spec
	solo := s.Shape.build()
	b := boundsOf(solo)
	pts := samplePoints(newRng(s.DSeed), b, s.M)
	f := evalOf(solo)
	if xr := newRng(s.DSeed, 8); xr.p(0.3) {
		for _, p := range extremePoints(xr, 4) {
			p := p
			if !caught(func() { evalOf(s.Shape.build())(p) }) {
				pts = append(pts, p)
			}
		}
	}
	want := make([]uint64, len(pts))
	for i, p := range pts {
		want[i] = bitsOf(f(p))
	}
	// The value at a point must not depend on what was asked before.
	r.res.Evals += len(pts)
	again := evalOf(s.Shape.build())
	for i := len(pts) - 1; i >= 0; i-- {
		if g := bitsOf(again(pts[i])); g != want[i] {
			r.fail("history-dependent", "%s at %v is %v in one order of evaluation and %v in another", s.Shape, pts[i], math.Float64frombits(want[i]), math.Float64frombits(g))
			return
		}
	}
	var ref []r3.Triangle
	if s.Scn == "with-renderer" && catalogue[s.Shape.Op].dim == 3 {
		var err error
		if ref, err = freshReference(s.Shape, s.Cells); err != nil {
			r.fail("reference", "%v", err)
			return
		}
	}
	runtime.SimBoot()
	shared := s.Shape.build()
	type miss struct {
		g, i int
		got  uint64
	}
	misses := make([][]miss, s.N)
	bb := make([]r3.Box, s.N)
	var tris []r3.Triangle
	var rerr error
	o := r.simulate(s.Sched, func() {
		var wg sync.WaitGroup
		for g := 0; g < s.N; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				ord := perm(newRng(s.DSeed, uint64(g), 4), len(pts))
				f := evalOf(shared)
				for _, i := range ord {
					if v := bitsOf(f(pts[i])); v != want[i] {
						misses[g] = append(misses[g], miss{g, i, v})
					}
				}
				bb[g] = boundsOf(shared)
			}()
		}
		if ref != nil {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rd := render.NewOctreeRenderer(shared.(sdf.SDF3), s.Cells)
				render.VerifSetConcurrent(rd, 2)
				tris, rerr = drain(rd, func(int) int { return 64 }, 1<<20)
			}()
		}
		wg.Wait()
	})
	if !r.settle(o, "evaluating "+s.Shape.String()+" from several goroutines") {
		return
	}
	r.res.Nontrivial = o.st.MaxRunnable > 1
	s.Shape.ops(func(n *Node) { r.probe("sdf:" + n.Op) })
	for g := range misses {
		r.res.Evals += len(pts)
		for _, m := range misses[g] {
			r.fail("wrong-value", "%s evaluated at %v by goroutine %d of %d gives %v, alone it gives %v", s.Shape, pts[m.i], m.g, s.N, math.Float64frombits(m.got), math.Float64frombits(want[m.i]))
			return
		}
		if bb[g] != b {
			r.fail("wrong-value", "bounds of %s changed from %v to %v", s.Shape, b, bb[g])
		}
	}
	if ref != nil {
		if rerr != nil {
			r.fail("render-error", "%v", rerr)
		} else if d := diffMultiset(tris, ref); d != "" {
			r.fail("wrong-value", "rendering %s while others evaluate it: %s", s.Shape, d)
		}
	}
	for _, w := range want {
		r.out = (r.out ^ w) * 0x100000001b3
	}
}

func perm(r *rng, n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.n(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// ------------------------------------------------------------- caller data

// callerCase is a constructor together with the data its caller owns.
type callerCase struct {
	build   func() interface{} // called by every goroutine with the same inputs
	intact  func() string      // "" while the caller's data is as it was
	scratch func()             // the caller reuses its data for something else
	again   bool               // build depends on nothing that scratch ruins
}

func v2snap(v []r2.Vec) func() string {
	full := v[:cap(v)]
	cp := append([]r2.Vec(nil), full...)
	return func() string {
		for i := range full {
			if full[i] != cp[i] {
				return fmt.Sprintf("element %d (length %d, capacity %d) changed from %v to %v", i, len(v), cap(v), cp[i], full[i])
			}
		}
		return ""
	}
}

func v3snap(v []r3.Vec) func() string {
	full := v[:cap(v)]
	cp := append([]r3.Vec(nil), full...)
	return func() string {
		for i := range full {
			if full[i] != cp[i] {
				return fmt.Sprintf("element %d (length %d, capacity %d) changed from %v to %v", i, len(v), cap(v), cp[i], full[i])
			}
		}
		return ""
	}
}

func trisnap(v []r3.Triangle) func() string {
	full := v[:cap(v)]
	cp := append([]r3.Triangle(nil), full...)
	return func() string {
		for i := range full {
			if keyOf(full[i]) != keyOf(cp[i]) {
				return fmt.Sprintf("triangle %d (length %d, capacity %d) changed", i, len(v), cap(v))
			}
		}
		return ""
	}
}

// unusual makes some elements of v what they seldom are: equal to others or
// along an axis.
func unusual(r *rng, n int, set func(i int, v r3.Vec), dup func(i, j int)) {
	if n == 0 || !r.p(0.3) {
		return
	}
	for k := r.rangei(1, n); k > 0; k-- {
		i := r.n(n)
		switch r.n(6) {
		case 0, 1:
			dup(i, r.n(n))
		case 2:
			dup(i, (i+1)%n)
		case 3:
			set(i, r3.Vec{})
		default:
			v := [3]float64{}
			v[r.n(3)] = r.sign() * []float64{1, 1, r.u(0.1, 3)}[r.n(3)]
			set(i, r3.Vec{X: v[0], Y: v[1], Z: v[2]})
		}
	}
}

// spare2 gives v room that belongs to the caller.
func spare2(r *rng, v []r2.Vec) []r2.Vec {
	x := r.n(3)
	out := make([]r2.Vec, len(v), len(v)+x)
	copy(out, v)
	unusual(r, len(v), func(i int, v r3.Vec) { out[i] = r2.Vec{X: v.X, Y: v.Y + v.Z} }, func(i, j int) { out[i] = out[j] })
	for i := range out[:cap(out)][len(v):] {
		out[:cap(out)][len(v)+i] = r2.Vec{X: 77, Y: -77}
	}
	return out
}

func spare3(r *rng, v []r3.Vec) []r3.Vec {
	x := r.n(3)
	out := make([]r3.Vec, len(v), len(v)+x)
	copy(out, v)
	unusual(r, len(v), func(i int, v r3.Vec) { out[i] = v }, func(i, j int) { out[i] = out[j] })
	for i := range out[:cap(out)][len(v):] {
		out[:cap(out)][len(v)+i] = r3.Vec{X: 77, Y: -77}
	}
	return out
}

func ruin2(v []r2.Vec) {
	for i := range v[:cap(v)] {
		v[:cap(v)][i] = r2.Vec{X: 1e6, Y: float64(i)}
	}
}

func polyCase(r *rng, build func(v []r2.Vec) interface{}) callerCase {
	v := starPoly(r, r.rangei(3, 8))
	if r.p(0.4) {
		v = append(v, v[0])
	}
	in := spare2(r, v)
	return callerCase{
		build:   func() interface{} { return build(in) },
		intact:  v2snap(in),
		scratch: func() { ruin2(in) },
	}
}

// operandCase combines shared operands; the operands must stay as they are.
func operandCase(r *rng, dim, n int, build func(ops []interface{}, variant int) interface{}) callerCase {
	var ops []interface{}
	var before []evaluator
	var nodes []*Node
	for i := 0; i < n; i++ {
		nd := genShape(r, dim, 1)
		nodes = append(nodes, nd)
		ops = append(ops, nd.build())
		before = append(before, evalOf(nd.build()))
	}
	pseed := r.u64()
	variant := r.n(4)
	return callerCase{
		build: func() interface{} { return build(ops, variant) },
		intact: func() string {
			for i := range ops {
				b := boundsOf(ops[i])
				if b != boundsOf(nodes[i].build()) {
					return fmt.Sprintf("bounds of operand %d (%s) changed", i, nodes[i])
				}
				f := evalOf(ops[i])
				for _, p := range samplePoints(newRng(pseed), b, 8) {
					if bitsOf(f(p)) != bitsOf(before[i](p)) {
						return fmt.Sprintf("operand %d (%s) changed its value at %v", i, nodes[i], p)
					}
				}
			}
			return ""
		},
		scratch: func() {},
	}
}

func ball(x float64) sdf.SDF3 { return user3{r: 1 + x, amp: 0.1, f: 2} }

var callerCases = map[string]func(r *rng) callerCase{
	"form2.Polygon": func(r *rng) callerCase {
		return polyCase(r, func(v []r2.Vec) interface{} { return or2(form2.Polygon(v)) })
	},
	"must2.Polygon": func(r *rng) callerCase { return polyCase(r, func(v []r2.Vec) interface{} { return must2.Polygon(v) }) },
	"extruded-poly": func(r *rng) callerCase {
		return polyCase(r, func(v []r2.Vec) interface{} { return sdf.Extrude3D(must2.Polygon(v), 2) })
	},
	"builder.AddV2Set": func(r *rng) callerCase {
		return polyCase(r, func(v []r2.Vec) interface{} {
			b := form2.NewPolygon()
			b.AddV2Set(v)
			return or2(form2.Polygon(b.Vertices()))
		})
	},
	"builder.mixed": func(r *rng) callerCase {
		// the builder gets vertices one by one and in sets the caller ruins
		// before asking for the vertices
		v := starPoly(r, r.rangei(4, 40))
		cuts := []int{0, r.n(len(v) + 1), r.n(len(v) + 1), len(v)}
		if cuts[1] > cuts[2] {
			cuts[1], cuts[2] = cuts[2], cuts[1]
		}
		first := r.n(2)
		var mu sync.Mutex
		wrong := ""
		return callerCase{
			build: func() interface{} {
				b := form2.NewPolygon()
				for i := 0; i < 3; i++ {
					part := append([]r2.Vec(nil), v[cuts[i]:cuts[i+1]]...)
					if i%2 == first {
						b.AddV2Set(part)
						ruin2(part)
						continue
					}
					for _, x := range part {
						b.AddV2(x)
					}
				}
				got := b.Vertices()
				if fmt.Sprint(got) != fmt.Sprint(v) {
					mu.Lock()
					wrong = fmt.Sprintf("the builder was given %v and returned %v", v, got)
					mu.Unlock()
				}
				return or2(form2.Polygon(got))
			},
			intact:  func() string { mu.Lock(); defer mu.Unlock(); return wrong },
			scratch: func() { ruin2(v) },
		}
	},
	"builder.Vertices": func(r *rng) callerCase {
		// two polygons from one builder: the first one's vertices belong to the caller
		b := form2.NewPolygon()
		for _, v := range starPoly(r, r.rangei(4, 7)) {
			b.AddV2(v)
		}
		first := b.Vertices()
		return callerCase{
			build:   func() interface{} { return or2(form2.Polygon(first)) },
			intact:  v2snap(first),
			scratch: func() { ruin2(first); b.Add(3, 3); b.Vertices() },
		}
	},
	"builder.reuse": func(r *rng) callerCase {
		// what a builder has handed out stays as it was while the builder is
		// used on, and the builder does not depend on what becomes of it
		v := starPoly(r, r.rangei(4, 7))
		seed := r.u64()
		var mu sync.Mutex
		var bad string
		use := func(overwrite bool) (sig []uint64) {
			r := newRng(seed)
			b := form2.NewPolygon()
			for _, x := range v {
				if p := b.AddV2(x); r.p(0.2) {
					p.Chamfer(0.05)
				}
			}
			type out struct{ v, was []r2.Vec }
			var given []out
			for i := 0; i < 5; i++ {
				vs := b.Vertices()
				for k, g := range given {
					for j := range g.v {
						if g.v[j] != g.was[j] {
							mu.Lock()
							bad = fmt.Sprintf("vertex %d of list %d changed when list %d was asked for", j, k, i)
							mu.Unlock()
						}
					}
				}
				for _, x := range vs {
					sig = append(sig, bitsOf(x.X), bitsOf(x.Y))
				}
				g := out{vs, append([]r2.Vec(nil), vs...)}
				if r.p(0.5) && overwrite {
					ruin2(vs)
					copy(g.was, vs)
				}
				given = append(given, g)
				switch r.n(4) {
				case 0:
					b.Reverse()
				case 1:
					b.Drop()
				case 2:
					b.Add(r.u(3, 4), r.u(3, 4))
				default:
					b.Add(r.u(3, 4), r.u(3, 4))
					b.Add(r.u(-1, 1), r.u(3, 4)).Rel()
				}
			}
			return sig
		}
		return callerCase{
			again: true,
			build: func() interface{} {
				sig := use(false)
				if !sameSig(sig, use(true)) {
					mu.Lock()
					bad = "the builder depends on what its caller does with the vertices it was given"
					mu.Unlock()
				}
				return sig
			},
			intact:  func() string { return bad },
			scratch: func() {},
		}
	},
	"union2": func(r *rng) callerCase {
		l := make([]sdf.SDF2, 0, 6)
		for i := r.rangei(2, 4); i > 0; i-- {
			l = append(l, or2(form2.Box(r2.Vec{X: r.u(0.5, 3), Y: r.u(0.5, 3)}, 0.1)))
		}
		unusual(r, len(l), func(int, r3.Vec) {}, func(i, j int) { l[i] = l[j] })
		full := l[:cap(l)]
		cp := append([]sdf.SDF2(nil), full...)
		set := r.p(0.5)
		return callerCase{
			build: func() interface{} {
				u := sdf.Union2D(l...)
				if set {
					u.SetMin(sdf.MinPoly(2, 0.3))
				}
				return u
			},
			intact: func() string {
				for i := range full {
					if full[i] != cp[i] {
						return fmt.Sprintf("element %d of the operand slice changed", i)
					}
				}
				return ""
			},
			scratch: func() {
				for i := range full {
					full[i] = or2(form2.Circle(9))
				}
			},
		}
	},
	"union3": func(r *rng) callerCase {
		l := make([]sdf.SDF3, 0, 6)
		for i := r.rangei(2, 4); i > 0; i-- {
			l = append(l, sdf.Transform3D(ball(r.u(0, 1)), sdf.Translate3D(rv3(r, 3))))
		}
		unusual(r, len(l), func(int, r3.Vec) {}, func(i, j int) { l[i] = l[j] })
		full := l[:cap(l)]
		cp := append([]sdf.SDF3(nil), full...)
		set := r.p(0.5)
		return callerCase{
			build: func() interface{} {
				u := sdf.Union3D(l...)
				if set {
					u.SetMin(sdf.MinPoly(2, 0.3))
				}
				return u
			},
			intact: func() string {
				for i := range full {
					if full[i] != cp[i] {
						return fmt.Sprintf("element %d of the operand slice changed", i)
					}
				}
				return ""
			},
			scratch: func() {
				for i := range full {
					full[i] = ball(9)
				}
			},
		}
	},
	"multi2": func(r *rng) callerCase {
		in := spare2(r, rvset2(r, r.rangei(2, 5), 4))
		return callerCase{
			build:   func() interface{} { return sdf.Multi2D(or2(form2.Circle(1)), d2.Set(in)) },
			intact:  v2snap(in),
			scratch: func() { ruin2(in) },
		}
	},
	"multi3": func(r *rng) callerCase {
		return setCase(r, func(v []r3.Vec) interface{} { return sdf.Multi3D(ball(0), d3.Set(v)) })
	},
	"orient3": func(r *rng) callerCase {
		return setCase(r, func(v []r3.Vec) interface{} {
			return sdf.Orient3D(sdf.Elongate3D(ball(0), r3.Vec{X: 3}), r3.Vec{Z: 1}, d3.Set(v))
		})
	},
	"import": func(r *rng) callerCase {
		return modelCase(r, func(m []r3.Triangle) interface{} { s, err := sdfexp.ImportModel(m, 0); must(err); return s })
	},
	"import-tol": func(r *rng) callerCase {
		return modelCase(r, func(m []r3.Triangle) interface{} { s, err := sdfexp.ImportModel(m, 1e-5); must(err); return s })
	},
	"importv2": func(r *rng) callerCase {
		return modelCase(r, func(m []r3.Triangle) interface{} { s, err := sdfexp.ImportModelV2(m, 1e-6); must(err); return s })
	},
	"writestl": func(r *rng) callerCase {
		return modelCase(r, func(m []r3.Triangle) interface{} {
			w := &scriptWriter{}
			must(render.WriteSTL(w, m))
			return w.got
		})
	},
	"buffer": func(r *rng) callerCase {
		return modelCase(r, func(m []r3.Triangle) interface{} {
			var b render.TriangleBuffer
			b.Write(m)
			return &b
		})
	},
	"panelhole": func(r *rng) callerCase {
		k := &obj3.PanelHoleParams{Diameter: r.u(3, 8), Thickness: r.u(1, 4), Indent: r3.Vec{X: r.u(0.5, 2), Y: r.u(0.5, 2), Z: r.u(0.5, 2)}, Offset: r.u(4, 8), Orientation: r.u(0, 6)}
		if r.p(0.3) {
			k.Indent = r3.Vec{}
		}
		cp := *k
		return callerCase{
			build: func() interface{} { return or3(obj3.PanelHole(k)) },
			intact: func() string {
				if *k != cp {
					return fmt.Sprintf("parameters changed from %+v to %+v", cp, *k)
				}
				return ""
			},
			scratch: func() { *k = obj3.PanelHoleParams{Diameter: 99, Thickness: 99} },
		}
	},
	// what the library returns belongs to the caller
	"result.Nagon": func(r *rng) callerCase {
		n, rad := r.rangei(3, 8), float64(r.rangei(1, 4))
		return resultCase2(func() []r2.Vec { s, err := form2.Nagon(n, rad); must(err); return s })
	},
	"result.Vertices": func(r *rng) callerCase {
		v := starPoly(r, r.rangei(4, 7))
		rad := r.u(0.05, 0.2)
		return resultCase2(func() []r2.Vec {
			b := form2.NewPolygon()
			for i, x := range v {
				p := b.AddV2(x)
				if i == 1 {
					p.Smooth(rad, 3)
				}
			}
			return b.Vertices()
		})
	},
	"result.RenderAll": func(r *rng) callerCase {
		n := genSimple(r)
		s := n.build3()
		cells := r.rangei(2, 5)
		return resultCase3(func() []r3.Triangle {
			m, err := render.RenderAll(render.NewOctreeRenderer(s, cells))
			must(err)
			return m
		})
	},
	"result.ReadSTL": func(r *rng) callerCase {
		data := encodeSTL(genTris(r.u64(), r.rangei(1, 60)))
		return resultCase3(func() []r3.Triangle {
			m, err := render.VerifReadSTL(bytes.NewReader(data))
			must(err)
			return m
		})
	},
	"result.Tetra": func(r *rng) callerCase {
		s := genSimple(r).build3()
		res := ext3(s) / r.u(2, 4)
		type mesh struct {
			n []r3.Vec
			t [][4]int
		}
		var mu sync.Mutex
		var given []mesh
		return callerCase{
			again: true,
			build: func() interface{} {
				n, t := sdfexp.UniformTetrahedronMesh(res, s)
				mu.Lock()
				given = append(given, mesh{n, t})
				mu.Unlock()
				var sig []uint64
				for _, v := range n {
					sig = append(sig, bitsOf(v.X), bitsOf(v.Y), bitsOf(v.Z))
				}
				for _, x := range t {
					sig = append(sig, uint64(x[0]), uint64(x[1]), uint64(x[2]), uint64(x[3]))
				}
				return sig
			},
			intact: func() string { return "" },
			scratch: func() {
				for _, m := range given {
					for i := range m.n[:cap(m.n)] {
						m.n[:cap(m.n)][i] = r3.Vec{X: 1e6}
					}
					for i := range m.t[:cap(m.t)] {
						m.t[:cap(m.t)][i] = [4]int{7, 7, 7, 7}
					}
				}
			},
		}
	},
	"panel": func(r *rng) callerCase {
		k := rpanel(r)
		cp := k
		return callerCase{
			again: true,
			build: func() interface{} {
				if len(k.HolePattern[0]) > 2 {
					return or3(obj3.Panel(k))
				}
				return or2(obj2.Panel(k))
			},
			intact: func() string {
				if k != cp {
					return fmt.Sprintf("parameters changed from %+v to %+v", cp, k)
				}
				return ""
			},
			scratch: func() {},
		}
	},
	"combine3": func(r *rng) callerCase {
		return operandCase(r, 3, 2, func(o []interface{}, v int) interface{} {
			a, b := k3(o[0]), k3(o[1])
			switch v {
			case 0:
				u := sdf.Union3D(a, b)
				u.SetMin(sdf.MinRound(0.4))
				return u
			case 1:
				u := sdf.Difference3D(a, b)
				u.SetMax(sdf.MaxPoly(2, 0.4))
				return u
			case 2:
				u := sdf.Intersect3D(a, b)
				u.SetMax(sdf.MaxPoly(2, 0.4))
				return u
			}
			return sdf.Union3D(sdf.Shell3D(a, 0.3), sdf.Elongate3D(b, r3.Vec{X: 1}), sdf.Offset3D(a, 0.1), sdf.ScaleUniform3D(b, 2))
		})
	},
	"combine3x": func(r *rng) callerCase {
		return operandCase(r, 3, 1, func(o []interface{}, v int) interface{} {
			a := k3(o[0])
			switch v {
			case 0:
				u := sdf.Array3D(a, sdf.V3i{2, 2, 1}, r3.Vec{X: 3, Y: 3, Z: 3})
				u.SetMin(sdf.MinRound(0.4))
				return u
			case 1:
				u := sdf.RotateUnion3D(a, 3, sdf.RotateZ(1))
				u.SetMin(sdf.MinRound(0.4))
				return u
			case 2:
				return sdf.Union3D(sdf.RotateCopy3D(a, 4), sdf.Cut3D(a, r3.Vec{}, r3.Vec{X: 1, Y: 1, Z: 0.5}))
			}
			return sdf.Extrude3D(sdf.Slice2D(a, r3.Vec{}, r3.Vec{Z: 1}), 2)
		})
	},
	"combine2": func(r *rng) callerCase {
		return operandCase(r, 2, 2, func(o []interface{}, v int) interface{} {
			a, b := k2(o[0]), k2(o[1])
			switch v {
			case 0:
				u := sdf.Union2D(a, b)
				u.SetMin(sdf.MinRound(0.4))
				return u
			case 1:
				u := sdf.Difference2D(a, b)
				u.SetMax(sdf.MaxPoly(2, 0.4))
				return u
			case 2:
				u := sdf.Array2D(a, sdf.V2i{2, 3}, r2.Vec{X: 3, Y: 3})
				u.SetMin(sdf.MinPoly(2, 0.4))
				return sdf.Union2D(u, sdf.Offset2D(b, 0.1), sdf.CenterAndScale2D(a, 2))
			}
			return sdf.Union3D(sdf.Revolve3D(sdf.Transform2D(a, sdf.Translate2D(r2.Vec{X: 4})), 2), sdf.Loft3D(a, b, 3, 0), sdf.TwistExtrude3D(b, 2, 1))
		})
	},
}

var callerCaseNames []string

func init() {
	for n := range callerCases {
		callerCaseNames = append(callerCaseNames, n)
	}
	sortStrings(callerCaseNames)
}

func setCase(r *rng, build func(v []r3.Vec) interface{}) callerCase {
	in := spare3(r, rvset3(r, r.rangei(2, 4), 3))
	return callerCase{
		build:  func() interface{} { return build(in) },
		intact: v3snap(in),
		scratch: func() {
			for i := range in[:cap(in)] {
				in[:cap(in)][i] = r3.Vec{X: 1e6, Y: float64(i)}
			}
		},
	}
}

// resultCase2 and resultCase3 call a function that returns a slice, keep a copy
// as its result, and later ruin the slices they were given.
func resultCase2(f func() []r2.Vec) callerCase {
	var mu sync.Mutex
	var given [][]r2.Vec
	return callerCase{
		again: true,
		build: func() interface{} {
			v := f()
			mu.Lock()
			given = append(given, v)
			mu.Unlock()
			var sig []uint64
			for _, x := range v {
				sig = append(sig, bitsOf(x.X), bitsOf(x.Y))
			}
			return sig
		},
		intact: func() string { return "" },
		scratch: func() {
			for _, v := range given {
				ruin2(v)
			}
		},
	}
}

func resultCase3(f func() []r3.Triangle) callerCase {
	var mu sync.Mutex
	var given [][]r3.Triangle
	return callerCase{
		again: true,
		build: func() interface{} {
			v := f()
			mu.Lock()
			given = append(given, v)
			mu.Unlock()
			var sig []uint64
			for _, x := range v {
				k := keyOf(x)
				sig = append(sig, k[:]...)
			}
			return sig
		},
		intact: func() string { return "" },
		scratch: func() {
			for _, v := range given {
				for i := range v[:cap(v)] {
					v[:cap(v)][i] = garbage
				}
			}
		},
	}
}

func modelCase(r *rng, build func(m []r3.Triangle) interface{}) callerCase {
	m := meshOf(genSimple(r).build3(), r.rangei(3, 5))
	in := make([]r3.Triangle, len(m), len(m)+r.n(3))
	copy(in, m)
	if r.p(0.4) {
		for k := r.rangei(1, 4); k > 0; k-- {
			t := &in[r.n(len(in))]
			switch r.n(4) {
			case 0:
				*t = in[r.n(len(in))]
			case 1:
				t[r.n(3)] = t[r.n(3)]
			case 2:
				t[1], t[2] = t[2], t[1]
			default:
				t[r.n(3)].X = []float64{math.NaN(), math.Inf(1), 1e300}[r.n(3)]
			}
		}
	}
	return callerCase{
		build:  func() interface{} { return build(in) },
		intact: trisnap(in),
		scratch: func() {
			for i := range in[:cap(in)] {
				in[:cap(in)][i] = garbage
			}
		},
	}
}

// signature reduces what a constructor returned to comparable values.
func signature(v interface{}) []uint64 {
	switch x := v.(type) {
	case []uint64:
		return x
	case []byte:
		var out []uint64
		for _, b := range x {
			out = append(out, uint64(b))
		}
		return out
	case *render.TriangleBuffer:
		// non destructive: copy the struct, then drain the copy
		c := *x
		buf := make([]r3.Triangle, c.Len())
		n := c.Read(buf)
		var out []uint64
		for _, t := range buf[:n] {
			k := keyOf(t)
			out = append(out, k[:]...)
		}
		return out
	}
	f := evalOf(v)
	b := boundsOf(v)
	out := []uint64{bitsOf(b.Min.X), bitsOf(b.Min.Y), bitsOf(b.Min.Z), bitsOf(b.Max.X), bitsOf(b.Max.Y), bitsOf(b.Max.Z)}
	for _, p := range samplePoints(newRng(99), b, 12) {
		out = append(out, bitsOf(f(p)))
	}
	return out
}

func sameSig(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func execCaller(r *run) {
	s := r.spec
	mk := callerCases[s.Scn]
	if mk == nil {
		r.res.Skip = "unknown case"
		return
	}
	var c, base callerCase
	var want []uint64
	ok := func() (ok bool) {
		defer func() {
			if e := recover(); e != nil {
				ok = false
			}
		}()
		base = mk(newRng(s.DSeed)) // identical inputs, built alone
		want = signature(base.build())
		runtime.SimBoot()
		c = mk(newRng(s.DSeed))
		return true
	}()
	if !ok {
		r.res.Skip = "inputs rejected by the constructor"
		return
	}
	var objs = make([]interface{}, s.N)
	var pans = make([]string, s.N)
	o := r.simulate(s.Sched, func() {
		var wg sync.WaitGroup
		for g := 0; g < s.N; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						pans[g] = fmt.Sprintf("%v\n%s", e, trimStack(debug.Stack()))
					}
				}()
				objs[g] = c.build()
				signature(objs[g])
			}()
		}
		wg.Wait()
	})
	if !r.settle(o, "constructing "+s.Scn+" concurrently") {
		return
	}
	r.probe("case:" + s.Scn)
	r.res.Nontrivial = true
	for g, p := range pans {
		if p != "" {
			r.fail("panic", "%s: goroutine %d of %d panicked: %s", s.Scn, g, s.N, p)
			return
		}
	}
	r.res.Evals++
	if d := c.intact(); d != "" {
		r.fail("caller-data-changed", "%s: %s", s.Scn, d)
	}
	for g, ob := range objs {
		if !sameSig(signature(ob), want) {
			r.fail("wrong-object", "%s: built by goroutine %d of %d from shared inputs it differs from one built alone", s.Scn, g, s.N)
			return
		}
	}
	c.scratch()
	if c.again {
		r.res.Evals++
		if !sameSig(signature(c.build()), want) {
			r.fail("kept-result", "%s: after the caller changed what an earlier call had returned, the same call returns something else", s.Scn)
			return
		}
	}
	for g, ob := range objs {
		r.res.Evals++
		if !sameSig(signature(ob), want) {
			r.fail("aliased-caller-data", "%s: object %d changed when the caller reused the data it had passed in", s.Scn, g)
			return
		}
	}
	for _, w := range want {
		r.out = (r.out ^ w) * 0x100000001b3
	}
}

// ----------------------------------------------------------- reproducibility

// execRepro performs the same work on two simulated machines that differ in
// everything that must not matter: map seeds and iteration order, random
// numbers, wall clock and scheduling.
func execRepro(r *run) {
	s := r.spec
	work := func() ([]byte, error) {
		switch s.Scn {
		case "stl", "3mf":
			rd := render.NewOctreeRenderer(s.Shape.build3(), s.Cells)
			if s.Scn == "stl" {
				return nil, render.CreateSTL(stlPath, rd)
			}
			return nil, render.Create3MF(stlPath, rd)
		}
		var out bytes.Buffer
		if s.Scn == "writestl" {
			err := render.WriteSTL(&out, trisOf(s.DSeed, s.M))
			return out.Bytes(), err
		}
		put := func(x uint64) { fmt.Fprintf(&out, "%x ", x) }
		var obj interface{}
		switch s.Scn {
		case "import", "bih":
			m, err := reference(s.Shape.build3(), s.Cells+1)
			if err != nil || len(m) == 0 {
				return nil, err
			}
			if dr := newRng(s.DSeed, 31); dr.p(0.5) { // open, or otherwise unlike what a renderer delivers
				for k := dr.rangei(1, 6); k > 0 && len(m) > 2; k-- {
					i := dr.n(len(m))
					switch dr.n(4) {
					case 0:
						m[i] = m[dr.n(len(m))]
					case 1:
						m[i][1], m[i][2] = m[i][2], m[i][1]
					default:
						m = append(m[:i], m[i+1:]...)
					}
				}
			}
			if s.Scn == "import" {
				obj, err = sdfexp.ImportModel(m, 0)
			} else {
				obj, err = sdfexp.ImportModelV2(m, 1e-6*ext3(s.Shape.build3()))
			}
			if err != nil {
				return []byte(err.Error()), nil
			}
		case "tetra":
			sh := s.Shape.build3()
			nodes, tetras := sdfexp.UniformTetrahedronMesh(ext3(sh)/float64(s.Cells), sh)
			b, _ := json.Marshal([]interface{}{nodes, tetras})
			return b, nil
		default:
			obj = s.Shape.build()
		}
		f := evalOf(obj)
		for _, p := range samplePoints(newRng(s.DSeed), boundsOf(obj), s.M) {
			put(bitsOf(f(p)))
		}
		return out.Bytes(), nil
	}
	var outs [2][]byte
	var errs [2]error
	for i := 0; i < 2; i++ {
		k := newKernel(KSpec{})
		sched := s.Sched
		rnd, wall := s.Rand, s.Wall
		if i == 1 {
			sched.Seed ^= 0x5555
			sched.Mode = 0
			rnd = ^rnd * 3
			wall += 86400e9*365*7 + 12345678
		}
		var b []byte
		var err error
		runtime.SimBoot()
		o := r.simulateSys(k, sched, rnd, wall, func(*syscalls) {
			if i == 1 {
				otherWork(newRng(s.DSeed, 17), s)
			}
			b, err = work()
		})
		if o.panicked != "" && (s.Scn == "tetra" || s.Scn == "import" || s.Scn == "bih") {
			// Whether an input is accepted is not this property's business,
			// but it must be decided the same way every time.
			b, err = []byte("panic"), nil
		} else if !r.settle(o, "reproducing "+s.Scn) {
			return
		}
		if s.Scn == "stl" || s.Scn == "3mf" {
			c, _ := k.content(stlPath)
			b = append([]byte(nil), c...)
		}
		outs[i], errs[i] = b, err
	}
	r.res.Evals++
	r.res.Nontrivial = len(outs[0]) > 100
	r.probe("scenario:" + s.Scn)
	r.observe(outs[0])
	if (errs[0] == nil) != (errs[1] == nil) || !bytes.Equal(outs[0], outs[1]) {
		i := 0
		for i < len(outs[0]) && i < len(outs[1]) && outs[0][i] == outs[1][i] {
			i++
		}
		r.fail("not-reproducible", "%s of %s with %d cells: two machines that differ only in map seeds, random numbers, clock and scheduling produced different results (%d and %d bytes, first difference at %d; errors %v, %v)",
			s.Scn, s.Shape, s.Cells, len(outs[0]), len(outs[1]), i, errs[0], errs[1])
	}
}

// otherWork is what a process may have done before: constructing, importing,
// rendering and exporting other models, some of which fail.
func otherWork(r *rng, s *Spec) {
	for i := r.n(4); i > 0; i-- {
		func() {
			defer func() { recover() }()
			n := genSimple(r)
			switch r.n(8) {
			case 0:
				m := meshOf(n.build3(), r.rangei(3, 6))
				o, err := sdfexp.ImportModel(m, 0)
				must(err)
				signature(o)
			case 1:
				m := meshOf(n.build3(), r.rangei(3, 6))
				o, err := sdfexp.ImportModelV2(m, 1e-6)
				must(err)
				signature(o)
			case 2:
				render.RenderAll(render.NewOctreeRenderer(n.build3(), r.rangei(2, 7)))
			case 3:
				render.CreateSTL("/simfs/other.stl", render.NewOctreeRenderer(n.build3(), r.rangei(2, 5)))
			case 4:
				for k := []int{1, 1, 6, 20}[r.n(4)]; k > 0; k-- {
					rd := &scriptRenderer{tris: genTris(r.u64(), 40), steps: script{steps: []Step{{N: 20}, {N: 3, Err: []string{"", "fail", "fail"}[r.n(3)]}}}}
					switch r.n(4) {
					case 0:
						render.CreateSTL("/simfs/other.stl", rd)
					case 1:
						render.RenderAll(rd)
					default:
						render.Create3MF("/simfs/other.3mf", rd)
					}
				}
			case 5:
				// the same shape with other dimensions
				c := *s.Shape
				if r.p(0.5) {
					c.Seed = sibling(r, c.Seed)
				} else {
					c.Seed += uint64(r.rangei(1, 9))
				}
				signature(c.build())
			case 6:
				sh := n.build3()
				sdfexp.UniformTetrahedronMesh(ext3(sh)/float64(r.rangei(2, 6)), sh)
			default:
				rd := render.NewOctreeRenderer(n.build3(), 5) // abandoned half way
				rd.ReadTriangles(make([]r3.Triangle, 9))
			}
		}()
	}
}
