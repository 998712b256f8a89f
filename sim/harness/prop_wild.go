//go:build go1.21

package main

// C21: the SDF as a faulty component of a rendering.

import (
	"fmt"
	"io"
	"math"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

// wild returns wrong distances at a share of the points.
type wild struct {
	s     sdf.SDF3
	kind  string
	share float64
	seed  uint64
	bb    r3.Box

	mu    *sync.Mutex
	calls *uint64
	fired *int
}

func (w wild) Bounds() r3.Box { return w.bb }

func (w wild) Evaluate(p r3.Vec) float64 {
	d := w.s.Evaluate(p)
	h := newRng(w.seed, bitsOf(p.X), bitsOf(p.Y), bitsOf(p.Z))
	hit := h.p(w.share)
	w.mu.Lock()
	*w.calls++
	c := *w.calls
	if hit {
		*w.fired++
	}
	w.mu.Unlock()
	if !hit {
		return d
	}
	switch w.kind {
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1 - 2*h.n(2))
	case "zero":
		return []float64{0, math.Copysign(0, -1), 5e-324, -5e-324, 1e-13, -1e-13}[h.n(6)]
	case "huge":
		return []float64{1e300, -1e300, math.MaxFloat64, -math.MaxFloat64}[h.n(4)]
	case "noise":
		return h.u(-1, 1) * (math.Abs(d) + 0.1)
	case "flip":
		return -d
	case "all":
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, 1e300, -d, h.u(-1, 1)}[h.n(7)]
	case "slow":
		for i := h.n(60); i > 0; i-- {
			simYield()
		}
		return d
	case "unstable": // another answer every time
		return newRng(w.seed, c).u(-1, 1) * (math.Abs(d) + 0.1)
	}
	return d
}

var wildKinds = []string{"nan", "inf", "zero", "huge", "noise", "flip", "all", "slow", "unstable"}

func genWild(s *Spec, r *rng) {
	s.Scn = wildKinds[r.n(len(wildKinds))]
	s.Shape = genSimple(r)
	s.Cells = r.rangei(2, 6)
	s.DSeed = r.u64() >> 32
	s.M = []int{1, 5, 20, 50, 100}[r.n(5)]
	s.N = r.n(4)
	if r.p(0.7) {
		s.Conc = genWorkers(r, 5)
	}
	s.Chunk = genChunksFor(r, 1+s.Conc)
	s.Budget = 100_000_000
}

func execWild(r *run) {
	s := r.spec
	base := s.Shape.build3()
	bb := base.Bounds()
	switch s.N {
	case 1: // a slab
		bb.Max.Z = bb.Min.Z + 0.05*(bb.Max.Z-bb.Min.Z)
	case 2: // bounds that cut through the model
		bb.Max = r3.Add(bb.Min, r3.Scale(0.6, r3.Sub(bb.Max, bb.Min)))
	}
	levels := uint(math.Ceil(math.Log2(2*float64(s.Cells)))) + 1
	nodes := 1
	for i := uint(0); i < levels; i++ {
		nodes += 1 << (3 * i)
	}
	read := func(conc int, chunk []int) (all []r3.Triangle, ok bool) {
		fired, ncalls := 0, uint64(0)
		w := wild{s: base, kind: s.Scn, share: float64(s.M) / 100, seed: s.DSeed, bb: bb, mu: new(sync.Mutex), calls: &ncalls, fired: &fired}
		bad := ""
		class := ""
		calls := 0
		o := r.simulate(s.Sched, func() {
			rd := render.NewOctreeRenderer(w, s.Cells)
			if conc > 0 {
				render.VerifSetConcurrent(rd, conc)
			}
			end := 0
			for end < 3 {
				k := chunk[calls%len(chunk)]
				buf := make([]r3.Triangle, k+2)
				for i := range buf {
					buf[i] = poison
				}
				n, err := rd.ReadTriangles(buf[:k])
				calls++
				if n < 0 || n > k {
					class, bad = "bad-count", fmt.Sprintf("read %d: n=%d for a buffer of %d", calls, n, k)
					return
				}
				for i := 0; i < n; i++ {
					if keyOf(buf[i]) == keyOf(poison) {
						class, bad = "unwritten", fmt.Sprintf("read %d: n=%d but element %d was not written", calls, n, i)
						return
					}
				}
				for i := k; i < len(buf); i++ {
					if keyOf(buf[i]) != keyOf(poison) {
						class, bad = "overrun", fmt.Sprintf("read %d wrote past the end of its buffer of %d", calls, k)
						return
					}
				}
				all = append(all, buf[:n]...)
				if err == io.EOF {
					if end > 0 && n > 0 {
						class, bad = "eof-not-sticky", fmt.Sprintf("read %d after the end returned %d triangles", calls, n)
						return
					}
					end++
				} else if err != nil || end > 0 {
					class, bad = "render-error", fmt.Sprintf("read %d: error %v", calls, err)
					return
				}
				if len(all) > 5*nodes || calls > nodes+len(all)+16 {
					class, bad = "no-end", fmt.Sprintf("%d reads delivered %d triangles and no end of stream, for at most %d octree cells", calls, len(all), nodes)
					return
				}
			}
		})
		what := fmt.Sprintf("rendering an SDF with %d %% %s distances with %d workers", s.M, s.Scn, conc)
		r.res.Fired["sdf:"+s.Scn] += fired
		if !r.settle(o, what) {
			return nil, false
		}
		if bad != "" {
			r.fail(class, "%s: %s", what, bad)
			return nil, false
		}
		r.res.Evals += calls
		return all, true
	}
	got, ok := read(s.Conc, s.Chunk)
	if !ok {
		return
	}
	r.res.Nontrivial = len(got) > 0
	r.out = uint64(len(got))
	if s.Scn == "unstable" {
		return
	}
	want, ok := read(0, []int{100000})
	if !ok {
		return
	}
	if d := diffMultiset(got, want); d != "" {
		r.fail("not-the-model", "%d workers, reads of %v, %d %% %s distances: %s", s.Conc, s.Chunk, s.M, s.Scn, d)
	}
}

func init() {
	register(&property{id: "C21", race: true, gen: genWild, exec: execWild})
}
