//go:build go1.21

package main

// C01-C04, C17: triangle streams.

import (
	"errors"
	"fmt"
	"io"
	"math"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

func genChunks(r *rng) []int {
	n := r.rangei(1, 6)
	out := make([]int, n)
	style := r.n(5)
	for i := range out {
		switch style {
		case 0:
			out[i] = r.rangei(1, 12)
		case 1:
			out[i] = r.rangei(1, 64)
		case 2:
			out[i] = r.rangei(5, 6)
		case 3:
			out[i] = []int{1, 3, 4, 5, 7, 16, 31, 100, 1024, 4096, 1 << 15}[r.n(11)]
		default:
			out[i] = r.rangei(1, 400)
		}
	}
	return out
}

// genChunksFor biases read sizes to the region where the octree renderer hands
// work to several goroutines and where their shares are small.
func genChunksFor(r *rng, conc int) []int {
	if r.p(0.3) {
		return genChunks(r)
	}
	n := r.rangei(1, 5)
	out := make([]int, n)
	for i := range out {
		switch r.n(4) {
		case 0:
			out[i] = conc + r.n(3)
		case 1:
			out[i] = conc*5 + r.rangei(-2, 3)
		case 2:
			out[i] = conc * r.rangei(1, 20)
		default:
			out[i] = conc*r.rangei(4, 12) + r.n(conc)
		}
		if out[i] < 1 {
			out[i] = 1
		}
	}
	return out
}

// genRenderShape picks a model and a mesh density that keeps a run affordable.
func genRenderShape(r *rng) (*Node, int) {
	var n *Node
	switch r.n(4) {
	case 0:
		n = genSimple(r)
	case 1:
		n = genShape(r, 3, 1)
	default:
		n = genShape(r, 3, 2)
	}
	if r.p(0.015) {
		n = genSimple(r)
		return n, r.rangei(15, 32)
	}
	if r.p(0.003) {
		if n, c := genRod(r); c < 700 {
			return n, c
		}
	}
	if r.p(0.0007) { // queues and tables of tens of thousands of entries
		return &Node{Op: []string{"sphere3", "box3", "cyl3"}[r.n(3)], Seed: r.u64() >> 32}, r.rangei(45, 75)
	}
	return n, cellsFor(r, n)
}

func genWorkers(r *rng, usual int) int {
	if r.p(0.06) {
		return r.rangei(usual+1, 40)
	}
	return r.rangei(1, usual)
}

func cellsFor(r *rng, n *Node) int {
	max := 14
	switch c := n.cost(); {
	case c > 60:
		max = 4
	case c > 20:
		max = 6
	case c > 8:
		max = 9
	}
	return r.rangei(2, max)
}

func renderBudget(s *Spec) uint64 {
	return 100_000_000
}

func init() {
	register(&property{
		id: "C01",
		gen: func(s *Spec, r *rng) {
			s.Shape, s.Cells = genRenderShape(r)
			s.Chunk = genChunks(r)
			s.Budget = renderBudget(s)
			if r.p(0.25) {
				// exact distance fields: the mesh must be closed too
				s.Scn = "closed"
				s.DSeed = r.u64() >> 32
				s.Shape = genExact(r)
				s.Cells = r.rangei(3, 14)
				if len(s.Shape.Kids) == 0 && r.p(0.04) {
					s.Cells = r.rangei(15, 70)
				} else if s.Shape.cost() < 4 && r.p(0.05) {
					s.Cells = r.rangei(15, 30)
				}
				if r.p(0.012) { // queues and tables of tens of thousands of entries
					s.Shape = &Node{Op: []string{"sphere3", "box3", "cyl3", "capsule3"}[r.n(4)], Seed: r.u64() >> 32}
					s.Cells = r.rangei(80, 170)
				}
				if r.p(0.03) { // cells far along one axis
					s.Shape, s.Cells = genRod(r)
				}
			}
		},
		exec: func(r *run) {
			s := r.spec
			want, err := freshReference(s.Shape, s.Cells)
			if err != nil {
				r.fail("reference", "rendering with one large buffer failed: %v", err)
				return
			}
			var got []r3.Triangle
			var rerr error
			o := r.simulate(s.Sched, func() {
				rd := render.NewOctreeRenderer(s.Shape.build3(), s.Cells)
				got, rerr = drain(rd, func(c int) int { return s.Chunk[c%len(s.Chunk)] }, 1<<22)
			})
			if !r.settle(o, "reading an octree renderer with read sizes "+fmt.Sprint(s.Chunk)) {
				return
			}
			if rerr != nil {
				r.fail("render-error", "reading %v triangles at a time: %v", s.Chunk, rerr)
				return
			}
			r.res.Evals++
			r.res.Nontrivial = len(want) > 0
			if d := diffMultiset(got, want); d != "" {
				r.fail("lost-triangles", "reading %v triangles at a time: %s", s.Chunk, d)
			}
			if s.Scn == "closed" {
				r.probe("closed-mesh check")
				cell := ext3(s.Shape.build3()) / float64(s.Cells)
				if at, f, w, ok := windingMismatch(newRng(s.DSeed), s.Shape.build3(), got, 3.5*cell); !ok {
					r.fail("wrong-surface", "the point %v with distance %g (cells of %g) is surrounded %d times by the %d triangles of the mesh", at, f, cell, w, len(got))
					return
				}
				if len(got) == 0 && depthOf(s.Shape.build3()) < 2*cell {
					return // thinner than the sampling grid
				}
				if len(got) == 0 {
					r.fail("open-mesh", "no triangles for a solid of %d cells", s.Cells)
					return
				}
				if bad, at := openEdges(got, 1e-7*ext3(s.Shape.build3())/float64(s.Cells)); bad > 0 {
					r.fail("open-mesh", "the mesh of a closed solid has %d open edges (near %v, %d triangles)", bad, at, len(got))
				}
				if v := signedVolume(got); v <= 0 {
					r.fail("open-mesh", "mesh encloses volume %g: triangles face inwards or are missing", v)
				}
			}
			for _, t := range got {
				k := keyOf(t)
				r.out = r.out ^ k[0]*3 ^ k[4]*5
			}
		},
	})
	register(&property{
		id: "C02", race: true,
		gen: func(s *Spec, r *rng) {
			s.Shape, s.Cells = genRenderShape(r)
			s.Conc = genWorkers(r, 8)
			s.Chunk = genChunksFor(r, s.Conc)
			s.Budget = renderBudget(s)
		},
		exec: func(r *run) {
			s := r.spec
			want, err := freshReference(s.Shape, s.Cells)
			if err != nil {
				r.fail("reference", "rendering with one large buffer failed: %v", err)
				return
			}
			var got []r3.Triangle
			var rerr error
			o := r.simulate(s.Sched, func() {
				rd := render.NewOctreeRenderer(s.Shape.build3(), s.Cells)
				render.VerifSetConcurrent(rd, s.Conc)
				got, rerr = drain(rd, func(c int) int { return s.Chunk[c%len(s.Chunk)] }, 1<<22)
			})
			if !r.settle(o, fmt.Sprintf("rendering with %d workers, read sizes %v", s.Conc, s.Chunk)) {
				return
			}
			if rerr != nil {
				r.fail("render-error", "%d workers: %v", s.Conc, rerr)
				return
			}
			r.res.Evals++
			r.res.Nontrivial = len(want) > 0 && o.st.MaxRunnable > 2
			if o.st.MaxRunnable > 2 {
				r.probe("workers overlapped")
			}
			if d := diffMultiset(got, want); d != "" {
				r.fail("lost-triangles", "%d workers, read sizes %v: %s", s.Conc, s.Chunk, d)
			}
			for _, t := range got {
				k := keyOf(t)
				r.out = (r.out ^ k[0]) * 0x100000001b3
			}
		},
	})
	register(&property{
		id: "C03", race: true,
		gen: func(s *Spec, r *rng) {
			s.Shape, s.Cells = genRenderShape(r)
			if r.p(0.7) {
				s.Conc = genWorkers(r, 6)
			}
			s.Chunk = genChunksFor(r, s.Conc+1)
			s.N = r.n(3) // guard elements beyond the buffer
			s.Budget = renderBudget(s)
		},
		exec: execContract,
	})
	register(&property{
		id: "C04", race: true,
		gen: func(s *Spec, r *rng) {
			if r.p(0.2) {
				s.Scn = "octree"
				s.Shape, s.Cells = genRenderShape(r)
				s.Conc = r.n(5)
				s.Budget = renderBudget(s)
				return
			}
			op := genScripted(r, true)
			if r.p(0.02) { // models beyond the sizes a buffer grows through
				op.N = 1 << (12 + r.n(6))
				op.N += r.n(op.N)
				op.Steps = nil
				for i := r.rangei(1, 3); i > 0; i-- {
					op.Steps = append(op.Steps, Step{N: r.rangei(op.N/2000+1, op.N/10)})
				}
				op.Seed |= 4
				if r.p(0.3) {
					op.Steps = append(op.Steps, Step{N: r.n(9)})
				}
			}
			s.Tasks = [][]Op{{op}}
			s.Tasks[0][0].Op = "renderall"
			s.Budget = 60_000_000
		},
		exec: func(r *run) {
			s := r.spec
			if s.Scn == "octree" {
				s.Tasks = [][]Op{{{Op: "renderall", Shape: s.Shape, Cells: s.Cells, Conc: s.Conc}}}
			}
			h := r.prepare(s.Tasks)
			if h == nil {
				return
			}
			o := h.run(newKernel(s.K))
			if s.Scn == "octree" {
				s.Tasks = nil
			}
			if !r.settle(o, "RenderAll") {
				return
			}
			res := h.res[0][0]
			if res.pan != "" {
				r.fail("panic", "RenderAll panicked: %s", res.pan)
				return
			}
			r.res.Evals++
			r.res.Nontrivial = len(res.want) > 0
			if res.src != nil {
				src := res.src
				if src.failed != nil {
					r.probe("renderer failed")
					r.res.Fired["renderer:error"]++
					if res.err == nil {
						r.fail("error-swallowed", "the renderer failed with %v after %d triangles and RenderAll reported success (%d triangles)", src.failed, len(src.delivered), len(res.tris))
						return
					}
					if !errors.Is(res.err, src.failed) {
						r.fail("error-replaced", "the renderer failed with %v and RenderAll reported %v", src.failed, res.err)
					}
					if len(res.tris) > 0 {
						if len(res.tris) > len(src.delivered) {
							r.fail("invented", "RenderAll returned %d triangles, the renderer delivered %d", len(res.tris), len(src.delivered))
						} else if d := diffSequence(res.tris, src.delivered[:len(res.tris)]); d != "" {
							r.fail("invented", "RenderAll's partial result is not what the renderer delivered: %s", d)
						}
					}
					return
				}
				if res.err != nil {
					r.fail("spurious-error", "RenderAll reported %v for a renderer that ended normally", res.err)
					return
				}
				if d := diffSequence(res.tris, src.tris); d != "" {
					r.fail("lost-triangles", "RenderAll: %s", d)
				} else if src.end == nil {
					r.fail("lost-triangles", "RenderAll returned before the renderer had ended")
				}
				return
			}
			if res.err != nil {
				r.fail("spurious-error", "RenderAll(octree) = %v", res.err)
				return
			}
			if d := diffMultiset(res.tris, res.want); d != "" {
				r.fail("lost-triangles", "RenderAll of an octree renderer: %s", d)
			}
		},
	})
	register(&property{
		id: "C17", race: true,
		gen: func(s *Spec, r *rng) {
			own := r.n(2) // one buffer for all, or several
			for t := r.rangei(2, 5); t > 0; t-- {
				var l []Op
				for i := r.rangei(1, 8); i > 0; i-- {
					l = append(l, Op{Op: []string{"w", "r", "r", "w", "len", "rl"}[r.n(6)], N: []int{0, 1, 2, 3, 5, 17, 100, 1500, 1023 + r.n(3), r.n(300), 1 + 6000*r.n(2)*r.n(2)}[r.n(11)], Seed: r.u64() >> 32, Cells: own * r.n(3)})
				}
				s.Tasks = append(s.Tasks, l)
			}
			s.Budget = 2_000_000
		},
		exec: execBuffer,
	})
}

// genExact returns a solid whose distance field never overestimates, so that
// pruning of empty cells is exact and the mesh must be closed.
// depthOf estimates how deep inside the solid a point can be.
func depthOf(s sdf.SDF3) float64 {
	const n = 16
	bb, d := s.Bounds(), 0.0
	for i := 0; i < n*n*n; i++ {
		p := r3.Vec{
			X: bb.Min.X + (bb.Max.X-bb.Min.X)*(float64(i%n)+0.5)/n,
			Y: bb.Min.Y + (bb.Max.Y-bb.Min.Y)*(float64(i/n%n)+0.5)/n,
			Z: bb.Min.Z + (bb.Max.Z-bb.Min.Z)*(float64(i/n/n)+0.5)/n,
		}
		d = math.Max(d, -s.Evaluate(p))
	}
	return d
}

func genExact(r *rng) *Node {
	nd := func(op string, kids ...*Node) *Node { return &Node{Op: op, Seed: r.u64() >> 32, Kids: kids} }
	leaf := func() *Node {
		return nd([]string{"sphere3", "box3", "cyl3", "lump3", "slab3", "cone3", "capsule3"}[r.n(7)])
	}
	leaf2 := func() *Node { return nd([]string{"circle2", "box2", "line2", "poly2", "nagon2"}[r.n(5)]) }
	var n *Node
	switch r.n(16) {
	case 0, 1:
		n = nd("union3x3", leaf(), leaf(), leaf())
	case 2:
		n = nd("union3self", leaf())
	case 3:
		n = nd("xform3", leaf())
	case 4:
		n = nd("multi3", leaf())
	case 5:
		n = nd("far3", leaf())
	case 6:
		n = nd("diff3", leaf(), leaf())
	case 7:
		n = nd("inter3", leaf(), leaf())
	case 8:
		n = nd("extrude3", leaf2())
	case 9, 10: // these need the field to be the distance, or they outgrow their bounds
		n = nd([]string{"shell3", "offset3"}[r.n(2)], nd([]string{"sphere3", "cyl3", "box3", "capsule3"}[r.n(4)]))
	default:
		n = leaf()
	}
	if !usable(n, 3) {
		return nd("sphere3")
	}
	return n
}

// windingMismatch looks for a point farther than far from the surface which
// the mesh does not enclose exactly once (inside) or not at all (outside).
func windingMismatch(r *rng, s sdf.SDF3, ts []r3.Triangle, far float64) (r3.Vec, float64, int, bool) {
	bb := s.Bounds()
	size := r3.Sub(bb.Max, bb.Min)
	checked := 0
	for i := 0; i < 200 && checked < 12 && checked*len(ts) < 60000; i++ {
		p := r3.Vec{X: bb.Min.X + size.X*r.u(-0.1, 1.1), Y: bb.Min.Y + size.Y*r.u(-0.1, 1.1), Z: bb.Min.Z + size.Z*r.u(-0.1, 1.1)}
		f := s.Evaluate(p)
		if math.Abs(f) < far {
			continue
		}
		checked++
		want := 0
		if f < 0 {
			want = 1
		}
		if w := winding(ts, p); w != want {
			return p, f, w, false
		}
	}
	return r3.Vec{}, 0, 0, true
}

// winding is how often the mesh surrounds p (sum of the solid angles).
func winding(ts []r3.Triangle, p r3.Vec) int {
	sum := 0.0
	for _, t := range ts {
		a, b, c := r3.Sub(t[0], p), r3.Sub(t[1], p), r3.Sub(t[2], p)
		la, lb, lc := r3.Norm(a), r3.Norm(b), r3.Norm(c)
		sum += 2 * math.Atan2(r3.Dot(a, r3.Cross(b, c)), la*lb*lc+r3.Dot(a, b)*lc+r3.Dot(b, c)*la+r3.Dot(c, a)*lb)
	}
	return int(math.Round(sum / (4 * math.Pi)))
}

func signedVolume(ts []r3.Triangle) float64 {
	v := 0.0
	for _, t := range ts {
		v += r3.Dot(t[0], r3.Cross(t[1], t[2]))
	}
	return v / 6
}

var poison = r3.Triangle{{X: math.Inf(1), Y: 1, Z: 1}, {X: 1, Y: math.Inf(-1), Z: 1}, {X: 9, Y: 9, Z: 9}}

func finiteTri(t r3.Triangle) bool {
	for _, v := range t {
		if s := v.X + v.Y + v.Z; math.IsNaN(s) || math.IsInf(s, 0) {
			return false
		}
	}
	return true
}

// execContract checks every single read of a stream against the Renderer
// contract.
func execContract(r *run) {
	s := r.spec
	levels := uint(math.Ceil(math.Log2(2*float64(s.Cells)))) + 1
	nodes := 1
	for i := uint(0); i < levels; i++ {
		nodes += 1 << (3 * i)
	}
	type viol struct{ class, msg string }
	var bad []viol
	calls, total, zero := 0, 0, 0
	want, err := freshReference(s.Shape, s.Cells)
	if err != nil {
		r.fail("reference", "rendering with one large buffer failed: %v", err)
		return
	}
	shape := s.Shape.build3()
	finite := true // some blends (MinPow) are NaN where the model is solid
	for _, t := range want {
		finite = finite && finiteTri(t)
	}
	var all []r3.Triangle
	eof := false
	o := r.simulate(s.Sched, func() {
		rd := render.NewOctreeRenderer(shape, s.Cells)
		if s.Conc > 0 {
			render.VerifSetConcurrent(rd, s.Conc)
		}
		type kept struct {
			full []r3.Triangle // whole backing array
			copy []r3.Triangle
			call int
		}
		var held []kept
		checkHeld := func(when string) {
			for _, h := range held {
				for i := range h.full {
					if keyOf(h.full[i]) != keyOf(h.copy[i]) {
						bad = append(bad, viol{"late-write", fmt.Sprintf("the buffer of read %d changed at index %d after the call returned (seen %s)", h.call, i, when)})
						return
					}
				}
			}
		}
		for !eof && len(bad) == 0 {
			k := s.Chunk[calls%len(s.Chunk)]
			full := make([]r3.Triangle, k+s.N)
			for i := range full {
				full[i] = poison
			}
			n, err := rd.ReadTriangles(full[:k])
			if n < 0 || n > k {
				bad = append(bad, viol{"bad-count", fmt.Sprintf("read %d: n=%d for a buffer of %d", calls, n, k)})
				return
			}
			for i := 0; i < n; i++ {
				if keyOf(full[i]) == keyOf(poison) {
					bad = append(bad, viol{"unwritten", fmt.Sprintf("read %d: n=%d but element %d was not written", calls, n, i)})
					return
				}
			}
			for i := k; i < len(full); i++ {
				if keyOf(full[i]) != keyOf(poison) {
					bad = append(bad, viol{"overrun", fmt.Sprintf("read %d wrote past the end of its buffer of %d", calls, k)})
					return
				}
			}
			for i := 0; i < n; i++ {
				if finite && !finiteTri(full[i]) {
					bad = append(bad, viol{"not-finite", fmt.Sprintf("read %d: element %d is %v", calls, i, full[i])})
					return
				}
			}
			all = append(all, full[:n]...)
			total += n
			if n == 0 && err == nil {
				zero++
			}
			calls++
			switch {
			case err == io.EOF:
				eof = true
			case err != nil:
				bad = append(bad, viol{"render-error", fmt.Sprintf("read %d: unexpected error %v", calls, err)})
				return
			}
			if calls > nodes+total+16 {
				bad = append(bad, viol{"no-progress", fmt.Sprintf("%d reads delivered %d triangles and no end of stream, for at most %d octree cells", calls, total, nodes)})
				return
			}
			held = append(held, kept{full, append([]r3.Triangle(nil), full...), calls})
			if len(held) > 8 {
				checkHeld("later")
				held = held[1:]
			}
		}
		checkHeld("at the end")
		for i := 0; i < 4 && len(bad) == 0; i++ {
			k := s.Chunk[i%len(s.Chunk)]
			if i == 1 {
				k = 1
			}
			buf := make([]r3.Triangle, k)
			n, err := rd.ReadTriangles(buf)
			if n != 0 || err != io.EOF {
				bad = append(bad, viol{"eof-not-sticky", fmt.Sprintf("after io.EOF another read returned n=%d err=%v", n, err)})
			}
		}
	})
	if !r.settle(o, "reading an octree renderer") {
		return
	}
	r.res.Evals += calls
	r.res.Nontrivial = calls > 2 && total > 0
	if zero > 0 {
		r.probe("empty reads")
	}
	r.out = uint64(calls)<<32 ^ uint64(total)
	if len(bad) == 0 {
		if d := diffMultiset(all, want); d != "" {
			r.fail("not-the-model", "the leading elements of the reads are not the model's triangles: %s", d)
		}
	}
	for _, b := range bad {
		r.fail(b.class, "%s", b.msg)
	}
}

// execBuffer runs producers and consumers of several TriangleBuffers - two
// behind a lock each, one private to each goroutine - and replays the
// linearised history of each buffer on a queue model.
func execBuffer(r *run) {
	type ev struct {
		op   string
		in   []r3.Triangle
		out  []r3.Triangle
		n, l int
		k    int
		bad  string
	}
	type buffer struct {
		b    render.TriangleBuffer
		mu   sync.Mutex
		hist []ev
	}
	nt := len(r.spec.Tasks)
	bufs := make([]*buffer, 2+nt)
	for i := range bufs {
		bufs[i] = &buffer{}
	}
	o := r.simulate(r.spec.Sched, func() {
		var wg sync.WaitGroup
		for t, ops := range r.spec.Tasks {
			t, ops := t, ops
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, op := range ops {
					simYield()
					x := op.Cells
					own := x > 1
					if own {
						x = 2 + t
					}
					b := bufs[x]
					lock, unlock := b.mu.Lock, b.mu.Unlock
					if own {
						lock, unlock = func() {}, func() {}
					}
					switch op.Op {
					case "w":
						in := genTris(op.Seed, op.N)
						cp := append([]r3.Triangle(nil), in...)
						lock()
						n := b.b.Write(in)
						b.hist = append(b.hist, ev{op: "w", in: cp, n: n, l: b.b.Len(), k: op.N})
						unlock()
						simYield()
						for i := range in { // the caller reuses its slice
							in[i] = garbage
						}
					case "r", "rl":
						out := make([]r3.Triangle, op.N)
						lock()
						if op.Op == "rl" { // all but a few
							if k := b.b.Len() - op.N; k >= 0 && k < 1<<20 {
								out = make([]r3.Triangle, k, k+op.N)
							}
						}
						n := b.b.Read(out)
						e := ev{op: "r", n: n, k: len(out)}
						if n < 0 || n > len(out) {
							e.bad = fmt.Sprintf("Read returned %d for a slice of %d", n, len(out))
							n = 0
						}
						e.out, e.l = append([]r3.Triangle(nil), out[:n]...), b.b.Len()
						b.hist = append(b.hist, e)
						unlock()
						simYield()
						for i := range out { // so does this one
							out[i] = garbage
						}
					default:
						lock()
						b.hist = append(b.hist, ev{op: "len", l: b.b.Len()})
						unlock()
					}
				}
			}()
		}
		wg.Wait()
	})
	if !r.settle(o, "TriangleBuffer operations") {
		return
	}
	for x, b := range bufs {
		name := fmt.Sprintf("buffer %d", x)
		if x > 1 {
			name = fmt.Sprintf("the buffer of goroutine %d", x-2)
		}
		var q []r3.Triangle
		for i, e := range b.hist {
			r.res.Evals++
			switch e.op {
			case "w":
				if e.n != len(e.in) {
					r.fail("short-write", "%s operation %d: Write of %d returned %d", name, i, len(e.in), e.n)
				}
				q = append(q, e.in...)
			case "r":
				want := e.k
				if len(q) < want {
					want = len(q)
				}
				if e.bad != "" || e.n != want {
					r.fail("bad-count", "%s operation %d: Read into %d returned %d with %d buffered", name, i, e.k, e.n, len(q))
					return
				}
				if d := diffSequence(e.out, q[:e.n]); d != "" {
					r.fail("not-fifo", "%s operation %d: Read: %s", name, i, d)
					return
				}
				q = q[e.n:]
				r.res.Nontrivial = r.res.Nontrivial || e.n > 0
			}
			if e.l != len(q) {
				r.fail("bad-len", "%s operation %d (%s): Len is %d, %d triangles are buffered", name, i, e.op, e.l, len(q))
				return
			}
			r.out = (r.out ^ uint64(e.n) ^ uint64(e.l)<<20) * 0x100000001b3
		}
	}
}
