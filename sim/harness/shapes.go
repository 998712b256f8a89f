//go:build go1.21

package main

// Deterministic construction of arbitrary SDFs from the library's whole
// catalogue. A Node fully determines the SDF: its parameters are drawn from a
// PRNG seeded with Node.Seed.

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/helpers/matter"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/internal/d2"
	"github.com/soypat/sdf/internal/d3"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// Node is a symbolic SDF.
type Node struct {
	Op   string  `json:"op"`
	Seed uint64  `json:"seed,omitempty"`
	Kids []*Node `json:"kids,omitempty"`
}

func (n *Node) size() int {
	if n == nil {
		return 0
	}
	s := 1
	for _, k := range n.Kids {
		s += k.size()
	}
	return s
}

func (n *Node) ops(f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	for _, k := range n.Kids {
		k.ops(f)
	}
}

func (n *Node) String() string {
	if n == nil {
		return "nil"
	}
	s := n.Op
	if len(n.Kids) > 0 {
		s += "("
		for i, k := range n.Kids {
			if i > 0 {
				s += ","
			}
			s += k.String()
		}
		s += ")"
	}
	return s
}

// opInfo describes a catalogue entry: result dimension and kid dimensions.
type opInfo struct {
	dim  int
	kids []int
	w    int // generation weight
	b2   func(r *rng, k []interface{}) sdf.SDF2
	b3   func(r *rng, k []interface{}) sdf.SDF3
}

func k2(k interface{}) sdf.SDF2 { return k.(sdf.SDF2) }
func k3(k interface{}) sdf.SDF3 { return k.(sdf.SDF3) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}
func or2(s sdf.SDF2, err error) sdf.SDF2 { must(err); return s }
func or3(s sdf.SDF3, err error) sdf.SDF3 { must(err); return s }

func rv2(r *rng, a float64) r2.Vec { return r2.Vec{X: r.u(-a, a), Y: r.u(-a, a)} }
func rv3(r *rng, a float64) r3.Vec { return r3.Vec{X: r.u(-a, a), Y: r.u(-a, a), Z: r.u(-a, a)} }

func rmin(r *rng) sdf.MinFunc {
	switch r.n(4) {
	case 0:
		return sdf.MinRound(r.u(0.05, 0.5))
	case 1:
		return sdf.MinExp(r.u(2, 16))
	case 2:
		return sdf.MinPow(r.u(2, 6))
	}
	return sdf.MinPoly([]int{0, 2, 2, 3, 4, 5}[r.n(6)], r.u(0.05, 0.5))
}

func rmax(r *rng) sdf.MaxFunc { return sdf.MaxPoly([]int{1, 2, 2, 3, 4}[r.n(5)], r.u(0.05, 0.5)) }

// size2/size3 keep parameters in proportion to the operand.
func ext2(s sdf.SDF2) float64 {
	b := s.Bounds()
	return math.Max(math.Max(b.Max.X-b.Min.X, b.Max.Y-b.Min.Y), 1e-3)
}
func ext3(s sdf.SDF3) float64 {
	b := s.Bounds()
	return math.Max(math.Max(math.Max(b.Max.X-b.Min.X, b.Max.Y-b.Min.Y), b.Max.Z-b.Min.Z), 1e-3)
}

// user3 is an SDF supplied by a user of the library: a lumpy ball.
type user3 struct {
	r, amp, f float64
}

func (u user3) Evaluate(p r3.Vec) float64 {
	simYield()
	d := math.Sqrt(p.X*p.X + p.Y*p.Y + p.Z*p.Z)
	simYield()
	return (d - u.r + u.amp*math.Sin(u.f*p.X)*math.Sin(u.f*p.Y)*math.Sin(u.f*p.Z)) * 0.5
}

func (u user3) Bounds() r3.Box {
	m := u.r + u.amp
	return r3.Box{Min: r3.Vec{X: -m, Y: -m, Z: -m}, Max: r3.Vec{X: m, Y: m, Z: m}}
}

// userT is a user supplied Threader.
type userT struct{ p, r, d float64 }

func (u userT) Thread() (sdf.SDF2, error) {
	return form2.Polygon([]r2.Vec{{X: u.p / 2, Y: 0}, {X: u.p / 2, Y: u.r}, {X: 0, Y: u.r + u.d}, {X: -u.p / 2, Y: u.r}, {X: -u.p / 2, Y: 0}})
}
func (u userT) ThreadParams() thread.Parameters {
	return thread.Parameters{Name: "user", Radius: u.r, Pitch: u.p, Starts: 1}
}

func rthreader(r *rng) thread.Threader {
	d := r.u(4, 16)
	p := r.u(0.7, 2)
	switch r.n(7) {
	case 0:
		return thread.ISO{D: d, P: p, Ext: true}
	case 1:
		return thread.ISO{D: d, P: p, Ext: false}
	case 2:
		return thread.UTS{D: d, TPI: 1 / p, Ext: r.p(0.5)}
	case 3:
		return thread.Acme{D: d, P: p}
	case 4:
		return thread.ANSIButtress{D: d, P: p}
	case 5:
		return thread.PlasticButtress{D: d, P: p}
	}
	return userT{p: p, r: d / 2, d: p / 3}
}

func rnpt(r *rng) thread.NPT {
	var n thread.NPT
	must(n.SetFromNominal([]float64{1. / 8, 1. / 4, 1. / 2, 1, 2, 4}[r.n(6)]))
	return n
}

func rvset2(r *rng, n int, a float64) d2.Set {
	s := make(d2.Set, n)
	for i := range s {
		s[i] = rv2(r, a)
	}
	return s
}
func rvset3(r *rng, n int, a float64) d3.Set {
	s := make(d3.Set, n)
	for i := range s {
		s[i] = rv3(r, a)
	}
	return s
}

func starPoly(r *rng, n int) []r2.Vec {
	v := make([]r2.Vec, n)
	for i := range v {
		a := 2 * math.Pi * float64(i) / float64(n)
		rad := r.u(1, 3)
		v[i] = r2.Vec{X: rad * math.Cos(a), Y: rad * math.Sin(a)}
	}
	return v
}

func pattern(r *rng) string { return []string{"xx", "x.x", "xxx", "x..xx"}[r.n(4)] }

// meshOf renders a small mesh of s with a single worker.
func meshOf(s sdf.SDF3, cells int) []r3.Triangle {
	m, err := render.RenderAll(render.NewOctreeRenderer(s, cells))
	must(err)
	if len(m) == 0 || len(m) > 6000 {
		panic("mesh unsuitable for import")
	}
	return m
}

var catalogue = map[string]*opInfo{
	// 2D primitives
	"circle2": {dim: 2, w: 4, b2: func(r *rng, k []interface{}) sdf.SDF2 { return or2(form2.Circle(r.u(0.3, 4))) }},
	"box2": {dim: 2, w: 4, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		return or2(form2.Box(r2.Vec{X: r.u(0.5, 5), Y: r.u(0.5, 5)}, r.u(0, 0.2)))
	}},
	"line2": {dim: 2, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 { return or2(form2.Line(r.u(0.5, 4), r.u(0.1, 1))) }},
	"poly2": {dim: 2, w: 3, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		n := r.rangei(3, 9)
		if r.p(0.1) {
			n = r.rangei(10, 90)
		}
		return or2(form2.Polygon(starPoly(r, n)))
	}},
	"nagon2": {dim: 2, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		s, err := form2.Nagon(r.rangei(3, 8), r.u(1, 4))
		must(err)
		return or2(form2.Polygon(s))
	}},
	"spoly2": {dim: 2, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		p := must2.NewPolygon()
		w, h := r.u(1.5, 4), r.u(1.5, 4)
		p.Add(0, 0)
		p.Add(w, 0).Rel().Smooth(r.u(0.1, 0.4), r.rangei(1, 5))
		p.Add(0, h).Rel().Chamfer(r.u(0.05, 0.3))
		p.Add(-w, 0).Rel().Arc(w*r.u(0.6, 2), r.rangei(2, 6))
		if r.p(0.5) {
			p.Close()
		}
		if r.p(0.3) {
			p.Reverse()
		}
		return or2(form2.Polygon(p.Vertices()))
	}},
	"thread2": {dim: 2, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return or2(rthreader(r).Thread()) }},
	"panel2":  {dim: 2, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return or2(obj2.Panel(rpanel(r))) }},
	"euro2":   {dim: 2, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return or2(obj2.EuroRackPanel(reuro(r))) }},
	"ppoly2": {dim: 2, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { // polar, relative and dropped vertices
		p := form2.NewPolygon()
		n := r.rangei(3, 7)
		for i := 0; i < n; i++ {
			p.Add(r.u(1, 3), 2*math.Pi*float64(i)/float64(n)).Polar()
		}
		p.Add(0.3, 0.2).Rel()
		if r.p(0.5) {
			p.Add(9, 9)
			p.Drop()
		}
		if p.Closed() || r.p(0.5) {
			p.Close()
		}
		return or2(form2.Polygon(p.Vertices()))
	}},
	// 2D combinators
	"union2": {dim: 2, kids: []int{2, 2}, w: 3, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		u := sdf.Union2D(k2(k[0]), k2(k[1]))
		if r.p(0.6) {
			u.SetMin(rmin(r))
		}
		return u
	}},
	"union2x3": {dim: 2, kids: []int{2, 2, 2}, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		u := sdf.Union2D(k2(k[0]), k2(k[1]), k2(k[2]))
		if r.p(0.4) {
			u.SetMin(rmin(r))
		}
		return u
	}},
	"diff2": {dim: 2, kids: []int{2, 2}, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		d := sdf.Difference2D(k2(k[0]), sdf.ScaleUniform2D(k2(k[1]), 0.5*ext2(k2(k[0]))/ext2(k2(k[1]))))
		if r.p(0.5) {
			d.SetMax(rmax(r))
		}
		return d
	}},
	"inter2": {dim: 2, kids: []int{2, 2}, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		d := sdf.Intersect2D(k2(k[0]), k2(k[1]))
		if r.p(0.5) {
			d.SetMax(rmax(r))
		}
		return d
	}},
	"cut2": {dim: 2, kids: []int{2}, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		if r.grid { // along or against one direction
			return sdf.Cut2D(k2(k[0]), rv2(r, 0.2), r2.Vec{X: r.sign()})
		}
		return sdf.Cut2D(k2(k[0]), rv2(r, 0.2), r2.Vec{X: r.u(0.2, 1), Y: r.u(-1, 1)})
	}},
	"xform2": {dim: 2, kids: []int{2}, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		switch r.n(6) {
		case 4:
			return sdf.Transform2D(k2(k[0]), sdf.MirrorY().Mul(sdf.Translate2D(rv2(r, 2))))
		case 5:
			return sdf.Transform2D(k2(k[0]), sdf.Scale2D(r2.Vec{X: r.u(0.5, 1), Y: r.u(0.5, 1)}))
		case 0:
			return sdf.Transform2D(k2(k[0]), sdf.Translate2D(rv2(r, 2)))
		case 1:
			return sdf.Transform2D(k2(k[0]), sdf.Rotate2D(r.u(-3, 3)))
		case 2:
			return sdf.Transform2D(k2(k[0]), sdf.MirrorX())
		}
		return sdf.Transform2D(k2(k[0]), sdf.Translate2D(rv2(r, 1)).Mul(sdf.Rotate2D(r.u(-3, 3))))
	}},
	"scale2":  {dim: 2, kids: []int{2}, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return sdf.ScaleUniform2D(k2(k[0]), r.u(0.3, 2)) }},
	"center2": {dim: 2, kids: []int{2}, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return sdf.Center2D(k2(k[0])) }},
	"cscale2": {dim: 2, kids: []int{2}, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return sdf.CenterAndScale2D(k2(k[0]), r.u(0.5, 2)) }},
	"offset2": {dim: 2, kids: []int{2}, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return sdf.Offset2D(k2(k[0]), r.u(0.05, 0.4)) }},
	"elong2":  {dim: 2, kids: []int{2}, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return sdf.Elongate2D(k2(k[0]), rv2(r, 1.5)) }},
	"array2": {dim: 2, kids: []int{2}, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		e := ext2(k2(k[0]))
		if r.grid {
			e = 4
		}
		u := sdf.Array2D(k2(k[0]), sdf.V2i{r.rangei(1, 3), r.rangei(1, 3)}, r2.Vec{X: e * r.u(0.7, 1.5), Y: e * r.u(0.7, 1.5)})
		if r.p(0.4) {
			u.SetMin(rmin(r))
		}
		return u
	}},
	"rotunion2": {dim: 2, kids: []int{2}, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		n := r.rangei(2, 5)
		u := sdf.RotateUnion2D(sdf.Transform2D(k2(k[0]), sdf.Translate2D(rv2(r, ext2(k2(k[0]))))), n, sdf.Rotate2D(2*math.Pi/float64(n)))
		if m, ok := u.(minSetter); ok && r.p(0.3) {
			m.SetMin(rmin(r))
		}
		return u
	}},
	"rotcopy2": {dim: 2, kids: []int{2}, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return sdf.RotateCopy2D(k2(k[0]), r.rangei(2, 6)) }},
	"lineof2": {dim: 2, kids: []int{2}, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		return sdf.LineOf2D(k2(k[0]), rv2(r, 3), rv2(r, 3), pattern(r))
	}},
	"multi2": {dim: 2, kids: []int{2}, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 { return sdf.Multi2D(k2(k[0]), rvset2(r, r.rangei(2, 4), 3)) }},
	"slice2": {dim: 2, kids: []int{3}, w: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		n := []r3.Vec{{Z: 1}, {X: 1}, {Y: 1}, {X: 1, Y: 1, Z: 1}}[r.n(4)]
		return sdf.Slice2D(k3(k[0]), rv3(r, 0.2), n)
	}},
	// 3D primitives
	"sphere3": {dim: 3, w: 4, b3: func(r *rng, k []interface{}) sdf.SDF3 { return or3(form3.Sphere(r.u(0.5, 4))) }},
	"box3": {dim: 3, w: 4, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return or3(form3.Box(r3.Vec{X: r.u(0.6, 5), Y: r.u(0.6, 5), Z: r.u(0.6, 5)}, r.u(0, 0.25)))
	}},
	"cyl3": {dim: 3, w: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return or3(form3.Cylinder(r.u(1, 5), r.u(0.5, 3), r.u(0, 0.3)))
	}},
	"capsule3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		a := r.u(0.4, 1.5)
		return or3(form3.Capsule(a*r.u(2.2, 5), a))
	}},
	"cone3": {dim: 3, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return or3(form3.Cone(r.u(1, 4), r.u(0.5, 2), r.u(0.5, 2), r.u(0, 0.2)))
	}},
	"user3": {dim: 3, w: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 { return user3{r: r.u(1, 4), amp: r.u(0, 0.4), f: r.u(1, 5)} }},
	// a lumpy ball whose field never overestimates the distance
	"lump3": {dim: 3, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		f := r.u(1, 5)
		return user3{r: r.u(1, 4), amp: r.u(0, 0.9/f), f: f}
	}},
	"slab3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		v := r3.Vec{X: r.u(0.3, 3), Y: r.u(0.3, 3), Z: r.u(5, 25)}
		if r.p(0.5) {
			v.X, v.Z = v.Z, v.X
		}
		return or3(form3.Box(v, 0))
	}},
	"far3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return sdf.Transform3D(k3(k[0]), sdf.Translate3D(rv3(r, []float64{30, 1000, 1e4}[r.n(3)])))
	}},
	"hex3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		a := r.u(2, 6)
		return or3(thread.HexHead(a, a*r.u(0.4, 1), []string{"", "t", "b", "tb"}[r.n(4)]))
	}},
	"knurl3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		a := r.u(2, 6)
		return or3(thread.Knurl(thread.KnurlParams{Length: a * r.u(0.5, 2), Radius: a, Pitch: a * r.u(0.1, 0.3), Height: a * r.u(0.05, 0.1), Theta: r.u(0.3, 1)}))
	}},
	"khead3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		a := r.u(2, 6)
		return or3(thread.KnurledHead(a, a*r.u(0.6, 1.5), a*r.u(0.15, 0.3)))
	}},
	"screw3": {dim: 3, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 { return or3(thread.Screw(r.u(3, 15), rthreader(r))) }},
	"npt3":   {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return or3(thread.Screw(r.u(0.3, 1), rnpt(r))) }},
	"bolt3": {dim: 3, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		l := r.u(6, 20)
		return or3(thread.Bolt(thread.BoltParms{Thread: rthreader(r), Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl}[r.n(2)], TotalLength: l, ShankLength: l * r.u(0.1, 0.5)}))
	}},
	"nut3": {dim: 3, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return or3(thread.Nut(thread.NutParms{Thread: rthreader(r), Style: []thread.NutStyle{thread.NutCircular, thread.NutHex, thread.NutKnurl}[r.n(3)]}))
	}},
	"standoff3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return or3(obj3.Standoff(obj3.StandoffParams{PillarHeight: r.u(8, 18), PillarDiameter: r.u(4, 8), HoleDepth: r.u(-4, 8), HoleDiameter: r.u(1, 3),
			NumberWebs: r.n(5), WebHeight: r.u(3, 10), WebDiameter: r.u(9, 14), WebWidth: r.u(1, 3)}))
	}},
	"panel3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return or3(obj3.Panel(rpanel(r))) }},
	"phole3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return or3(obj3.PanelHole(&obj3.PanelHoleParams{Diameter: r.u(3, 8), Thickness: r.u(1, 4), Indent: r3.Vec{X: r.u(0.5, 2), Y: r.u(0.5, 2), Z: r.u(0.5, 2)}, Offset: r.u(4, 8), Orientation: r.u(0, 6)}))
	}},
	"euro3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return or3(obj3.EuroRackPanel(reuro(r))) }},
	// a long thin bar: few cells across, many along
	"rod3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		d := newRod(r)
		return or3(form3.Box(d.along(r3.Vec{X: d.l, Y: d.w, Z: d.h}), 0))
	}},
	// the same without the symmetry
	"rods3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		d := newRod(r)
		return sdf.Transform3D(or3(form3.Box(d.along(r3.Vec{X: d.l, Y: d.w, Z: d.h}), 0)), sdf.Translate3D(rv3(r, d.l/d.cells)))
	}},
	// a long thin cone
	"rodc3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		d := newRod(r)
		c := or3(form3.Cone(d.l, d.w/2, d.h/2, 0))
		switch d.axis {
		case 0:
			return sdf.Transform3D(c, sdf.RotateY(math.Pi/2))
		case 1:
			return sdf.Transform3D(c, sdf.RotateX(math.Pi/2))
		}
		return c
	}},
	// not uniform, so no distance field
	"squash3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return sdf.Transform3D(k3(k[0]), sdf.Scale3D(r3.Vec{X: r.u(0.5, 1), Y: r.u(0.5, 1), Z: r.u(0.5, 1)}))
	}},
	// 2D -> 3D
	"extrude3":  {dim: 3, kids: []int{2}, w: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 { return sdf.Extrude3D(k2(k[0]), r.u(0.5, 4)) }},
	"extrudeR3": {dim: 3, kids: []int{2}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return sdf.ExtrudeRounded3D(k2(k[0]), r.u(1, 4), r.u(0, 0.3)) }},
	"extrudeT3": {dim: 3, kids: []int{2}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return sdf.TwistExtrude3D(k2(k[0]), r.u(0.5, 4), r.u(-2, 2)) }},
	"extrudeS3": {dim: 3, kids: []int{2}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return sdf.ScaleExtrude3D(k2(k[0]), r.u(0.5, 4), r2.Vec{X: r.u(0.4, 1.2), Y: r.u(0.4, 1.2)})
	}},
	"extrudeST3": {dim: 3, kids: []int{2}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return sdf.ScaleTwistExtrude3D(k2(k[0]), r.u(0.5, 4), r.u(-2, 2), r2.Vec{X: r.u(0.4, 1.2), Y: r.u(0.4, 1.2)})
	}},
	"revolve3": {dim: 3, kids: []int{2}, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		s := sdf.Transform2D(k2(k[0]), sdf.Translate2D(r2.Vec{X: ext2(k2(k[0])) * r.u(0.2, 1)}))
		return sdf.Revolve3D(s, []float64{0, r.u(0.5, 6)}[r.n(2)])
	}},
	"loft3": {dim: 3, kids: []int{2, 2}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return sdf.Loft3D(k2(k[0]), k2(k[1]), r.u(1, 4), r.u(0, 0.2)) }},
	// 3D combinators
	"union3": {dim: 3, kids: []int{3, 3}, w: 4, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		u := sdf.Union3D(k3(k[0]), k3(k[1]))
		if r.p(0.5) {
			u.SetMin(rmin(r))
		}
		return u
	}},
	"union3self": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return sdf.Union3D(k3(k[0]), sdf.Transform3D(k3(k[0]), sdf.Translate3D(rv3(r, ext3(k3(k[0]))))))
	}},
	"union3x3": {dim: 3, kids: []int{3, 3, 3}, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return sdf.Union3D(k3(k[0]), k3(k[1]), k3(k[2]))
	}},
	"blend3x3": {dim: 3, kids: []int{3, 3, 3}, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		u := sdf.Union3D(k3(k[0]), k3(k[1]), k3(k[2]))
		u.SetMin(rmin(r))
		return u
	}},
	// many operands
	"many2": {dim: 2, kids: []int{2}, w: 1, b2: func(r *rng, k []interface{}) sdf.SDF2 {
		var l []sdf.SDF2
		for i := r.rangei(5, 18); i > 0; i-- {
			l = append(l, sdf.Transform2D(k2(k[0]), sdf.Translate2D(rv2(r, 2*ext2(k2(k[0]))))))
		}
		u := sdf.Union2D(l...)
		if r.p(0.3) {
			u.SetMin(rmin(r))
		}
		return u
	}},
	"many3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		var l []sdf.SDF3
		for i := r.rangei(5, 18); i > 0; i-- {
			l = append(l, sdf.Transform3D(k3(k[0]), sdf.Translate3D(rv3(r, 2*ext3(k3(k[0]))))))
		}
		u := sdf.Union3D(l...)
		if r.p(0.3) {
			u.SetMin(rmin(r))
		}
		return u
	}},
	"diff3": {dim: 3, kids: []int{3, 3}, w: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		d := sdf.Difference3D(k3(k[0]), sdf.ScaleUniform3D(k3(k[1]), r.u(0.4, 0.8)*ext3(k3(k[0]))/ext3(k3(k[1]))))
		if r.p(0.4) {
			d.SetMax(rmax(r))
		}
		return d
	}},
	"inter3": {dim: 3, kids: []int{3, 3}, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		d := sdf.Intersect3D(k3(k[0]), k3(k[1]))
		if r.p(0.4) {
			d.SetMax(rmax(r))
		}
		return d
	}},
	"cut3": {dim: 3, kids: []int{3}, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		if r.grid { // along or against one direction
			return sdf.Cut3D(k3(k[0]), rv3(r, 0.1*ext3(k3(k[0]))), r3.Vec{X: r.sign()})
		}
		return sdf.Cut3D(k3(k[0]), rv3(r, 0.1*ext3(k3(k[0]))), r3.Vec{X: r.u(0.1, 1), Y: r.u(-1, 1), Z: r.u(-1, 1)})
	}},
	"elong3":  {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return sdf.Elongate3D(k3(k[0]), rv3(r, ext3(k3(k[0])))) }},
	"offset3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return sdf.Offset3D(k3(k[0]), ext3(k3(k[0]))*r.u(0.02, 0.15)) }},
	"shell3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return sdf.Shell3D(k3(k[0]), ext3(k3(k[0]))*r.u(0.15, 0.4)*[]float64{1, 1, 1, 1, 1, 1, 1, 0.1}[r.n(8)])
	}},
	"scale3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return sdf.ScaleUniform3D(k3(k[0]), r.u(0.3, 3)) }},
	"xform3": {dim: 3, kids: []int{3}, w: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		s := k3(k[0])
		switch r.n(6) {
		case 5:
			return sdf.Transform3D(s, sdf.MirrorXZ().Mul(sdf.Translate3D(rv3(r, 1))))
		case 0:
			return sdf.Transform3D(s, sdf.Translate3D(rv3(r, 3)))
		case 1:
			return sdf.Transform3D(s, sdf.Rotate3D(r3.Vec{X: r.u(0.1, 1), Y: r.u(0.1, 1), Z: r.u(0.1, 1)}, r.u(-3, 3)))
		case 2:
			return sdf.Transform3D(s, sdf.RotateX(r.u(-3, 3)).Mul(sdf.RotateY(r.u(-3, 3))).Mul(sdf.RotateZ(r.u(-3, 3))))
		case 3:
			return sdf.Transform3D(s, sdf.MirrorXY().Mul(sdf.MirrorYZ()))
		}
		return sdf.Transform3D(s, sdf.MirrorXeqY().Mul(sdf.Translate3D(rv3(r, 1))))
	}},
	"array3": {dim: 3, kids: []int{3}, w: 2, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		e := ext3(k3(k[0]))
		if r.grid {
			e = 4
		}
		u := sdf.Array3D(k3(k[0]), sdf.V3i{r.rangei(1, 2), r.rangei(1, 2), r.rangei(1, 3)}, r3.Vec{X: e * r.u(0.7, 1.4), Y: e * r.u(0.7, 1.4), Z: e * r.u(0.7, 1.4)})
		if r.p(0.3) {
			u.SetMin(rmin(r))
		}
		return u
	}},
	"rotunion3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		n := r.rangei(2, 4)
		u := sdf.RotateUnion3D(sdf.Transform3D(k3(k[0]), sdf.Translate3D(r3.Vec{X: ext3(k3(k[0])) * r.u(0.3, 1)})), n, sdf.RotateZ(2*math.Pi/float64(n)))
		if r.p(0.3) {
			u.SetMin(rmin(r))
		}
		return u
	}},
	"rotcopy3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return sdf.RotateCopy3D(k3(k[0]), r.rangei(2, 6)) }},
	"lineof3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		e := ext3(k3(k[0]))
		return sdf.LineOf3D(k3(k[0]), rv3(r, e), rv3(r, e), pattern(r))
	}},
	"multi3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return sdf.Multi3D(k3(k[0]), rvset3(r, r.rangei(2, 3), ext3(k3(k[0]))))
	}},
	"orient3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return sdf.Orient3D(k3(k[0]), r3.Vec{Z: 1}, rvset3(r, r.rangei(2, 3), 1))
	}},
	"chamf3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return or3(form3.ChamferedCylinder(k3(k[0]), r.u(0, 0.4), r.u(0, 0.4)))
	}},
	"chcyl3": {dim: 3, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return must3.ChamferedCylinder(must3.Cylinder(r.u(2, 6), r.u(1, 3), 0), 0.3, 0.5)
	}},
	"pla3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		matter.PLA.InternalDimScale(r.u(1, 5))
		return matter.PLA.Scale(k3(k[0]))
	}},
	"ideal3": {dim: 3, kids: []int{3}, w: 1, b3: func(r *rng, k []interface{}) sdf.SDF3 { return matter.Ideal{}.Scale(k3(k[0])) }},
	// imported meshes
	"import3": {dim: 3, kids: []int{3}, w: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		s, err := sdfexp.ImportModel(meshOf(k3(k[0]), r.rangei(3, 6)), 0)
		must(err)
		return s
	}},
	"importbih3": {dim: 3, kids: []int{3}, w: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		m := meshOf(k3(k[0]), r.rangei(3, 6))
		s, err := sdfexp.ImportModelV2(m, 1e-6*ext3(k3(k[0])))
		must(err)
		return s
	}},
}

// rod is the dimensions of a bar along an axis and the number of cells along
// it that make it about two to four cells thick.
type rod struct {
	l, w, h, cells float64
	axis           int
}

func newRod(r *rng) rod {
	d := rod{l: r.u(5, 50), cells: math.Exp(r.u(math.Log(40), math.Log(2600))), axis: r.n(3)}
	d.w, d.h = r.u(1.7, 4)*d.l/d.cells, r.u(1.7, 4)*d.l/d.cells
	return d
}

func (d rod) along(v r3.Vec) r3.Vec {
	switch d.axis {
	case 1:
		return r3.Vec{X: v.Z, Y: v.X, Z: v.Y}
	case 2:
		return r3.Vec{X: v.Y, Y: v.Z, Z: v.X}
	}
	return v
}

// genRod returns a bar and its mesh density.
func genRod(r *rng) (*Node, int) {
	n := &Node{Op: []string{"rod3", "rods3", "rodc3", "rodc3"}[r.n(4)], Seed: r.u64() >> 32}
	c := newRod(paramRng(n.Seed)).cells
	if r.p(0.3) { // where another level of the octree begins
		k := math.Exp2(math.Round(math.Log2(c)))
		return n, int(k*(1+r.u(-0.002, 0.012))) + r.n(2)
	}
	return n, int(c)
}

func reuro(r *rng) obj2.EuroRackParams {
	return obj2.EuroRackParams{U: []float64{1, 3}[r.n(2)], HP: float64(r.rangei(2, 20)), CornerRadius: r.u(0, 2), HoleDiameter: r.u(1, 4), Thickness: r.u(1, 4), Ridge: r.p(0.5)}
}

func rpanel(r *rng) obj2.PanelParams {
	k := obj2.PanelParams{Size: r2.Vec{X: r.u(10, 40), Y: r.u(10, 40)}, CornerRadius: r.u(0, 2), Thickness: r.u(1, 5)}
	if r.p(0.8) {
		k.HoleDiameter = r.u(1, 3)
		k.HoleMargin = [4]float64{3, 3, 3, 3}
		k.HolePattern = [4]string{pattern(r), pattern(r), pattern(r), pattern(r)}
	}
	return k
}

var catNames, catNames2, catNames3 []string
var leaves = map[int][]string{}

func init() {
	for n := range catalogue {
		catNames = append(catNames, n)
	}
	sortStrings(catNames)
	for _, n := range catNames {
		c := catalogue[n]
		if c.dim == 2 {
			catNames2 = append(catNames2, n)
		} else {
			catNames3 = append(catNames3, n)
		}
		if len(c.kids) == 0 {
			leaves[c.dim] = append(leaves[c.dim], n)
		}
	}
}

func pick(r *rng, names []string) string {
	tot := 0
	for _, n := range names {
		tot += catalogue[n].w
	}
	x := r.n(tot)
	for _, n := range names {
		if x -= catalogue[n].w; x < 0 {
			return n
		}
	}
	panic("unreachable")
}

func genNode(r *rng, dim, depth int) *Node {
	names := catNames3
	if dim == 2 {
		names = catNames2
	}
	if depth <= 0 {
		names = leaves[dim]
	}
	n := &Node{Op: pick(r, names), Seed: r.u64() >> 32}
	for _, d := range catalogue[n.Op].kids {
		n.Kids = append(n.Kids, genNode(r, d, depth-1-r.n(2)))
	}
	return n
}

// build2/build3 construct a fresh instance.
func (n *Node) build() interface{} {
	c := catalogue[n.Op]
	if c == nil {
		panic("unknown shape " + n.Op)
	}
	var kids []interface{}
	for _, k := range n.Kids {
		kids = append(kids, k.build())
	}
	r := paramRng(n.Seed)
	if c.dim == 2 {
		return c.b2(r, kids)
	}
	return c.b3(r, kids)
}

func (n *Node) build3() sdf.SDF3 { return n.build().(sdf.SDF3) }
func (n *Node) build2() sdf.SDF2 { return n.build().(sdf.SDF2) }

// try builds the node, reporting constructor panics and errors as err.
func (n *Node) try() (s interface{}, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return n.build(), nil
}

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) && math.Abs(x) < 1e9 }

// genShape returns a symbolic SDF that the constructors accept and whose
// bounds are finite and not degenerate.
func genShape(r *rng, dim, depth int) *Node {
	for i := 0; i < 30; i++ {
		n := genNode(r, dim, depth)
		if n.size() > 14 {
			continue
		}
		if usable(n, dim) {
			return n
		}
	}
	if dim == 2 {
		return &Node{Op: "circle2", Seed: r.u64() >> 32}
	}
	return &Node{Op: "sphere3", Seed: r.u64() >> 32}
}

func usable(n *Node, dim int) bool {
	s, err := n.try()
	if err != nil || s == nil {
		return false
	}
	if dim == 2 {
		b := s.(sdf.SDF2).Bounds()
		return finite(b.Min.X) && finite(b.Min.Y) && finite(b.Max.X) && finite(b.Max.Y) && b.Max.X > b.Min.X && b.Max.Y > b.Min.Y
	}
	b := s.(sdf.SDF3).Bounds()
	ok := finite(b.Min.X) && finite(b.Min.Y) && finite(b.Min.Z) && finite(b.Max.X) && finite(b.Max.Y) && finite(b.Max.Z) &&
		b.Max.X > b.Min.X && b.Max.Y > b.Min.Y && b.Max.Z > b.Min.Z
	if !ok {
		return false
	}
	return finite(k3(s).Evaluate(r3.Vec{X: 0.1, Y: 0.2, Z: 0.3}))
}

// cost estimates the number of primitive evaluations of one Evaluate call.
func (n *Node) cost() int {
	c := 1
	for _, k := range n.Kids {
		c += k.cost()
	}
	switch n.Op {
	case "array2", "array3":
		c *= 6
	case "many2", "many3":
		c *= 12
	case "rotunion2", "rotunion3", "multi2", "multi3", "lineof2", "lineof3", "orient3":
		c *= 4
	case "import3", "importbih3":
		c = 40
	case "poly2", "spoly2", "thread2", "nagon2", "ppoly2":
		c = 8
	case "bolt3", "nut3", "khead3", "knurl3":
		c = 40
	case "screw3", "npt3", "standoff3":
		c = 15
	case "panel2", "panel3", "euro2", "euro3":
		c = 15
	}
	return c
}

// gridify gives n parameters that are likely to be shared with other nodes.
func gridify(n *Node) *Node {
	if n == nil {
		return nil
	}
	c := &Node{Op: n.Op, Seed: n.Seed | gridBit}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, gridify(k))
	}
	return c
}

// genSimple returns a cheap SDF for runs that are about the pipeline rather
// than the shape.
func genSimple(r *rng) *Node {
	ops := []string{"sphere3", "box3", "cyl3", "user3", "cone3", "union3", "diff3", "extrude3"}
	n := &Node{Op: ops[r.n(len(ops))], Seed: r.u64() >> 32}
	for _, d := range catalogue[n.Op].kids {
		n.Kids = append(n.Kids, &Node{Op: map[int][]string{2: {"circle2", "box2", "line2"}, 3: {"sphere3", "box3", "cyl3"}}[d][r.n(3)], Seed: r.u64() >> 32})
	}
	if !usable(n, 3) {
		return &Node{Op: "sphere3", Seed: n.Seed}
	}
	return n
}

// shrinkNode returns simpler nodes of the same dimension.
func shrinkNode(n *Node) []*Node {
	if n == nil {
		return nil
	}
	dim := catalogue[n.Op].dim
	var out []*Node
	simple := "sphere3"
	if dim == 2 {
		simple = "circle2"
	}
	if n.Op != simple {
		out = append(out, &Node{Op: simple, Seed: n.Seed})
	}
	for _, k := range n.Kids {
		if catalogue[k.Op].dim == dim {
			out = append(out, k)
		}
	}
	for i, k := range n.Kids {
		for _, s := range shrinkNode(k) {
			c := &Node{Op: n.Op, Seed: n.Seed, Kids: append([]*Node(nil), n.Kids...)}
			c.Kids[i] = s
			out = append(out, c)
		}
	}
	return out
}
