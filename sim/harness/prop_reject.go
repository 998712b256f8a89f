//go:build go1.21

package main

// C22: requests that are rejected leave no trace. The histories are those of
// C19, with constructions, imports, evaluations and readings that fail woven
// in: parameters out of range, operands missing, user supplied SDFs and
// threads that panic or report errors.

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/helpers/matter"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/internal/d2"
	"github.com/soypat/sdf/internal/d3"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

var errModified = errors.New("the caller's data was modified")

// boomBox3 fails as soon as its bounds are asked for.
type boomBox3 struct{ user3 }

func (boomBox3) Bounds() r3.Box { simYield(); panic("no bounds today") }

type boomBox2 struct{ sdf.SDF2 }

func (boomBox2) Bounds() r2.Box { simYield(); panic("no flat bounds today") }

// boom3 fails beyond a plane.
type boom3 struct {
	user3
	at float64
}

func (u boom3) Evaluate(p r3.Vec) float64 {
	simYield()
	if p.X > u.at {
		panic("cannot evaluate this far out")
	}
	return u.user3.Evaluate(p)
}

// edgy3 and edgy2 are sound, but refuse points that are none.
type edgy3 struct{ user3 }

func (u edgy3) Evaluate(p r3.Vec) float64 {
	if math.IsNaN(p.X + p.Y + p.Z) {
		simYield()
		panic("not a point")
	}
	return u.user3.Evaluate(p)
}

type edgy2 struct{ r float64 }

func (u edgy2) Evaluate(p r2.Vec) float64 {
	simYield()
	if math.IsNaN(p.X + p.Y) {
		panic("not a flat point")
	}
	return math.Hypot(p.X, p.Y) - u.r
}
func (u edgy2) Bounds() r2.Box {
	return r2.Box{Min: r2.Vec{X: -u.r, Y: -u.r}, Max: r2.Vec{X: u.r, Y: u.r}}
}

// lousyT is a user supplied Threader that fails in one way or another.
type lousyT struct {
	userT
	how int
}

func (u lousyT) Thread() (sdf.SDF2, error) {
	simYield()
	switch u.how {
	case 0:
		return nil, errors.New("no thread today")
	case 1:
		panic("thread torn")
	case 2:
		return form2.Polygon([]r2.Vec{{X: 1}, {Y: 1}})
	}
	return u.userT.Thread()
}

func (u lousyT) ThreadParams() thread.Parameters {
	simYield()
	if u.how == 3 {
		panic("no parameters today")
	}
	p := u.userT.ThreadParams()
	if u.how == 4 {
		p.Radius = -1
	}
	return p
}

type badCase struct {
	kin []string // what an accepted request of this kind makes
	f   func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error)
}

func sd2(s sdf.SDF2, err error) (interface{}, error) { return s, err }
func sd3(s sdf.SDF3, err error) (interface{}, error) { return s, err }

// neg returns something that is not a length.
func neg(r *rng) float64 { return []float64{-1, -0.25, -1e9, math.Inf(-1), -1e-12}[r.n(5)] }

var badCases = map[string]badCase{
	"circle": {[]string{"circle2"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) { return sd2(form2.Circle(neg(r))) }},
	"mustcircle": {[]string{"circle2"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		return must2.Circle(neg(r)), nil
	}},
	"polygon": {[]string{"poly2", "nagon2"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		v := spare2(r, starPoly(r, 6)[:r.n(3)])
		snap := v2snap(v[:cap(v)])
		before := snap()
		o, err := form2.Polygon(v)
		if snap() != before {
			return nil, errModified
		}
		return sd2(o, err)
	}},
	"nagon": {[]string{"nagon2"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		v, err := form2.Nagon(r.n(3)-1, r.u(1, 2))
		if err != nil {
			return nil, err
		}
		return sd2(form2.Polygon(v))
	}},
	"builder": {[]string{"ppoly2"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		p := form2.NewPolygon()
		p.Add(r.u(1, 2), 0).Rel()
		for i := r.n(3); i > 0; i-- {
			p.Add(r.u(-2, 2), r.u(-2, 2)).Smooth(0.1, 3)
		}
		return must2.Polygon(p.Vertices()), nil
	}},
	"box": {[]string{"box3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		s, round := r3.Vec{X: r.u(1, 2), Y: r.u(1, 2), Z: r.u(1, 2)}, 0.1
		if r.p(0.5) {
			s.Y = neg(r)
		} else {
			round = neg(r)
		}
		if r.p(0.3) {
			return must3.Box(s, round), nil
		}
		return sd3(form3.Box(s, round))
	}},
	"sphere": {[]string{"sphere3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) { return sd3(form3.Sphere(neg(r))) }},
	"cylinder": {[]string{"cyl3", "capsule3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		h, rad, round := r.u(2, 4), r.u(1, 2), 0.2
		switch r.n(4) {
		case 0:
			h = neg(r)
		case 1:
			rad = neg(r)
		case 2:
			round = neg(r)
		default:
			round = rad + 1
		}
		if r.p(0.3) {
			return must3.Cylinder(h, rad, round), nil
		}
		return sd3(form3.Cylinder(h, rad, round))
	}},
	"cone": {[]string{"cone3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		h, round := r.u(2, 4), 0.2
		switch r.n(3) {
		case 0:
			h = neg(r)
		case 1:
			round = neg(r)
		default:
			round = h
		}
		return sd3(form3.Cone(h, r.u(1, 2), r.u(0.5, 1), round))
	}},
	"chamfered": {[]string{"chcyl3", "chamf3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		return sd3(form3.ChamferedCylinder(boomBox3{user3{r: 1}}, 0.1, 0.1))
	}},
	"union2": {[]string{"union2", "union2x3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		switch r.n(4) {
		case 0:
			return sdf.Union2D(a), nil
		case 1:
			return sdf.Union2D(a, nil), nil
		case 2:
			return sdf.Union2D(a, boomBox2{a}), nil
		}
		l := []sdf.SDF2{a, edgy2{1}, nil, a}
		o := sdf.Union2D(l...)
		return o, nil
	}},
	"union3": {[]string{"union3", "union3x3", "union3self", "blend3x3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		var l []sdf.SDF3
		switch r.n(4) {
		case 0:
			l = []sdf.SDF3{b}
		case 1:
			l = []sdf.SDF3{b, nil}
		case 2:
			l = []sdf.SDF3{b, boomBox3{user3{r: 1}}, b}
		default:
			l = []sdf.SDF3{b, edgy3{user3{r: 1}}, nil, b}
		}
		keep := append([]sdf.SDF3(nil), l...)
		defer func() {
			for i := range l {
				if !same(l[i], keep[i]) {
					panic(errModified)
				}
			}
		}()
		return sdf.Union3D(l...), nil
	}},
	"difference": {[]string{"diff2", "diff3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		switch r.n(4) {
		case 0:
			return sdf.Difference2D(a, nil), nil
		case 1:
			return sdf.Difference3D(b, nil), nil
		case 2:
			return sdf.Difference2D(boomBox2{a}, a), nil
		}
		return sdf.Difference3D(boomBox3{user3{r: 1}}, b), nil
	}},
	"intersection": {[]string{"inter2", "inter3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		switch r.n(4) {
		case 0:
			return sdf.Intersect2D(a, nil), nil
		case 1:
			return sdf.Intersect3D(nil, b), nil
		case 2:
			return sdf.Intersect2D(boomBox2{a}, a), nil
		}
		return sdf.Intersect3D(boomBox3{user3{r: 1}}, b), nil
	}},
	"solid": {[]string{"extrude3", "revolve3", "loft3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		var x sdf.SDF2
		if r.p(0.5) {
			x = boomBox2{a}
		}
		switch r.n(6) {
		case 0:
			return sdf.Extrude3D(x, 1), nil
		case 1:
			return sdf.ExtrudeRounded3D(x, 2, 0.1), nil
		case 2:
			return sdf.Revolve3D(x, r.u(0.5, 6)), nil
		case 3:
			return sdf.Loft3D(a, x, 2, 0.1), nil
		case 4:
			return sdf.TwistExtrude3D(x, 2, 1), nil
		}
		return sdf.ScaleTwistExtrude3D(x, 2, 1, r2.Vec{X: 0.5, Y: 0.5}), nil
	}},
	"moved": {[]string{"xform3", "xform2", "array3", "array2", "rotunion3", "rotcopy3", "rotcopy2", "offset3", "shell3", "elong3", "cut3", "multi3", "multi2", "orient3", "lineof3", "slice2"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		var x3 sdf.SDF3
		var x2 sdf.SDF2
		if r.p(0.5) {
			x3, x2 = boomBox3{user3{r: 1}}, boomBox2{a}
		}
		set := rvset3(r, 3, 3)
		snap := v3snap(set)
		before := snap()
		defer func() {
			if snap() != before {
				panic(errModified)
			}
		}()
		switch r.n(18) {
		case 0:
			return sdf.Transform3D(x3, sdf.RotateX(1)), nil
		case 1:
			return sdf.Transform2D(x2, sdf.Rotate2D(1)), nil
		case 2:
			return sdf.Array3D(x3, sdf.V3i{2, 2, 1}, r3.Vec{X: 1, Y: 1}), nil
		case 3:
			return sdf.Array2D(x2, sdf.V2i{2, 2}, r2.Vec{X: 1, Y: 1}), nil
		case 4:
			return sdf.RotateUnion3D(x3, 3, sdf.RotateZ(1)), nil
		case 5:
			return sdf.RotateCopy3D(x3, 3), nil
		case 6:
			return sdf.RotateCopy2D(a, -r.n(2)), nil
		case 7:
			return sdf.Offset3D(x3, 0.1), nil
		case 8:
			return sdf.Shell3D(x3, 0.1), nil
		case 9:
			return sdf.Elongate3D(x3, r3.Vec{X: 1}), nil
		case 10:
			return sdf.Cut3D(x3, r3.Vec{}, r3.Vec{X: 1}), nil
		case 11:
			return sdf.Multi3D(x3, set), nil
		case 12:
			return sdf.Orient3D(x3, r3.Vec{Z: 1}, set), nil
		case 13:
			return sdf.LineOf3D(x3, r3.Vec{}, r3.Vec{X: 4}, "xx"), nil
		case 14:
			return sdf.Multi2D(a, d2.Set{}), nil
		case 15:
			return sdf.Slice2D(x3, r3.Vec{}, r3.Vec{Z: 1}), nil
		case 16:
			return sdf.Offset2D(x2, 0.1), nil
		}
		return sdf.Multi3D(b, d3.Set{{X: 1}}), nil
	}},
	"screw": {[]string{"screw3", "screwu3", "screwu3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		l := r.u(5, 10)
		var t thread.Threader = lousyT{userT{p: 1, r: 4, d: 0.4}, r.n(5)}
		switch r.n(4) {
		case 0:
			l = neg(r)
		case 1:
			t = nil
		case 2:
			t = rthreader(r)
			l = 0
		}
		return sd3(thread.Screw(l, t))
	}},
	"bolt": {[]string{"bolt3", "screwu3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		k := thread.BoltParms{Thread: rthreader(r), Style: thread.NutHex, TotalLength: r.u(10, 20), ShankLength: 2}
		switch r.n(5) {
		case 0:
			k.Thread = nil
		case 1:
			k.Style = thread.NutStyle(77)
		case 2:
			k.TotalLength = neg(r)
		case 3:
			k.ShankLength = k.TotalLength + 1
		default:
			k.Thread = lousyT{userT{p: 1, r: 4, d: 0.4}, r.n(5)}
		}
		return sd3(thread.Bolt(k))
	}},
	"nut": {[]string{"nut3", "screwu3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		k := thread.NutParms{Thread: rthreader(r), Style: thread.NutHex}
		switch r.n(4) {
		case 0:
			k.Thread = nil
		case 1:
			k.Style = thread.NutStyle(77)
		case 2:
			k.Tolerance = neg(r)
		default:
			k.Thread = lousyT{userT{p: 1, r: 4, d: 0.4}, r.n(5)}
		}
		return sd3(thread.Nut(k))
	}},
	"head": {[]string{"hex3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		return sd3(thread.HexHead(neg(r), neg(r), "tb"))
	}},
	"knurl": {[]string{"knurl3", "khead3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		k := thread.KnurlParams{Length: 10, Radius: 5, Pitch: 1, Height: 0.3, Theta: 0.7}
		switch r.n(6) {
		case 0:
			k.Length = 0
		case 1:
			k.Radius = neg(r)
		case 2:
			k.Pitch = 0
		case 3:
			k.Height = neg(r)
		case 4:
			k.Theta = neg(r)
		default:
			k.Theta = 2
		}
		return sd3(thread.Knurl(k))
	}},
	"npt": {[]string{"npt3", "screw3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		var n thread.NPT
		if err := n.SetFromNominal(r.u(10, 20)); err != nil {
			return nil, err
		}
		return sd3(thread.Screw(10, n))
	}},
	"panel": {[]string{"panel3", "panel2", "euro2", "euro3", "phole3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		switch r.n(5) {
		case 0:
			k := rpanel(r)
			k.Thickness = neg(r)
			return sd3(obj3.Panel(k))
		case 1:
			k := reuro(r)
			k.HP = 0
			return sd3(obj3.EuroRackPanel(k))
		case 2:
			k := reuro(r)
			k.U = neg(r)
			return sd2(obj2.EuroRackPanel(k))
		case 3:
			k := reuro(r)
			k.CornerRadius = neg(r)
			return sd2(obj2.EuroRackPanel(k))
		}
		k := obj3.PanelHoleParams{Diameter: 2, Thickness: 1, Indent: r3.Vec{X: 1, Y: 1, Z: 1}, Offset: 3}
		if r.p(0.5) {
			k.Diameter = neg(r)
		} else {
			k.Indent.X = neg(r)
		}
		return sd3(obj3.PanelHole(&k))
	}},
	"standoff": {[]string{"standoff3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		return sd3(obj3.Standoff(obj3.StandoffParams{PillarHeight: neg(r), PillarDiameter: neg(r), HoleDepth: 1, HoleDiameter: 1}))
	}},
	"shrink": {[]string{"pla3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		return nil, fmt.Errorf("scaled to %v", matter.PLA.InternalDimScale(neg(r)))
	}},
	"import": {[]string{"import3", "importbih3", "importu3"}, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		m := meshOf(user3{r: 1}, 3)
		tol := []float64{10, -1, math.Inf(1), 1e-300}[r.n(3)]
		switch r.n(4) {
		case 0:
			m = nil
		case 1:
			m[r.n(len(m))][1] = r3.Vec{X: math.NaN(), Y: math.Inf(1)}
		}
		snap := trisnap(m)
		before := snap()
		defer func() {
			if snap() != before {
				panic(errModified)
			}
		}()
		if r.p(0.5) {
			o, err := sdfexp.ImportModel(m, tol)
			return sd3(o, err)
		}
		o, err := sdfexp.ImportModelV2(m, tol)
		return sd3(o, err)
	}},
	"renderer": {nil, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		render.NewOctreeRenderer(b, r.n(4)-2)
		return nil, nil
	}},
	"noroom": {nil, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		rd := render.NewOctreeRenderer(b, 3)
		n, err := rd.ReadTriangles(nil)
		if err == nil {
			err = fmt.Errorf("%d triangles", n)
		}
		return nil, err
	}},
	"writer": {nil, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		m := genTris(r.u64(), r.rangei(1, 9))
		if r.p(0.2) {
			m = nil
		}
		return nil, render.WriteSTL(&choosyWriter{left: r.n(300)}, m)
	}},
	"boomrender": {nil, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		_, err := render.RenderAll(render.NewOctreeRenderer(sdf.Union3D(b, boom3{user3{r: 1.5}, r.u(-1, 2)}), r.rangei(2, 4)))
		return nil, err
	}},
	"nan": {nil, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		p := rv3(r, 2)
		switch r.n(4) {
		case 0:
			p.X = math.NaN()
		case 1:
			p.Y = math.NaN()
		case 2:
			p.Z = math.NaN()
		default:
			p = r3.Vec{X: math.NaN(), Y: math.NaN(), Z: math.NaN()}
		}
		if r.p(0.3) {
			return nil, fmt.Errorf("%x", bitsOf(a.Evaluate(r2.Vec{X: p.X, Y: p.Z})))
		}
		return nil, fmt.Errorf("%x", bitsOf(b.Evaluate(p)))
	}},
	"tetra": {nil, func(r *rng, a sdf.SDF2, b sdf.SDF3) (interface{}, error) {
		s := boom3{user3{r: 1}, r.u(-1, 1)}
		_, t := sdfexp.UniformTetrahedronMesh([]float64{0.5, 10, 0.7}[r.n(3)], s)
		return nil, fmt.Errorf("%d", len(t))
	}},
}

// choosyWriter accepts a number of bytes and fails then.
type choosyWriter struct{ left int }

func (w *choosyWriter) Write(b []byte) (int, error) {
	simYield()
	if len(b) <= w.left {
		w.left -= len(b)
		return len(b), nil
	}
	n := w.left
	w.left = 0
	return n, errors.New("writer full")
}

var badNames []string

func init() {
	catalogue["edgy2"] = &opInfo{dim: 2, b2: func(r *rng, k []interface{}) sdf.SDF2 { return edgy2{r.u(0.5, 2)} }}
	catalogue["edgy3"] = &opInfo{dim: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return edgy3{user3{r: r.u(0.8, 2), amp: r.u(0, 0.2), f: r.u(1, 4)}}
	}}
	// What was rejected once, in order this time.
	catalogue["screwu3"] = &opInfo{dim: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		return or3(thread.Screw(r.u(5, 10), userT{p: 1, r: 4, d: 0.4}))
	}}
	catalogue["importu3"] = &opInfo{dim: 3, b3: func(r *rng, k []interface{}) sdf.SDF3 {
		m := meshOf(user3{r: 1}, 3)
		if r.p(0.5) {
			return or3(sdfexp.ImportModel(m, 0))
		}
		return or3(sdfexp.ImportModelV2(m, 0))
	}}
	for n, c := range badCases {
		badNames = append(badNames, n)
		for _, k := range c.kin {
			if catalogue[k] == nil {
				panic("no catalogue entry " + k + " for " + n)
			}
		}
	}
	sortStrings(badNames)
}

// wording strips what may differ between two instances of one message.
func wording(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '0' && i+1 < len(s) && s[i+1] == 'x' {
			for i += 2; i < len(s) && strings.IndexByte("0123456789abcdef", s[i]) >= 0; i++ {
			}
			i--
			continue
		}
		if c >= '0' && c <= '9' {
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

// refuse makes a request that ought to be rejected and says how that went.
func (w *world) refuse(op *Op) (out string, kept error) {
	c, ok := badCases[op.Path]
	if !ok {
		return "unknown", nil
	}
	var a sdf.SDF2 = edgy2{1}
	var b sdf.SDF3 = edgy3{user3{r: 1, amp: 0.1, f: 2}}
	for _, id := range op.Chunk {
		switch o := w.get(id).(type) {
		case sdf.SDF2:
			a = o
		case sdf.SDF3:
			b = o
		default:
			return "no operand", nil
		}
	}
	defer func() {
		if e := recover(); e != nil {
			if strings.Contains(fmt.Sprint(e), "step budget exceeded") {
				panic(e)
			}
			if e == error(errModified) {
				out = "MODIFIED"
				return
			}
			out = "panic: " + wording(fmt.Sprint(e))
		}
	}()
	o, err := c.f(paramRng(op.Seed), a, b)
	if err == errModified {
		return "MODIFIED", nil
	}
	if err != nil {
		return "error: " + wording(err.Error()), err
	}
	out = "accepted"
	caughtNot := func() {
		for _, x := range pointSig(o, 3) {
			out += fmt.Sprintf(" %x", x)
		}
	}
	if o != nil && caught(caughtNot) {
		out = "accepted, but not usable"
	}
	return out, nil
}

func init() {
	register(&property{
		id: "C22", race: true,
		gen: func(s *Spec, r *rng) {
			s.Budget = 40_000_000
			theme := genTheme(r)
			pre, shared := genWorld(r, 0, r.rangei(2, 7), nil, true, 0.5, theme)
			s.Tasks = [][]Op{pre}
			for t := 1; t <= r.rangei(1, 3); t++ {
				l, _ := genWorld(r, 100*t, r.rangei(2, 9), shared, false, []float64{0.15, 0.4, 0.7}[r.n(3)], theme)
				s.Tasks = append(s.Tasks, l)
			}
		},
		exec: execWorld,
	})
}
