//go:build go1.21

package main

// C19: SDFs built, configured and used side by side do not influence each
// other. C20: importing damaged meshes.

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

type minSetter interface{ SetMin(sdf.MinFunc) }
type maxSetter interface{ SetMax(sdf.MaxFunc) }
type extrudeSetter interface{ SetExtrude(sdf.ExtrudeFunc) }

// world is a set of SDFs by number.
type world struct {
	obj map[int]interface{}
	up  *world
}

func (w *world) get(id int) interface{} {
	for ; w != nil; w = w.up {
		if o, ok := w.obj[id]; ok {
			return o
		}
	}
	return nil
}

// same reports whether a and b are one object.
func same(a, b interface{}) (is bool) {
	defer func() {
		if recover() != nil { // not comparable
			is = false
		}
	}()
	return a == b
}

// configurable are the constructors whose result the caller may configure, so
// that it must not be the operand.
var configurable = map[string]bool{"union2": true, "union3": true, "union2x3": true, "union3x3": true, "diff2": true, "diff3": true, "inter2": true, "inter3": true,
	"array2": true, "array3": true, "rotunion2": true, "rotunion3": true, "multi2": true, "multi3": true, "lineof2": true, "lineof3": true, "union3self": true, "many2": true, "many3": true, "blend3x3": true}

// apply performs one operation that builds or configures. It reports whether
// the operation had an effect.
func (w *world) apply(op *Op) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if strings.Contains(fmt.Sprint(e), "budget") {
				panic(e)
			}
			ok = false
		}
	}()
	switch op.Op {
	case "new":
		c := catalogue[op.Path]
		if c == nil || len(c.kids) != len(op.Chunk) {
			return false
		}
		var kids []interface{}
		for _, id := range op.Chunk {
			k := w.get(id)
			if k == nil {
				return false
			}
			kids = append(kids, k)
		}
		r := paramRng(op.Seed)
		var o interface{}
		if c.dim == 2 {
			o = c.b2(r, kids)
		} else {
			o = c.b3(r, kids)
		}
		for _, k := range kids {
			if same(o, k) && !configurable[op.Path] {
				return false // the operand itself, under a second name
			}
		}
		w.obj[op.N] = o
		return true
	case "set":
		r := newRng(op.Seed, 78)
		switch o := w.obj[op.N].(type) {
		case minSetter:
			o.SetMin(rmin(r))
		case maxSetter:
			o.SetMax(rmax(r))
		case extrudeSetter:
			switch r.n(5) {
			case 3:
				o.SetExtrude(sdf.ScaleExtrude(r.u(0.5, 3), r2.Vec{X: r.u(0.4, 1.2), Y: r.u(0.4, 1.2)}))
			case 4:
				o.SetExtrude(sdf.ScaleTwistExtrude(r.u(0.5, 3), r.u(-1, 1), r2.Vec{X: r.u(0.4, 1.2), Y: r.u(0.4, 1.2)}))
			case 0:
				o.SetExtrude(sdf.TwistExtrude(r.u(0.5, 3), r.u(-1, 1)))
			case 1:
				o.SetExtrude(sdf.NormalExtrude)
			default:
				o.SetExtrude(func(p r3.Vec) r2.Vec { simYield(); return r2.Vec{X: p.X + 0.1*p.Z, Y: p.Y} })
			}
		default:
			return false
		}
		return true
	}
	return false
}

// lineage returns the operations among ops that build or configure id or one
// of its operands.
func lineage(ops []*Op, ids ...int) []*Op {
	need := map[int]bool{}
	for _, id := range ids {
		need[id] = true
	}
	for i := len(ops) - 1; i >= 0; i-- {
		if ops[i].Op == "new" && need[ops[i].N] {
			for _, k := range ops[i].Chunk {
				need[k] = true
			}
		}
	}
	var out []*Op
	for _, o := range ops {
		if (o.Op == "new" || o.Op == "set") && need[o.N] {
			out = append(out, o)
		}
	}
	return out
}

// replayWorld performs ops in a process that has done nothing else.
func replayWorld(ops []*Op) *world {
	runtime.SimBoot()
	w := &world{obj: map[int]interface{}{}}
	for _, o := range ops {
		w.apply(o)
	}
	return w
}

// genTheme returns the few kinds of objects a history is about, if any.
func genTheme(r *rng) (l []string) {
	if r.p(0.3) {
		for i := r.rangei(1, 3); i > 0; i-- {
			l = append(l, catNames[r.n(len(catNames))])
		}
	}
	return l
}

// genWorld appends building, configuring and using operations to a task.
func genWorld(r *rng, base, n int, shared map[int]*Node, prelude bool, bad float64, theme []string) ([]Op, map[int]*Node) {
	nodes := map[int]*Node{}
	var ids []int // deterministic order
	var sharedIDs []int
	for id := 0; id < 100; id++ {
		if shared[id] != nil {
			sharedIDs = append(sharedIDs, id)
		}
	}
	var ops []Op
	node := func(id int) *Node {
		if n := nodes[id]; n != nil {
			return n
		}
		return shared[id]
	}
	pickDim := func(dim int) int {
		for try := 0; try < 12; try++ {
			l := ids
			if len(sharedIDs) > 0 && (len(l) == 0 || r.p(0.5)) {
				l = sharedIDs
			}
			if len(l) == 0 {
				return -1
			}
			id := l[r.n(len(l))]
			if catalogue[node(id).Op].dim == dim && node(id).cost() < 25 {
				return id
			}
		}
		return -1
	}
	mkOf := func(name string, seed uint64, first int) bool {
		c := catalogue[name]
		op := Op{Op: "new", Path: name, N: base + len(ids), Seed: seed}
		nd := &Node{Op: name, Seed: op.Seed}
		for i, d := range c.kids {
			k := first
			if i > 0 || k < 0 {
				k = pickDim(d)
			}
			if k < 0 {
				return false
			}
			op.Chunk = append(op.Chunk, k)
			nd.Kids = append(nd.Kids, node(k))
		}
		if nd.size() > 12 || nd.cost() > 120 || !usable(nd, c.dim) {
			return false
		}
		ids = append(ids, op.N)
		nodes[op.N] = nd
		ops = append(ops, op)
		return true
	}
	mk := func(name string) bool {
		seed := r.u64() >> 32
		if r.p(0.6) {
			seed |= gridBit
		}
		return mkOf(name, seed, -1)
	}
	// again applies what made an object once more, to the object itself
	again := func() {
		l := append(append([]int(nil), ids...), sharedIDs...)
		for try := 0; try < 12 && len(l) > 0; try++ {
			id := l[r.n(len(l))]
			n := node(id)
			if c := catalogue[n.Op]; len(c.kids) > 0 && c.kids[0] == c.dim {
				seed := n.Seed
				if r.p(0.5) {
					seed = r.u64()>>32 | gridBit
				}
				mkOf(n.Op, seed, id)
				return
			}
		}
		// the first of a pair
		name := pick(r, catNames)
		if c := catalogue[name]; len(c.kids) > 0 && c.kids[0] == c.dim {
			mk(name)
		}
	}
	// twin makes something that differs from another in one parameter
	twin := func() {
		l := append(append([]int(nil), ids...), sharedIDs...)
		if len(l) == 0 {
			return
		}
		id := l[r.n(len(l))]
		n := node(id)
		if len(n.Kids) > 0 && r.p(0.5) {
			id = l[r.n(len(l))]
			n = node(id)
		}
		op := Op{Op: "new", Path: n.Op, N: base + len(ids), Seed: sibling(r, n.Seed)}
		for _, k := range n.Kids {
			for _, i := range l {
				if node(i) == k {
					op.Chunk = append(op.Chunk, i)
					break
				}
			}
		}
		nd := &Node{Op: n.Op, Seed: op.Seed, Kids: n.Kids}
		if len(op.Chunk) != len(n.Kids) || !usable(nd, catalogue[n.Op].dim) {
			return
		}
		ids = append(ids, op.N)
		nodes[op.N] = nd
		ops = append(ops, op)
	}
	if len(sharedIDs) == 0 {
		mk("circle2")
		mk([]string{"box3", "sphere3", "user3"}[r.n(3)])
		if bad > 0 {
			mk("edgy2")
			mk("edgy3")
		}
	}
	for tries := 0; len(ops) < n && tries < 8*n; tries++ {
		if bad > 0 && r.p(bad) {
			op := Op{Op: "bad", Path: badNames[r.n(len(badNames))], Seed: r.u64() >> 32}
			for dim := 2; dim <= 3; dim++ {
				if id := pickDim(dim); id >= 0 && r.p(0.8) {
					op.Chunk = append(op.Chunk, id)
				}
			}
			if r.p(0.12) { // stubbornly
				op.Cells = []int{3, 5, 9, 20, 70}[r.n(5)]
				if badCases[op.Path].kin == nil && op.Path != "nan" && op.Path != "writer" && op.Cells > 9 {
					op.Cells = 9
				}
			}
			ops = append(ops, op)
			if r.p(0.2) { // and again
				ops = append(ops, op)
			}
			if kin := badCases[op.Path].kin; len(kin) > 0 && r.p(0.5) {
				mk(kin[r.n(len(kin))])
			}
			continue
		}
		c := r.n(14)
		if len(theme) > 0 && r.p(0.5) {
			c = []int{3, 4, 12}[r.n(3)]
		}
		switch c {
		case 12, 13:
			twin()
		case 10, 11:
			again()
		case 0, 1, 2:
			mk([]string{"union2", "union3", "union2x3", "union3x3", "diff2", "diff3", "inter2", "inter3", "array2", "array3", "rotunion2", "rotunion3", "extrude3", "union3self", "blend3x3"}[r.n(15)])
		case 3, 4:
			if len(theme) > 0 {
				mk(theme[r.n(len(theme))])
				break
			}
			mk(pick(r, catNames))
		case 5, 6:
			if len(ids) > 0 {
				id := ids[r.n(len(ids))]
				if r.p(0.7) { // something that can be configured
					for try := 0; try < 6; try++ {
						if op := node(id).Op; configurable[op] || op == "extrude3" {
							break
						}
						id = ids[r.n(len(ids))]
					}
				}
				ops = append(ops, Op{Op: "set", N: id, Seed: r.u64() >> 32})
			}
		case 7, 8:
			l := append(append([]int(nil), ids...), sharedIDs...)
			if len(l) > 0 {
				ops = append(ops, Op{Op: "eval", N: l[r.n(len(l))], Seed: r.u64() >> 32})
			}
		default:
			id := pickDim(3)
			if id >= 0 && !prelude {
				ops = append(ops, Op{Op: "render", N: id, Cells: r.rangei(2, 4), Conc: r.n(3)})
			}
		}
	}
	return ops, nodes
}

// seen is what one using operation observed.
type seen struct {
	task, idx int
	sig       []uint64
	tris      []r3.Triangle
	err       error
	pan       string
	out       string
	kept      error // the error handed out
}

func pointSig(o interface{}, seed uint64) []uint64 {
	b := boundsOf(o)
	f := evalOf(o)
	out := []uint64{bitsOf(b.Min.X), bitsOf(b.Min.Y), bitsOf(b.Min.Z), bitsOf(b.Max.X), bitsOf(b.Max.Y), bitsOf(b.Max.Z)}
	for _, p := range samplePoints(newRng(seed, 5), b, 6) {
		out = append(out, bitsOf(f(p)))
	}
	return out
}

func execWorld(r *run) {
	s := r.spec
	if len(s.Tasks) == 0 {
		r.res.Skip = "empty history"
		return
	}
	base := &world{obj: map[int]interface{}{}}
	worlds := make([]*world, len(s.Tasks))
	worlds[0] = base
	obs := make([][]seen, len(s.Tasks))
	task := func(t int) {
		w := worlds[t]
		for i := range s.Tasks[t] {
			op := &s.Tasks[t][i]
			if op.Op == "bad" {
				out, kept := w.refuse(op)
				for again := 1; again < op.Cells; again++ {
					if o, _ := w.refuse(op); o != out {
						out = fmt.Sprintf("%s, and the %dth time in %s", out, again+1, o)
						break
					}
				}
				obs[t] = append(obs[t], seen{task: t, idx: i, out: out, kept: kept})
				continue
			}
			if op.Op != "eval" && op.Op != "render" {
				w.apply(op)
				continue
			}
			o := w.get(op.N)
			if o == nil {
				continue
			}
			e := seen{task: t, idx: i}
			func() {
				defer func() {
					if x := recover(); x != nil {
						e.pan = fmt.Sprintf("%v\n%s", x, trimStack(debug.Stack()))
					}
				}()
				if op.Op == "eval" {
					e.sig = pointSig(o, op.Seed)
				} else if s3, ok := o.(sdf.SDF3); ok {
					rd := render.NewOctreeRenderer(s3, op.Cells)
					if op.Conc > 0 {
						render.VerifSetConcurrent(rd, op.Conc)
					}
					e.tris, e.err = render.RenderAll(rd)
				}
			}()
			obs[t] = append(obs[t], e)
		}
	}
	// what everything is in the end
	type state struct {
		sig []uint64
		bad bool
	}
	final := make([]map[int]state, len(worlds))
	o := r.simulate(s.Sched, func() {
		task(0)
		var wg sync.WaitGroup
		for t := 1; t < len(s.Tasks); t++ {
			t := t
			worlds[t] = &world{obj: map[int]interface{}{}, up: base}
			wg.Add(1)
			go func() {
				defer wg.Done()
				task(t)
			}()
		}
		wg.Wait()
		// errors handed out earlier still say what they said
		for t := range obs {
			for i, e := range obs[t] {
				if e.kept != nil {
					obs[t][i].pan = "error: " + wording(e.kept.Error())
				}
			}
		}
		for t := range worlds {
			final[t] = map[int]state{}
			for _, op := range s.Tasks[t] {
				if o := worlds[t].obj[op.N]; op.Op == "new" && o != nil {
					var e state
					e.bad = caught(func() { e.sig = pointSig(o, 7) })
					final[t][op.N] = e
				}
			}
		}
	})
	if !r.settle(o, "building and using SDFs side by side") {
		return
	}
	r.res.Nontrivial = len(base.obj) > 0
	upto := func(t, i int) []*Op {
		var l []*Op
		for x := range s.Tasks[0] {
			if t == 0 && x >= i {
				break
			}
			l = append(l, &s.Tasks[0][x])
		}
		if t > 0 {
			for x := 0; x < i; x++ {
				l = append(l, &s.Tasks[t][x])
			}
		}
		return l
	}
	for t := range obs {
		for _, e := range obs[t] {
			op := &s.Tasks[t][e.idx]
			r.res.Evals++
			if op.Op == "bad" {
				line := lineage(upto(t, e.idx), op.Chunk...)
				want, _ := replayWorld(line).refuse(op)
				r.res.Fired["rejected:"+op.Path]++
				r.probe("outcome:" + strings.SplitN(want+":", ":", 2)[0][:5])
				if e.out == "MODIFIED" {
					r.fail("operand-modified", "task %d operation %d: a request that is rejected (%s) modified the data it was given", t, e.idx, op.Path)
					return
				}
				if e.pan != "" && e.pan != e.out {
					r.fail("influenced", "task %d operation %d: the error of a rejected request (%s) read %q when it was returned and reads %q now", t, e.idx, op.Path, e.out, e.pan)
					return
				}
				if e.out != want {
					r.fail("influenced", "task %d operation %d: a request to be rejected (%s of %v) ended in %q, but in %q when only it and its operands are asked for (%s)", t, e.idx, op.Path, op.Chunk, e.out, want, describe(line))
					return
				}
				continue
			}
			line := lineage(upto(t, e.idx), op.N)
			alone := replayWorld(line).get(op.N)
			if alone == nil {
				r.fail("wrong-object", "object %d exists only in the company of others", op.N)
				return
			}
			if e.pan != "" {
				if func() (bad bool) {
					defer func() { bad = recover() != nil }()
					if op.Op == "eval" {
						pointSig(alone, op.Seed)
					} else {
						reference(alone.(sdf.SDF3), op.Cells)
					}
					return false
				}() {
					continue // it panics on its own, too
				}
				r.fail("panic", "task %d operation %d (%s): %s", t, e.idx, op.Op, e.pan)
				return
			}
			if op.Op == "eval" {
				if want := pointSig(alone, op.Seed); !sameSig(e.sig, want) {
					r.fail("influenced", "task %d operation %d: object %d has other values or bounds than when only it and its operands are built (%s)", t, e.idx, op.N, describe(line))
					return
				}
				for _, x := range e.sig {
					r.out = (r.out ^ x) * 0x100000001b3
				}
				continue
			}
			if _, ok := alone.(sdf.SDF3); !ok {
				continue
			}
			want, err := reference(alone.(sdf.SDF3), op.Cells)
			if err != nil || e.err != nil {
				if (err == nil) != (e.err == nil) {
					r.fail("influenced", "task %d operation %d: rendering object %d reports %v, alone %v", t, e.idx, op.N, e.err, err)
				}
				continue
			}
			if d := diffMultiset(e.tris, want); d != "" {
				r.fail("influenced", "task %d operation %d: rendering object %d (%s): %s", t, e.idx, op.N, describe(line), d)
				return
			}
			r.probe("rendered")
		}
	}
	for t := range worlds {
		all := upto(t, len(s.Tasks[t]))
		for i := range s.Tasks[t] {
			id := s.Tasks[t][i].N
			last, ok := final[t][id]
			if s.Tasks[t][i].Op != "new" || !ok {
				continue
			}
			r.probe("sdf:" + s.Tasks[t][i].Path)
			r.res.Evals++
			line := lineage(all, id)
			alone := replayWorld(line).get(id)
			if alone == nil {
				r.fail("wrong-object", "object %d exists only in the company of others", id)
				return
			}
			var want []uint64
			b := caught(func() { want = pointSig(alone, 7) })
			if last.bad != b || !sameSig(last.sig, want) {
				r.fail("influenced", "at the end object %d of task %d has other values or bounds than when only it and its operands are built (%s)", id, t, describe(line))
				return
			}
		}
	}
}

func caught(f func()) (bad bool) {
	defer func() { bad = recover() != nil }()
	f()
	return false
}

func describe(ops []*Op) string {
	s := ""
	for _, o := range ops {
		if s != "" {
			s += "; "
		}
		if o.Op == "new" {
			s += fmt.Sprintf("%d=%s%v", o.N, o.Path, o.Chunk)
		} else {
			s += fmt.Sprintf("configure %d", o.N)
		}
	}
	return s
}

// ------------------------------------------------------------ damaged meshes

func damage(m []r3.Triangle, ops []Op) []r3.Triangle {
	m = append([]r3.Triangle(nil), m...)
	for _, op := range ops {
		r := newRng(op.Seed, 41)
		if len(m) == 0 {
			return m
		}
		for c := 0; c < op.N && len(m) > 0; c++ {
			i, j := r.n(len(m)), r.n(len(m))
			v := &m[i][r.n(3)]
			switch op.Op {
			case "drop":
				m = append(m[:i:i], m[i+1:]...)
			case "truncate":
				m = m[:r.n(len(m)+1)]
			case "dup":
				m = append(m, m[i])
			case "dupflip":
				m = append(m, r3.Triangle{m[i][0], m[i][2], m[i][1]})
			case "flip":
				m[i][0], m[i][1] = m[i][1], m[i][0]
			case "swap":
				m[i], m[j] = m[j], m[i]
			case "rotate":
				m[i][0], m[i][1], m[i][2] = m[i][1], m[i][2], m[i][0]
			case "collapse":
				m[i][r.n(3)] = m[i][r.n(3)]
			case "point":
				m[i][1], m[i][2] = m[i][0], m[i][0]
			case "collinear":
				m[i][2] = r3.Scale(0.5, r3.Add(m[i][0], m[i][1]))
			case "join":
				*v = m[j][r.n(3)]
			case "move":
				*v = r3.Add(*v, rv3(r, 0.3))
			case "nudge":
				*v = r3.Add(*v, rv3(r, 1e-9))
			case "huge":
				*v = r3.Scale([]float64{1e6, 1e20, 1e200}[r.n(3)], *v)
			case "zero":
				m[i] = r3.Triangle{}
			case "special":
				x := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324}[r.n(5)]
				switch r.n(3) {
				case 0:
					v.X = x
				case 1:
					v.Y = x
				default:
					v.Z = x
				}
			case "bit":
				b := uint(r.n(64))
				switch r.n(3) {
				case 0:
					v.X = math.Float64frombits(math.Float64bits(v.X) ^ 1<<b)
				case 1:
					v.Y = math.Float64frombits(math.Float64bits(v.Y) ^ 1<<b)
				default:
					v.Z = math.Float64frombits(math.Float64bits(v.Z) ^ 1<<b)
				}
			case "flat":
				for k := range m {
					for q := range m[k] {
						m[k][q].Z = 1
					}
				}
			case "copy":
				d := rv3(r, 3)
				for _, t := range append([]r3.Triangle(nil), m...) {
					if len(m) < 900 {
						m = append(m, r3.Triangle{r3.Add(t[0], d), r3.Add(t[1], d), r3.Add(t[2], d)})
					}
				}
			case "turn":
				for k := range m {
					m[k][0], m[k][1] = m[k][1], m[k][0]
				}
			}
		}
	}
	return m
}

var damageKinds = []string{"drop", "truncate", "dup", "dupflip", "flip", "swap", "rotate", "collapse", "point", "collinear", "join", "move", "nudge", "huge", "zero", "special", "bit", "flat", "copy", "turn"}

func execImport(r *run) {
	s := r.spec
	var m []r3.Triangle
	if s.Shape != nil {
		var err error
		if m, err = freshReference(s.Shape, s.Cells); err != nil {
			r.fail("reference", "%v", err)
			return
		}
	} else {
		m = genTris(s.DSeed, s.N)
	}
	var ops []Op
	if len(s.Tasks) > 0 {
		ops = s.Tasks[0]
	}
	m = damage(m, ops)
	for _, op := range ops {
		r.res.Fired["mesh:"+op.Op]++
	}
	keep := append([]r3.Triangle(nil), m...)
	tol := []float64{0, 1e-12, 1e-6, 1e-3, 0.3}[s.M%5]
	var obj interface{}
	var err error
	var pan string
	o := r.simulate(s.Sched, func() {
		defer func() {
			if e := recover(); e != nil {
				pan = fmt.Sprintf("%v\n%s", e, trimStack(debug.Stack()))
			}
		}()
		if s.Scn == "v1" {
			obj, err = sdfexp.ImportModel(m, tol)
		} else {
			obj, err = sdfexp.ImportModelV2(m, tol)
		}
	})
	what := fmt.Sprintf("importing %d triangles (%s, tolerance %g)", len(m), s.Scn, tol)
	if !r.settle(o, what) {
		return
	}
	r.res.Evals++
	r.res.Nontrivial = true
	if pan != "" {
		r.fail("panic", "%s panicked: %s", what, pan)
		return
	}
	for i := range m {
		if keyOf(m[i]) != keyOf(keep[i]) {
			r.fail("caller-data-changed", "%s changed triangle %d of the model", what, i)
			return
		}
	}
	if err != nil {
		r.probe("rejected")
		return
	}
	r.probe("accepted")
	pr := newRng(s.DSeed, 6)
	var pts []r3.Vec
	for i := 0; i < 10; i++ {
		p := rv3(pr, 4)
		if len(keep) > 0 && pr.p(0.4) {
			p = keep[pr.n(len(keep))][pr.n(3)]
		}
		pts = append(pts, p)
	}
	pts = append(pts, extremePoints(pr, 4)...)
	vals := make([][]uint64, 2)
	o = r.simulate(s.Sched, func() {
		var wg sync.WaitGroup
		var pmu sync.Mutex
		for g := 0; g < 2; g++ {
			g := g
			vals[g] = make([]uint64, len(pts))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						pmu.Lock()
						pan = fmt.Sprintf("%v\n%s", e, trimStack(debug.Stack()))
						pmu.Unlock()
					}
				}()
				f := evalOf(obj)
				for k := range pts {
					i := k
					if g == 1 {
						i = len(pts) - 1 - k
					}
					vals[g][i] = bitsOf(f(pts[i]))
				}
				boundsOf(obj)
			}()
		}
		wg.Wait()
	})
	if !r.settle(o, "evaluating after "+what) {
		return
	}
	if pan != "" {
		r.fail("panic", "evaluating after %s panicked: %s", what, pan)
		return
	}
	for i := range pts {
		r.out = (r.out ^ vals[0][i]) * 0x100000001b3
		if vals[0][i] != vals[1][i] {
			r.fail("history-dependent", "after %s the value at %v is %v or %v", what, pts[i], math.Float64frombits(vals[0][i]), math.Float64frombits(vals[1][i]))
			return
		}
	}
}

func init() {
	register(&property{
		id: "C19", race: true,
		gen: func(s *Spec, r *rng) {
			s.Budget = 40_000_000
			theme := genTheme(r)
			pre, shared := genWorld(r, 0, r.rangei(2, 7), nil, true, 0, theme)
			s.Tasks = [][]Op{pre}
			for t := 1; t <= r.rangei(1, 3); t++ {
				l, _ := genWorld(r, 100*t, r.rangei(2, 9), shared, false, 0, theme)
				s.Tasks = append(s.Tasks, l)
			}
		},
		exec: execWorld,
	})
	register(&property{
		id: "C20", race: true,
		gen: func(s *Spec, r *rng) {
			s.Budget = 150_000_000
			s.Scn = []string{"v1", "v2"}[r.n(2)]
			s.M = r.n(5)
			s.DSeed = r.u64() >> 32
			if r.p(0.8) {
				s.Shape = genSimple(r)
				s.Cells = r.rangei(2, 5)
			} else {
				s.N = r.n(40)
			}
			var l []Op
			for i := r.n(5); i > 0; i-- {
				l = append(l, Op{Op: damageKinds[r.n(len(damageKinds))], N: []int{1, 1, 2, r.rangei(1, 20)}[r.n(4)], Seed: r.u64() >> 32})
			}
			s.Tasks = [][]Op{l}
		},
		exec: execImport,
	})
}
