//go:build go1.21

package main

// C05-C13, C15: files on a machine whose disk misbehaves and whose processes die.

import (
	"errors"
	"fmt"
	"path"
	"runtime"
	"strings"
)

const stlPath = "/simfs/model.stl"
const mfPath = "/simfs/model.3mf"

// genScripted generates a scripted renderer operation.
func genScripted(r *rng, failing bool) Op {
	op := Op{Seed: r.u64() >> 32}
	switch r.n(10) {
	case 0:
		op.N = r.n(3)
	case 1, 2, 3, 4:
		op.N = r.n(200)
	case 5:
		op.N = r.rangei(648, 664)
	case 6:
		op.N = r.rangei(1018, 1032)
	case 7:
		op.N = r.rangei(1300, 1320)
	case 8:
		op.N = r.n(3500)
	default:
		op.N = r.rangei(1, 40)
	}
	if r.p(0.012) {
		op.N = r.rangei(16380, 16390) + r.n(2)*16384
	}
	if r.p(0.002) { // more than 16 bits count
		op.N = r.rangei(65530, 66000)
	}
	for i := r.n(7); i > 0; i-- {
		st := Step{N: []int{0, 1, 2, 5, 50, 500, 655, 1000, -1, r.n(9), r.n(1100)}[r.n(11)]}
		op.Steps = append(op.Steps, st)
	}
	if r.p(0.1) { // a renderer that searches for a long time, or trickles
		st := Step{N: r.n(2), Rep: []int{r.n(20), r.n(120), r.n(1100)}[r.n(3)]}
		at := r.n(len(op.Steps) + 1)
		op.Steps = append(op.Steps[:at:at], append([]Step{st}, op.Steps[at:]...)...)
	}
	// Most scripts end in full reads; some repeat to the end of the stream.
	op.Seed &^= 4
	sum, calls := 0, 0
	for _, st := range op.Steps {
		n := st.N
		if n < 0 {
			n = 500
		}
		sum, calls = sum+n*(st.Rep+1), calls+st.Rep+1
	}
	if sum > 0 && op.N/sum*calls < 3000 && r.p(0.4) {
		op.Seed |= 4
	}
	if failing && r.p(0.4) {
		e := []string{"fail", "once", "ueof", "shortbuf", "fail", failNames[r.n(len(failNames))]}[r.n(6)]
		at := r.n(6)
		for len(op.Steps) <= at {
			op.Steps = append(op.Steps, Step{N: r.n(700)})
		}
		op.Steps[at].Err = e
	}
	return op
}

func genModelOp(r *rng, kind, path string, failing bool) Op {
	var op Op
	if r.p(0.3) {
		op.Shape = genSimple(r)
		if r.p(0.3) {
			op.Shape = genShape(r, 3, 1)
		}
		op.Cells = cellsFor(r, op.Shape)
		if op.Cells > 9 {
			op.Cells = 9
		}
		if r.p(0.5) {
			op.Conc = r.rangei(1, 4)
		}
	} else {
		op = genScripted(r, failing)
		if kind == "3mf" && op.N > 1400 {
			op.N = r.n(400)
		}
		if kind == "3mf" && r.p(0.002) {
			op.N = r.n(20000)
			if r.p(0.2) {
				op.N = r.rangei(65530, 66000)
			}
		}
	}
	op.Op = kind
	op.Path = path
	return op
}

func fileWrites(op *Op) int {
	n := op.N
	if op.Shape != nil {
		n = 400
	}
	if op.Op == "3mf" {
		return n*60/4096 + 4
	}
	return n*50/32768 + 3
}

func genSoft(r *rng, s *Spec) {
	mx := 4
	for _, t := range s.Tasks {
		for i := range t {
			mx += fileWrites(&t[i])
		}
	}
	for i := r.n(5); i > 0; i-- {
		if r.p(0.25) {
			s.K.Faults = append(s.K.Faults, Fault{Call: []string{"open", "write", "write"}[r.n(3)], Nth: r.rangei(1, mx), Kind: "EINTR"})
			if f := &s.K.Faults[len(s.K.Faults)-1]; f.Call == "open" {
				f.Nth = r.rangei(1, 3)
			}
		} else {
			s.K.Faults = append(s.K.Faults, Fault{Call: "write", Nth: r.rangei(1, mx), Kind: "short", Arg: []int{1, 2, 49, 50, 51, 83, 84, 100, 4095, 32767}[r.n(10)]})
		}
	}
	if r.p(0.35) {
		s.K.WriteMax = []int{1, 7, 49, 50, 64, 84, 100, 512, 4096, 10000, 32767}[r.n(11)]
		if big := maxN(s); s.K.WriteMax < 100 && big > 300 {
			s.K.WriteMax += 1000
		}
	}
}

func maxN(s *Spec) int {
	m := 0
	for _, t := range s.Tasks {
		for _, o := range t {
			n := o.N
			if o.Shape != nil {
				n = 500
			}
			if n > m {
				m = n
			}
		}
	}
	return m
}

func genHard(r *rng, s *Spec) {
	if r.p(0.3) {
		genSoft(r, s)
	}
	mx := 2
	var ops []*Op
	for _, t := range s.Tasks {
		for i := range t {
			ops = append(ops, &t[i])
			mx += fileWrites(&t[i])
		}
	}
	if s.K.WriteMax > 0 {
		mx += maxN(s) * 50 / s.K.WriteMax
	}
	for i := r.rangei(1, 2); i > 0; i-- {
		var f Fault
		switch r.n(9) {
		case 0, 1, 2:
			f = Fault{Call: "write", Nth: r.rangei(1, mx), Kind: []string{"EIO", "ENOSPC", "EDQUOT", "EFBIG"}[r.n(4)]}
		case 3, 4:
			f = Fault{Call: "close", Nth: r.rangei(1, len(ops)), Kind: []string{"EIO", "ENOSPC", "EDQUOT"}[r.n(3)], Arg: []int{1, 30, 50, 100, 4096, 1 << 20}[r.n(6)]}
		case 5:
			f = Fault{Call: "seek", Nth: r.rangei(1, 2*len(ops)), Kind: []string{"ESPIPE", "EINVAL", "EIO"}[r.n(3)]}
		case 6:
			f = Fault{Call: "open", Nth: r.rangei(1, len(ops)), Kind: []string{"EACCES", "EMFILE", "ENFILE", "ENOSPC", "EROFS", "ENOENT", "EISDIR", "ENOMEM"}[r.n(8)]}
		case 7:
			op := ops[r.n(len(ops))]
			est := int64(op.N*50 + 84)
			if op.Op == "3mf" {
				est = int64(op.N*20 + 700)
			}
			if op.Shape != nil {
				est = int64(r.n(20000))
			}
			s.K.Capacity = 1 + int64(float64(est)*r.u(0, 1.1))
			if r.p(0.3) {
				s.K.Capacity = est - int64(r.rangei(0, 90))
				if s.K.Capacity < 1 {
					s.K.Capacity = 1
				}
			}
			continue
		default:
			op := ops[r.n(len(ops))]
			est := op.N*50 + 84
			if op.Op == "3mf" {
				est = op.N*20 + 700
			}
			s.K.Quota = int64(r.n(est+200)) + 1
			continue
		}
		s.K.Faults = append(s.K.Faults, f)
	}
	if r.p(0.3) {
		s.K.Faults = append(s.K.Faults, Fault{Call: []string{"fsync", "rename", "ftruncate"}[r.n(3)], Nth: 1, Kind: "EIO", Arg: 100})
	}
}

func genPrior(r *rng, s *Spec, path string) {
	if s.K.Prior == nil {
		s.K.Prior = map[string]Prior{}
	}
	switch r.n(5) {
	case 0:
		s.K.Prior[path] = Prior{Kind: "bytes", Size: r.n(90000), Seed: r.u64() >> 32}
	case 1:
		s.K.Prior[path] = Prior{Kind: "stl", N: r.rangei(1, 1500), Seed: r.u64() >> 32}
	case 2:
		if strings.HasSuffix(path, ".3mf") {
			s.K.Prior[path] = Prior{Kind: "3mf", N: r.rangei(1, 80), Seed: r.u64() >> 32}
		} else {
			s.K.Prior[path] = Prior{Kind: "bytes", Size: r.n(300), Seed: r.u64() >> 32}
		}
	}
}

func genSpecial(r *rng, s *Spec, path string) {
	if r.p(0.06) {
		delete(s.K.Prior, path)
		s.K.Special = map[string]string{path: []string{"fifo", "dir", "rofile"}[r.n(3)]}
	}
}

// checkFile returns "" when the bytes are exactly the export of want.
func checkFile(kind string, b []byte, o *opRes) string {
	if kind == "3mf" {
		return check3MF(b, o.want, o.ordered)
	}
	return checkSTL(b, o.want, o.ordered)
}

func opName(kind string) string {
	if kind == "3mf" {
		return "Create3MF"
	}
	return "CreateSTL"
}

// nothing of the model may be silently missing: nil => complete and exact.
func (r *run) checkSuccess(o *opRes) {
	r.res.Evals++
	if o.pan != "" {
		r.fail("panic", "%s: panicked: %s", o, o.pan)
		return
	}
	if o.err != nil {
		return
	}
	if se := o.srcErr(); se != nil {
		r.fail("error-swallowed", "%s: the renderer failed with %v after %d triangles and %s returned nil", o, se, len(o.src.delivered), opName(o.op.Op))
		return
	}
	if !o.snapOK {
		r.fail("no-file", "%s: returned nil but there is no file", o)
		return
	}
	if d := checkFile(o.op.Op, o.snap, o); d != "" {
		r.fail("bad-file", "%s: returned nil (hard faults hit: %d) but %s", o, o.anyHard, d)
	}
}

func (r *run) checkReported(o *opRes) {
	if o.pan != "" {
		return
	}
	se := o.srcErr()
	if o.err != nil && se != nil && o.anyHard == 0 && !errors.Is(o.err, se) {
		r.fail("error-replaced", "%s: the renderer failed with %v, %s reported %v", o, se, opName(o.op.Op), o.err)
	}
}

func (r *run) checkNoSpurious(o *opRes) {
	if o.pan == "" && o.err != nil && o.srcErr() == nil && o.anyHard == 0 && r.spec.K.Special[clean(o.op.Path)] == "" && !strings.HasPrefix(clean(o.op.Path), "/simfs/none/") {
		r.fail("spurious-error", "%s: failed with %v although nothing went wrong beyond short writes and interrupted calls", o, o.err)
	}
}

// usableModel says whether a consumer would accept b as a model.
func usableModel(kind string, b []byte) bool {
	if kind == "3mf" {
		_, err := parse3MF(b)
		return err == nil
	}
	return selfConsistent(b)
}

// checkImages walks every state a crash could leave and reports those that
// look like a finished model without being one.
func (r *run) checkImages(h *history, kind string) {
	type pathInfo struct {
		path string
		ops  []*opRes
	}
	var paths []pathInfo
	for _, o := range h.all() {
		if o.op.Path == "" || o.op.Op != kind {
			continue
		}
		p := clean(o.op.Path)
		found := false
		for i := range paths {
			if paths[i].path == p {
				paths[i].ops = append(paths[i].ops, o)
				found = true
			}
		}
		if !found {
			paths = append(paths, pathInfo{p, []*opRes{o}})
		}
	}
	rg := newRng(r.spec.Seed, r.spec.Index, 31)
	torn := func(i, n int) []int {
		l := []int{1, n / 2, n - 1}
		if n > 80 && n < 200 {
			l = append(l, 80, 81, 82, 83)
		}
		if n > 4 {
			l = append(l, 1+rg.n(n-1))
		}
		if len(h.k.log) > 200 {
			l = l[:1]
		}
		return l
	}
	last := map[string][]byte{}
	h.k.crashImages(torn, func(i, t int, get func(string) ([]byte, bool)) bool {
		for _, p := range paths {
			b, ok := get(p.path)
			if !ok {
				continue
			}
			if lb, seen := last[p.path]; seen && len(lb) == len(b) && (len(b) == 0 || &lb[0] == &b[0]) {
				continue
			}
			last[p.path] = b
			r.res.Evals++
			if !usableModel(kind, b) {
				continue
			}
			if init, ok := h.k.initial[p.path]; ok && string(init) == string(b) {
				continue
			}
			good := false
			why := ""
			for _, o := range p.ops {
				if why = checkFile(kind, b, o); why == "" {
					good = true
					break
				}
			}
			if !good {
				r.fail("partial-passes-as-complete", "after mutation %d of %d (torn at %d) %s is accepted by a reader as a complete model, but %s", i, len(h.k.log), t, p.path, why)
				return false
			}
			r.probe("complete image seen")
		}
		return true
	})
	r.probe("crash points explored")
}

func (r *run) settleHistory(h *history, o outcome) bool {
	ok := r.settle(o, "the operation history")
	if !ok {
		return false
	}
	for _, op := range h.all() {
		if op.pan != "" {
			r.fail("panic", "%s panicked: %s", op, op.pan)
			ok = false
		}
	}
	return ok
}

func (r *run) noteHistory(h *history) {
	n := 0
	for _, o := range h.all() {
		n += len(o.want)
		r.observe([]byte(fmt.Sprint(o.err != nil, len(o.snap))))
		r.observe(o.snap)
		if o.srcErr() != nil {
			r.res.Fired["renderer:error"]++
		}
		if o.err != nil {
			r.probe("call failed")
		} else {
			r.probe("call succeeded")
		}
	}
	r.res.Nontrivial = n > 0
}

// repath moves everything a run does at one path to another path.
func repath(s *Spec, r *rng, from string, mayFail bool) {
	ext := path.Ext(from)
	to := []string{"model" + ext, "./d0/../d0/model" + ext, "/simfs/d1/model", "/simfs/m o d e l.x" + ext, "/simfs/.hidden" + ext,
		"/simfs/model" + ext + ".tmp", "/simfs/MODEL" + strings.ToUpper(ext), "/tmp/model" + ext, "d0/" + strings.Repeat("long", 50) + ext,
		"/simfs/%d*?.part" + ext, "/simfs/d1/mödel" + ext, "/simfs/none/model" + ext}[r.n(11+b2i(mayFail))]
	for _, t := range s.Tasks {
		for i := range t {
			if t[i].Path == from {
				t[i].Path = to
			}
		}
	}
	for i := range s.K.Faults {
		if s.K.Faults[i].Path == from {
			s.K.Faults[i].Path = clean(to)
		}
	}
	if v, ok := s.K.Special[from]; ok {
		delete(s.K.Special, from)
		s.K.Special[clean(to)] = v
	}
	if v, ok := s.K.Prior[from]; ok {
		delete(s.K.Prior, from)
		s.K.Prior[clean(to)] = v
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	mk := func(id, kind, path string, gen func(s *Spec, r *rng), check func(r *run, h *history, o outcome)) {
		register(&property{id: id, gen: func(s *Spec, r *rng) {
			s.Budget = 80_000_000
			gen(s, r)
			if path != "" && r.p(0.3) {
				repath(s, r, path, id == "C06" || id == "C11")
			}
		}, exec: func(r *run) {
			h := r.prepare(r.spec.Tasks)
			if h == nil {
				return
			}
			o := h.run(newKernel(r.spec.K))
			if !r.settleHistory(h, o) {
				return
			}
			r.noteHistory(h)
			check(r, h, o)
		}})
	}
	genHistory := func(s *Spec, r *rng, kind, path string, n int, failing bool) {
		var l []Op
		for i := 0; i < n; i++ {
			op := genModelOp(r, kind, path, failing)
			if i > 0 && r.p(0.3) { // the same model once more
				op.Seed, op.N, op.Shape, op.Cells, op.Conc = l[i-1].Seed, l[i-1].N, l[i-1].Shape, l[i-1].Cells, l[i-1].Conc
			}
			l = append(l, op)
		}
		s.Tasks = [][]Op{l}
	}
	// storm puts many small exports, failing ones among them if asked for,
	// before the last operation.
	storm := func(s *Spec, r *rng, kind, path string, failing bool) {
		if !r.p(0.05) {
			return
		}
		l := s.Tasks[0]
		last := l[len(l)-1]
		l = l[:len(l)-1]
		for k := []int{4, 6, 10, 20, 40}[r.n(5)]; k > 0; k-- {
			op := Op{Op: kind, Path: path, Seed: r.u64()>>32&^4 | uint64(4*r.n(2)), N: r.n(30)}
			if failing && r.p(0.8) {
				op.Steps = []Step{{N: r.n(8)}, {N: r.n(3), Err: "fail"}}
			}
			l = append(l, op)
		}
		s.Tasks[0] = append(l, last)
	}
	// C05: benign kernels: short writes, interruptions, earlier content, repeated exports.
	mk("C05", "stl", stlPath, func(s *Spec, r *rng) {
		genHistory(s, r, "stl", stlPath, r.rangei(1, 3), false)
		if r.p(0.3) {
			s.Tasks[0] = append(s.Tasks[0], genModelOp(r, "stl", "/simfs/other.stl", false))
		}
		storm(s, r, "stl", stlPath, false)
		genPrior(r, s, stlPath)
		genSoft(r, s)
	}, func(r *run, h *history, o outcome) {
		for _, op := range h.all() {
			r.checkSuccess(op)
			r.checkNoSpurious(op)
		}
		// exports of one path do not disturb another one
		lastOf := map[string]*opRes{}
		for _, op := range h.all() {
			lastOf[clean(op.op.Path)] = op
		}
		for _, op := range h.all() {
			p := clean(op.op.Path)
			if lastOf[p] == op && op.err == nil {
				b, _ := h.k.content(p)
				if d := checkFile("stl", b, op); d != "" {
					r.fail("bad-file", "%s: at the end of the history %s", op, d)
				}
			}
		}
	})
	// C06: any storage or renderer failure.
	mk("C06", "stl", stlPath, func(s *Spec, r *rng) {
		genHistory(s, r, "stl", stlPath, r.rangei(1, 2), true)
		storm(s, r, "stl", stlPath, true)
		genPrior(r, s, stlPath)
		genHard(r, s)
		genSpecial(r, s, stlPath)
	}, func(r *run, h *history, o outcome) {
		for _, op := range h.all() {
			r.checkSuccess(op)
			r.checkReported(op)
			r.checkNoSpurious(op)
		}
	})
	// C10: 3MF under benign kernels.
	mk("C10", "3mf", mfPath, func(s *Spec, r *rng) {
		genHistory(s, r, "3mf", mfPath, r.rangei(1, 2), false)
		storm(s, r, "3mf", mfPath, false)
		genPrior(r, s, mfPath)
		genSoft(r, s)
	}, func(r *run, h *history, o outcome) {
		for _, op := range h.all() {
			r.checkSuccess(op)
			r.checkNoSpurious(op)
		}
	})
	mk("C11", "3mf", mfPath, func(s *Spec, r *rng) {
		genHistory(s, r, "3mf", mfPath, r.rangei(1, 2), true)
		storm(s, r, "3mf", mfPath, true)
		genPrior(r, s, mfPath)
		genHard(r, s)
		genSpecial(r, s, mfPath)
	}, func(r *run, h *history, o outcome) {
		for _, op := range h.all() {
			r.checkSuccess(op)
			r.checkReported(op)
			r.checkNoSpurious(op)
		}
	})
	crash := func(kind string) func(r *run, h *history, o outcome) {
		return func(r *run, h *history, o outcome) {
			r.checkImages(h, kind)
			r.restart(h, kind)
		}
	}
	crashGen := func(kind, path string) func(s *Spec, r *rng) {
		return func(s *Spec, r *rng) {
			genHistory(s, r, kind, path, r.rangei(1, 2), r.p(0.5))
			genPrior(r, s, path)
			if r.p(0.5) {
				genHard(r, s)
			} else {
				genSoft(r, s)
			}
			s.Crash = &Crash{At: r.n(60), Torn: r.n(5000)}
		}
	}
	mk("C07", "stl", stlPath, crashGen("stl", stlPath), crash("stl"))
	mk("C12", "3mf", mfPath, crashGen("3mf", mfPath), crash("3mf"))
	// C13: nothing is leaked whatever happens.
	mk("C13", "", "", func(s *Spec, r *rng) {
		var l []Op
		for i := r.rangei(1, 4); i > 0; i-- {
			switch r.n(6) {
			case 0, 1, 2:
				l = append(l, genModelOp(r, "stl", fmt.Sprintf("/simfs/m%d.stl", r.n(2)), true))
			case 3:
				l = append(l, genModelOp(r, "3mf", "/simfs/m.3mf", true))
			case 4:
				op := genModelOp(r, "renderall", "", true)
				l = append(l, op)
			default:
				op := Op{Op: "abandon", Shape: genSimple(r), Conc: r.rangei(1, 6), N: r.n(12)}
				op.Cells = r.rangei(2, 8)
				op.Chunk = genChunksFor(r, op.Conc)
				l = append(l, op)
			}
		}
		s.Tasks = [][]Op{l}
		if l[len(l)-1].Op != "abandon" {
			storm(s, r, []string{"stl", "3mf"}[r.n(2)], "/simfs/storm", true)
		}
		genHard(r, s)
		if r.p(0.2) {
			genSpecial(r, s, "/simfs/m0.stl")
		}
	}, func(r *run, h *history, o outcome) {
		r.res.Evals++
		r.res.Nontrivial = true
		for _, op := range h.all() {
			if op.fds > 0 {
				r.fail("fd-leak", "%s: left %d file descriptor(s) open (error %v)", op, op.fds, op.err)
				return
			}
		}
		if f := h.k.openFiles(); len(f) > 0 {
			r.fail("fd-leak", "descriptors still open at the end: %v", f)
		}
		if o.leaked > 0 {
			r.fail("goroutine-leak", "%d goroutine(s) still running after every call returned", o.leaked)
		}
	})
	// C15: concurrent pipelines over shared models.
	register(&property{id: "C15", race: true, gen: func(s *Spec, r *rng) {
		s.Budget = 100_000_000
		var shapes []*Node
		var cells []int
		for i := r.rangei(1, 2); i > 0; i-- {
			n, c := genRenderShape(r)
			if c > 8 {
				c = 8
			}
			shapes = append(shapes, n)
			cells = append(cells, c)
		}
		nt := r.rangei(2, 4)
		// Names that have much in common.
		name := [][2]string{{"/simfs/t%d.stl", "/simfs/t%d.3mf"}, {"/simfs/t%d.stl", "/simfs/t%d.3mf"}, {"/simfs/d%d/m.stl", "/simfs/d%d/m.3mf"},
			{"/simfs/d%d/m", "/simfs/d%d/M"}, {"t%d", "t%d.stl.3mf"}, {"/simfs/d%d/m.stl", "/simfs/m%d.stl"},
			{"/simfs/part.v%d", "/simfs/part.3mf.v%d"}, {"/simfs/part.%d.stl", "/simfs/part.%d.3mf"}, {"/simfs/" + strings.Repeat("long", 30) + "%d.stl", "/simfs/" + strings.Repeat("long", 30) + "%d.3mf"}}[r.n(9)]
		for t := 0; t < nt; t++ {
			var l []Op
			for i := r.rangei(1, 2); i > 0; i-- {
				x := r.n(len(shapes))
				var op Op
				switch r.n(11) {
				case 10:
					op = genScripted(r, false)
					op.Op, op.Steps = "writestl", genWSteps(r)
					if op.N == 0 {
						op.N = 1
					}
					l = append(l, op)
					continue
				case 8, 9:
					op = Op{Op: []string{"import", "importv2", "tetra", "readstl"}[r.n(4)], Seed: r.u64() >> 32}
				case 0, 1, 2:
					op = Op{Op: "stl", Path: fmt.Sprintf(name[0], t)}
				case 3:
					op = Op{Op: "3mf", Path: fmt.Sprintf(name[1], t)}
				case 4:
					op = Op{Op: "renderall"}
				case 5:
					op = Op{Op: "eval", Seed: r.u64() >> 32}
				case 6:
					op = genScripted(r, true)
					op.Op = []string{"stl", "3mf", "renderall"}[r.n(3)]
					if op.Op != "renderall" {
						op.Path = fmt.Sprintf(name[map[string]int{"stl": 0, "3mf": 1}[op.Op]], t)
					}
					if op.Op == "3mf" && op.N > 1400 {
						op.N = r.n(400)
					}
					l = append(l, op)
					continue
				default:
					op = Op{Op: "read"}
				}
				op.Shape, op.Cells = shapes[x], cells[x]
				if r.p(0.5) {
					op.Conc = r.rangei(1, 4)
				}
				if op.Op == "read" {
					op.Chunk = genChunksFor(r, op.Conc+1)
				}
				l = append(l, op)
			}
			s.Tasks = append(s.Tasks, l)
		}
		if r.p(0.5) { // one victim
			v := clean([]string{fmt.Sprintf(name[0], 0), fmt.Sprintf(name[0], 1), fmt.Sprintf(name[1], 0)}[r.n(3)])
			s.K.Faults = append(s.K.Faults, Fault{
				Call: []string{"write", "write", "close", "open"}[r.n(4)], Nth: r.rangei(1, 3), Kind: []string{"EIO", "ENOSPC"}[r.n(2)], Arg: 100, Path: v})
		}
		if r.p(0.4) {
			s.K.WriteMax = r.rangei(400, 9000)
		}
	}, exec: func(r *run) {
		h := r.prepare(r.spec.Tasks)
		if h == nil {
			return
		}
		o := h.run(newKernel(r.spec.K))
		if !r.settleHistory(h, o) {
			return
		}
		r.noteHistory(h)
		r.res.Nontrivial = o.st.MaxRunnable > 1 && len(r.spec.Tasks) > 1
		for _, op := range h.all() {
			r.res.Evals++
			switch op.op.Op {
			case "stl", "3mf":
				r.checkSuccess(op)
				if op.err != nil && op.srcErr() == nil && op.hard == 0 {
					r.fail("interference", "%s: failed with %v although its own file was healthy", op, op.err)
				}
				if op.srcErr() != nil && op.hard == 0 && op.err != nil && !errors.Is(op.err, op.srcErr()) {
					r.fail("error-replaced", "%s: the renderer failed with %v, %s reported %v", op, op.srcErr(), opName(op.op.Op), op.err)
				}
			case "writestl":
				w := op.w
				if op.err == nil && (w.failed != nil || w.short) {
					r.fail("error-swallowed", "%s: the writer reported %v and WriteSTL returned nil", op, w.failed)
				} else if op.err != nil && w.failed == nil && !w.short {
					r.fail("interference", "%s: failed with %v although its own writer was healthy", op, op.err)
				} else if op.err == nil {
					if d := checkSTL(w.got, op.want, true); d != "" {
						r.fail("interference", "%s: %s", op, d)
					}
				}
			case "import", "importv2", "tetra":
				r.probe("op:" + op.op.Op)
				if !sameSig(op.sig, op.wantSig) {
					r.fail("interference", "%s: another result while other pipelines ran", op)
				}
			case "readstl":
				if op.err != nil {
					r.fail("interference", "%s: %v", op, op.err)
				} else if d := diffSequence(posZero(op.tris), posZero(op.want)); d != "" {
					r.fail("interference", "%s: while other pipelines ran: %s", op, d)
				}
			case "renderall", "read":
				if e := op.srcErr(); e != nil {
					if !errors.Is(op.err, e) {
						r.fail("error-replaced", "%s: the renderer failed with %v, RenderAll reported %v", op, e, op.err)
					}
				} else if op.err != nil {
					r.fail("interference", "%s: %v", op, op.err)
				} else if d := diffMultiset(op.tris, op.want); d != "" {
					r.fail("interference", "%s: while other pipelines ran: %s", op, d)
				}
			}
		}
		if f := h.k.openFiles(); len(f) > 0 {
			r.fail("fd-leak", "descriptors still open at the end: %v", f)
		}
		if o.leaked > 0 {
			r.fail("goroutine-leak", "%d goroutine(s) still running after every call returned", o.leaked)
		}
	}})
}

// restart boots a machine from one crash image and repeats the interrupted
// export: it must succeed and produce the exact file.
func (r *run) restart(h *history, kind string) {
	c := r.spec.Crash
	if c == nil || len(r.res.Viol) > 0 || len(r.spec.Tasks) == 0 || len(r.spec.Tasks[0]) == 0 {
		return
	}
	path := clean(r.spec.Tasks[0][len(r.spec.Tasks[0])-1].Path)
	at := 0
	if n := len(h.k.log); n > 0 {
		at = c.At % (n + 1)
	}
	var img []byte
	have := false
	found := false
	h.k.crashImages(func(i, n int) []int {
		if i+1 == at && n > 1 && c.Torn > 0 {
			return []int{1 + c.Torn%(n-1)}
		}
		return nil
	}, func(i, t int, get func(string) ([]byte, bool)) bool {
		if i == at && !found {
			found = true
			if b, ok := get(path); ok {
				img, have = append([]byte(nil), b...), true
			}
		}
		return !found
	})
	if r.spec.K.Special[path] != "" {
		return
	}
	op := r.spec.Tasks[0][len(r.spec.Tasks[0])-1]
	op.Steps = nil
	k := newKernel(KSpec{})
	if have {
		k.files[path] = &inode{data: img, mode: 0o644}
		k.initial[path] = append([]byte(nil), img...)
	}
	runtime.SimBoot()
	h2 := r.prepare([][]Op{{op}})
	if h2 == nil {
		return
	}
	o := h2.run(k)
	if !r.settleHistory(h2, o) {
		return
	}
	r.res.Fired["crash+restart"]++
	r.checkSuccess(h2.res[0][0])
	r.checkNoSpurious(h2.res[0][0])
}
