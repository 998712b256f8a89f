//go:build go1.21

package main

// Operation histories: several tasks, each performing a sequence of library
// calls on the simulated machine, sharing SDFs.

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

// opRes is what one operation did.
type opRes struct {
	op      *Op
	task    int
	idx     int
	started int32
	done    int32
	err     error
	pan     string
	tris    []r3.Triangle // triangles returned (renderall, readstl)
	want    []r3.Triangle // what the model holds
	ordered bool
	snap    []byte // file content right after the call returned
	snapOK  bool
	hard    int      // hard faults that hit this path during the call
	anyHard int      // hard faults anywhere during the call
	fds     int      // descriptors this call left open
	sig     []uint64 // result of an import or tetrahedralisation
	wantSig []uint64 // the same, performed alone
	w       *scriptWriter
	data    []byte // the stream a readstl operation reads
	src     *scriptRenderer
	src2    render.Renderer
}

func (o *opRes) String() string {
	return fmt.Sprintf("task %d op %d (%s %s)", o.task, o.idx, o.op.Op, o.op.Path)
}

// failed is the error the operation's renderer ended with, if any.
func (o *opRes) srcErr() error {
	if o.src != nil {
		return o.src.failed
	}
	return nil
}

type history struct {
	r      *run
	k      *kernel
	sys    *sync.Mutex
	res    [][]*opRes
	shapes map[string]sdf.SDF3
	refs   map[string][]r3.Triangle
}

func shapeKey(n *Node) string {
	b, _ := json.Marshal(n)
	return string(b)
}

// prepare builds every renderer of the history. It returns false when a shape
// cannot be used (generation artefact).
func (r *run) prepare(tasks [][]Op) *history {
	h := &history{r: r, shapes: map[string]sdf.SDF3{}, refs: map[string][]r3.Triangle{}}
	for ti := range tasks {
		for oi := range tasks[ti] {
			op := &tasks[ti][oi]
			if op.Shape == nil {
				continue
			}
			rk := fmt.Sprintf("%s#%d", shapeKey(op.Shape), op.Cells)
			if h.refs[rk] == nil {
				ref, err := freshReference(op.Shape, op.Cells)
				if err != nil {
					r.fail("reference", "plain single-reader rendering failed: %v", err)
					return nil
				}
				if ref == nil {
					ref = []r3.Triangle{}
				}
				h.refs[rk] = ref
			}
		}
	}
	alone := map[string][]uint64{}
	for ti := range tasks {
		for oi := range tasks[ti] {
			op := &tasks[ti][oi]
			if op.Shape == nil || op.Op != "import" && op.Op != "importv2" && op.Op != "tetra" {
				continue
			}
			k := h.meshKey(op)
			if alone[k] == nil {
				runtime.SimBoot()
				alone[k] = meshWork(op, op.Shape.build3(), h.refs[fmt.Sprintf("%s#%d", shapeKey(op.Shape), op.Cells)])
			}
		}
	}
	runtime.SimBoot()
	for ti := range tasks {
		var l []*opRes
		for oi := range tasks[ti] {
			op := &tasks[ti][oi]
			o := &opRes{op: op, task: ti, idx: oi}
			if op.Shape != nil {
				key := shapeKey(op.Shape)
				s := h.shapes[key]
				if s == nil {
					s = op.Shape.build3()
					h.shapes[key] = s
				}
				o.want = h.refs[fmt.Sprintf("%s#%d", key, op.Cells)]
				switch op.Op {
				case "import", "importv2", "tetra":
					o.wantSig = alone[h.meshKey(op)]
				case "readstl":
					o.want = genTris(op.Seed, int(op.Seed%60)+1)
					o.data = encodeSTL(o.want)
					for i := range o.want {
						for j, v := range o.want[i] {
							o.want[i][j] = r3.Vec{X: float64(float32(v.X)), Y: float64(float32(v.Y)), Z: float64(float32(v.Z))}
						}
					}
				}
				rd := render.NewOctreeRenderer(s, op.Cells)
				if op.Conc > 0 {
					render.VerifSetConcurrent(rd, op.Conc)
				}
				o.src2 = rd
			} else {
				o.want = trisOf(op.Seed, op.N)
				o.ordered = true
				o.src = &scriptRenderer{tris: o.want, steps: script{steps: op.Steps, cycle: op.Seed&4 == 4}, withEOF: op.Seed&1 == 1, scribble: op.Seed&2 == 2}
				o.src2 = o.src
			}
			l = append(l, o)
		}
		h.res = append(h.res, l)
	}
	return h
}

// exec performs one operation inside the simulation.
func (h *history) exec(o *opRes) {
	defer func() {
		if e := recover(); e != nil {
			o.pan = fmt.Sprintf("%v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	switch o.op.Op {
	case "stl":
		o.err = render.CreateSTL(o.op.Path, o.src2)
	case "3mf":
		o.err = render.Create3MF(o.op.Path, o.src2)
	case "renderall":
		o.tris, o.err = render.RenderAll(o.src2)
	case "read":
		rd := o.src2
		sizes := o.op.Chunk
		o.tris, o.err = drain(rd, func(c int) int { return sizes[c%len(sizes)] }, 1<<20)
	case "abandon":
		sizes := o.op.Chunk
		for c := 0; c < o.op.N; c++ {
			if _, err := o.src2.ReadTriangles(make([]r3.Triangle, sizes[c%len(sizes)])); err != nil {
				break
			}
		}
	case "import", "importv2", "tetra":
		k := shapeKey(o.op.Shape)
		o.sig = meshWork(o.op, h.shapes[k], h.refs[fmt.Sprintf("%s#%d", k, o.op.Cells)])
	case "writestl":
		o.w = &scriptWriter{steps: script{steps: o.op.Steps}}
		o.err = render.WriteSTL(o.w, o.want)
	case "readstl":
		o.tris, o.err = render.VerifReadSTL(&scriptReader{data: o.data, steps: []Step{{N: 20}, {N: -1}, {N: 49}}})
	case "remove":
		o.err = os.Remove(o.op.Path)
	case "eval":
		// another user evaluating the shared SDF
		s := h.shapes[shapeKey(o.op.Shape)]
		r := newRng(o.op.Seed)
		for i := 0; i < 40; i++ {
			s.Evaluate(rv3(r, 3))
		}
	default:
		panic("unknown operation " + o.op.Op)
	}
}

func (h *history) runTask(sys *syscalls, l []*opRes) {
	for _, o := range l {
		p := clean(o.op.Path)
		atomic.StoreInt32(&o.started, 1)
		sys.mu.Lock()
		h0, a0, f0 := sys.k.hardAt[p], sys.k.hard, sys.k.openAt(p)
		sys.mu.Unlock()
		h.exec(o)
		sys.mu.Lock()
		o.hard, o.anyHard, o.fds = sys.k.hardAt[p]-h0, sys.k.hard-a0, sys.k.openAt(p)-f0
		if o.op.Path != "" {
			b, ok := sys.k.content(p)
			o.snap, o.snapOK = append([]byte(nil), b...), ok
		}
		sys.mu.Unlock()
		atomic.StoreInt32(&o.done, 1)
	}
}

// run executes the whole history under the spec's schedule and faults.
func (h *history) run(k *kernel) outcome {
	h.k = k
	return h.r.simulateSys(k, h.r.spec.Sched, h.r.spec.Rand, h.r.spec.Wall, func(sys *syscalls) {
		if len(h.res) == 1 {
			h.runTask(sys, h.res[0])
			return
		}
		var wg sync.WaitGroup
		for _, l := range h.res {
			l := l
			wg.Add(1)
			go func() {
				defer wg.Done()
				h.runTask(sys, l)
			}()
		}
		wg.Wait()
	})
}

func (k *kernel) openAt(p string) int {
	n := 0
	for _, o := range k.fds {
		if o.path == p {
			n++
		}
	}
	return n
}

func (k *kernel) openFiles() []string {
	var l []string
	for _, o := range k.fds {
		l = append(l, o.path)
	}
	sortStrings(l)
	return l
}

func (h *history) all() []*opRes {
	var l []*opRes
	for _, t := range h.res {
		l = append(l, t...)
	}
	return l
}

func (h *history) meshKey(op *Op) string {
	return fmt.Sprintf("%s#%s#%d#%d", op.Op, shapeKey(op.Shape), op.Cells, op.Seed)
}

// meshWork imports the model's mesh (whoever owns it shares it with all the
// others) or meshes the solid with tetrahedra, and reduces the result to
// comparable values.
func meshWork(op *Op, s sdf.SDF3, m []r3.Triangle) (sig []uint64) {
	defer func() {
		if e := recover(); e != nil {
			if strings.Contains(fmt.Sprint(e), "budget") {
				panic(e)
			}
			sig = append(sig, 0xdead)
		}
	}()
	if len(m) == 0 || len(m) > 1500 {
		return []uint64{1}
	}
	var obj interface{}
	var err error
	switch op.Op {
	case "import":
		obj, err = sdfexp.ImportModel(m, 0)
	case "importv2":
		obj, err = sdfexp.ImportModelV2(m, 1e-6*ext3(s))
	default:
		if cells := ext3(s); s.Bounds().Max.X-s.Bounds().Min.X < 0.02*cells {
			return []uint64{2}
		}
		nodes, tetras := sdfexp.UniformTetrahedronMesh(ext3(s)/float64(2+op.Seed%3), s)
		for _, n := range nodes {
			sig = append(sig, bitsOf(n.X), bitsOf(n.Y), bitsOf(n.Z))
		}
		for _, t := range tetras {
			sig = append(sig, uint64(t[0]), uint64(t[1]), uint64(t[2]), uint64(t[3]))
		}
		return sig
	}
	if err != nil {
		return []uint64{3}
	}
	return pointSig(obj, op.Seed)
}
