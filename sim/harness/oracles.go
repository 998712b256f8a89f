//go:build go1.21

package main

// Executable reference models: what a correct STL file, 3MF archive and
// triangle stream look like.

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"runtime"
	"sort"
	"strings"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

func sortStrings(s []string) { sort.Strings(s) }

// ------------------------------------------------------------------ triangles

// genTris returns n pseudo-random, well conditioned triangles, some of which
// share vertices.
func genTris(seed uint64, n int) []r3.Triangle {
	r := newRng(seed, 5)
	out := make([]r3.Triangle, n)
	scale := []float64{1, 1, 10, 0.01, 1000}[r.n(5)]
	reuse := []float64{0.5, 0.5, 0.5, 0.998}[r.n(4)] // a fan shares a vertex among hundreds
	var pool []r3.Vec
	vert := func() r3.Vec {
		if len(pool) > 8 && r.p(reuse) {
			return pool[r.n(len(pool))]
		}
		v := r3.Scale(scale, rv3(r, 1))
		if len(pool) > 0 && r.p(0.06) { // next to another vertex, but not it
			e := scale * []float64{1e-13, 1e-10, 1e-8, 1e-6}[r.n(4)]
			v = r3.Add(pool[r.n(len(pool))], r3.Scale(e, rv3(r, 1)))
		}
		if r.p(0.05) {
			v.X = math.Copysign(0, -1)
		}
		pool = append(pool, v)
		return v
	}
	for i := range out {
		for try := 0; ; try++ {
			t := r3.Triangle{vert(), vert(), vert()}
			if !wellConditioned(t, scale) {
				if try > 20 {
					t = r3.Triangle{{X: scale}, {Y: scale}, {Z: scale * r.u(0.5, 1)}}
				} else {
					continue
				}
			}
			out[i] = t
			break
		}
	}
	return out
}

// roughTris is like genTris, with triangles no solid should have among them:
// without area, slivers, tiny, huge, and with an area of nearly one half.
func roughTris(seed uint64, n int) []r3.Triangle {
	out := genTris(seed, n)
	r := newRng(seed, 6)
	p := []float64{0.02, 0.2, 1}[r.n(3)]
	for i := range out {
		if !r.p(p) {
			continue
		}
		t := &out[i]
		switch r.n(7) {
		case 0:
			t[1] = t[0]
		case 1:
			t[2] = t[r.n(2)]
		case 2:
			t[1], t[2] = t[0], t[0]
		case 3:
			t[2] = r3.Add(t[0], r3.Scale(r.u(-1, 2), r3.Sub(t[1], t[0])))
		case 4:
			s := []float64{1e-25, 1e-12, 1e-6, 1e9, 1e18}[r.n(5)]
			for j := range t {
				t[j] = r3.Scale(s, t[j])
			}
		case 5:
			t[1] = r3.Add(t[0], r3.Scale([]float64{1e-13, 1e-7, 1e-5}[r.n(3)], r3.Sub(t[1], t[0])))
		case 6:
			a := r3.Norm(r3.Cross(r3.Sub(t[1], t[0]), r3.Sub(t[2], t[0])))
			s := math.Sqrt((1 + []float64{1e-2, 1e-3, 1e-4}[r.n(3)]*r.u(-1, 1)) / a)
			for j := range t {
				t[j] = r3.Scale(s, t[j])
			}
		}
	}
	return out
}

// trisOf returns the triangles of a scripted renderer or of a list to write.
func trisOf(seed uint64, n int) []r3.Triangle {
	if seed&24 == 24 {
		return roughTris(seed, n)
	}
	return genTris(seed, n)
}

func wellConditioned(t r3.Triangle, scale float64) bool {
	a, b := r3.Sub(t[1], t[0]), r3.Sub(t[2], t[0])
	c := r3.Cross(a, b)
	l := math.Max(r3.Norm(a), r3.Norm(b))
	return l > 0.05*scale && r3.Norm(c) > 0.05*l*l
}

func triNormal(t r3.Triangle) (r3.Vec, bool) {
	a, b := r3.Sub(t[1], t[0]), r3.Sub(t[2], t[0])
	c := r3.Cross(a, b)
	n := r3.Norm(c)
	l := math.Max(r3.Norm(a), math.Max(r3.Norm(b), r3.Norm(r3.Sub(t[2], t[1]))))
	if n == 0 || n < 1e-4*l*l {
		return r3.Vec{}, false
	}
	return r3.Scale(1/n, c), true
}

type triKey [9]uint64

func keyOf(t r3.Triangle) triKey {
	var k triKey
	for i := 0; i < 3; i++ {
		for j, x := range [3]float64{t[i].X, t[i].Y, t[i].Z} {
			k[3*i+j] = math.Float64bits(x)
		}
	}
	return k
}

// diffMultiset describes how got differs from want, ignoring order; "" if equal.
func diffMultiset(got, want []r3.Triangle) string {
	m := make(map[triKey]int, len(want))
	for _, t := range want {
		m[keyOf(t)]++
	}
	extra := 0
	var firstExtra r3.Triangle
	for _, t := range got {
		k := keyOf(t)
		if m[k] == 0 {
			if extra == 0 {
				firstExtra = t
			}
			extra++
			continue
		}
		m[k]--
	}
	missing := 0
	var firstMissing r3.Triangle
	for _, t := range want {
		k := keyOf(t)
		if m[k] > 0 {
			if missing == 0 {
				firstMissing = t
			}
			missing++
			m[k]--
		}
	}
	if extra == 0 && missing == 0 {
		return ""
	}
	s := fmt.Sprintf("%d triangles delivered, %d expected: %d missing, %d duplicated or unknown", len(got), len(want), missing, extra)
	if missing > 0 {
		s += fmt.Sprintf("; first missing %v", firstMissing)
	}
	if extra > 0 {
		s += fmt.Sprintf("; first unexpected %v", firstExtra)
	}
	return s
}

// diffSequence compares exactly, including order.
func diffSequence(got, want []r3.Triangle) string {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	for i := 0; i < n; i++ {
		if keyOf(got[i]) != keyOf(want[i]) {
			return fmt.Sprintf("triangle %d of %d is %v, expected %v (%d expected)", i, len(got), got[i], want[i], len(want))
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d triangles, expected %d", len(got), len(want))
	}
	return ""
}

// freshReference is what a process that does nothing else renders.
func freshReference(n *Node, cells int) ([]r3.Triangle, error) {
	runtime.SimBoot()
	m, err := reference(n.build3(), cells)
	runtime.SimBoot()
	return m, err
}

// reference renders s on a fresh single-worker renderer with one large
// buffer, collecting whatever is delivered.
func reference(s sdf.SDF3, cells int) ([]r3.Triangle, error) {
	return drain(render.NewOctreeRenderer(s, cells), func(int) int { return 1 << 15 }, 1<<20)
}

// drain reads a renderer to its end with the given read sizes.
func drain(rd render.Renderer, size func(call int) int, maxCalls int) ([]r3.Triangle, error) {
	var out []r3.Triangle
	var buf []r3.Triangle
	for c := 0; c < maxCalls; c++ {
		k := size(c)
		if cap(buf) < k {
			buf = make([]r3.Triangle, k)
		}
		n, err := rd.ReadTriangles(buf[:k])
		if n < 0 || n > k {
			return out, fmt.Errorf("ReadTriangles returned n=%d for a buffer of %d", n, k)
		}
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
	return out, fmt.Errorf("no end of stream after %d reads", maxCalls)
}

// openEdges counts the edges at which the mesh is not closed: the number of
// directed edges without an opposite one, after merging vertices closer than tol.
func openEdges(tris []r3.Triangle, tol float64) (bad int, where r3.Vec) {
	type cell [3]int64
	grid := map[cell][]int{}
	var verts []r3.Vec
	q := func(v r3.Vec) cell {
		return cell{int64(math.Floor(v.X / tol / 4)), int64(math.Floor(v.Y / tol / 4)), int64(math.Floor(v.Z / tol / 4))}
	}
	id := func(v r3.Vec) int {
		c := q(v)
		for x := int64(-1); x <= 1; x++ {
			for y := int64(-1); y <= 1; y++ {
				for z := int64(-1); z <= 1; z++ {
					for _, i := range grid[cell{c[0] + x, c[1] + y, c[2] + z}] {
						if r3.Norm(r3.Sub(verts[i], v)) <= tol {
							return i
						}
					}
				}
			}
		}
		verts = append(verts, v)
		grid[c] = append(grid[c], len(verts)-1)
		return len(verts) - 1
	}
	sum := map[[2]int]int{}
	for _, t := range tris {
		a := [3]int{id(t[0]), id(t[1]), id(t[2])}
		for i := 0; i < 3; i++ {
			u, v := a[i], a[(i+1)%3]
			switch {
			case u < v:
				sum[[2]int{u, v}]++
			case u > v:
				sum[[2]int{v, u}]--
			}
		}
	}
	for e, n := range sum {
		if n != 0 {
			bad++
			where = verts[e[0]]
		}
	}
	return bad, where
}

// ------------------------------------------------------------------------ STL

func f32(x float64) uint32 { return math.Float32bits(float32(x)) }

// encodeSTL is an independent STL encoder.
func encodeSTL(tris []r3.Triangle) []byte {
	b := make([]byte, 84+50*len(tris))
	binary.LittleEndian.PutUint32(b[80:], uint32(len(tris)))
	for i, t := range tris {
		o := 84 + 50*i
		n, _ := triNormal(t)
		for j, v := range []r3.Vec{n, t[0], t[1], t[2]} {
			binary.LittleEndian.PutUint32(b[o+12*j:], f32(v.X))
			binary.LittleEndian.PutUint32(b[o+12*j+4:], f32(v.Y))
			binary.LittleEndian.PutUint32(b[o+12*j+8:], f32(v.Z))
		}
	}
	return b
}

type stlKey [9]uint32

func stlKeyOf(t r3.Triangle) stlKey {
	var k stlKey
	for i := 0; i < 3; i++ {
		k[3*i], k[3*i+1], k[3*i+2] = f32(t[i].X), f32(t[i].Y), f32(t[i].Z)
	}
	return k
}

// selfConsistent says whether b would be accepted as a complete binary STL
// holding at least one triangle.
func selfConsistent(b []byte) bool {
	if len(b) < 84 {
		return false
	}
	n := binary.LittleEndian.Uint32(b[80:])
	return n > 0 && uint64(len(b)) == 84+50*uint64(n)
}

// checkSTL verifies that b is exactly the STL encoding of want, in order or
// (ordered=false) as a multiset. It returns "" when it is.
func checkSTL(b []byte, want []r3.Triangle, ordered bool) string {
	if len(b) != 84+50*len(want) {
		return fmt.Sprintf("STL is %d bytes, expected %d (84+50*%d)", len(b), 84+50*len(want), len(want))
	}
	if bytes.HasPrefix(b, []byte("solid")) {
		return "binary STL header starts with \"solid\""
	}
	if c := binary.LittleEndian.Uint32(b[80:]); c != uint32(len(want)) {
		return fmt.Sprintf("STL header counts %d triangles, file holds %d", c, len(want))
	}
	byKey := map[stlKey][]int{}
	if !ordered {
		for i, t := range want {
			k := stlKeyOf(t)
			byKey[k] = append(byKey[k], i)
		}
	}
	for i := range want {
		rec := b[84+50*i : 134+50*i]
		var f [12]uint32
		for j := range f {
			f[j] = binary.LittleEndian.Uint32(rec[4*j:])
		}
		var k stlKey
		copy(k[:], f[3:])
		wi := i
		if ordered {
			if k != stlKeyOf(want[i]) {
				return fmt.Sprintf("STL triangle %d of %d has vertices %v, expected %v", i, len(want), floats(k), want[i])
			}
		} else {
			l := byKey[k]
			if len(l) == 0 {
				return fmt.Sprintf("STL triangle %d of %d %v was not rendered or is duplicated", i, len(want), floats(k))
			}
			wi = l[0]
			byKey[k] = l[1:]
		}
		if rec[48] != 0 || rec[49] != 0 {
			return fmt.Sprintf("STL triangle %d has attribute byte count %d", i, binary.LittleEndian.Uint16(rec[48:]))
		}
		if n, ok := triNormal(want[wi]); ok {
			g := r3.Vec{X: float64(math.Float32frombits(f[0])), Y: float64(math.Float32frombits(f[1])), Z: float64(math.Float32frombits(f[2]))}
			if !(r3.Norm(r3.Sub(g, n)) < 1e-3 && math.Abs(r3.Norm(g)-1) < 1e-5) {
				return fmt.Sprintf("STL triangle %d has normal %v, its vertices say %v", i, g, n)
			}
		}
	}
	return ""
}

func floats(k stlKey) []float32 {
	out := make([]float32, 9)
	for i := range out {
		out[i] = math.Float32frombits(k[i])
	}
	return out
}

// ------------------------------------------------------------------------ 3MF

// parse3MF opens an archive the way a consumer would and returns the triangles
// of its model.
func parse3MF(b []byte) ([]r3.Triangle, error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	read := func(name string) ([]byte, error) {
		for _, f := range z.File {
			if f.Name == name {
				r, err := f.Open()
				if err != nil {
					return nil, err
				}
				defer r.Close()
				return io.ReadAll(r)
			}
		}
		return nil, fmt.Errorf("archive has no %s", name)
	}
	rels, err := read("_rels/.rels")
	if err != nil {
		return nil, err
	}
	var rl struct {
		Relationship []struct {
			Target string `xml:"Target,attr"`
			Type   string `xml:"Type,attr"`
		} `xml:"Relationship"`
	}
	if err := xml.Unmarshal(rels, &rl); err != nil {
		return nil, fmt.Errorf("_rels/.rels: %v", err)
	}
	target := ""
	for _, r := range rl.Relationship {
		if strings.HasSuffix(r.Type, "/3dmodel") {
			target = strings.TrimPrefix(r.Target, "/")
		}
	}
	if target == "" {
		return nil, fmt.Errorf("no 3dmodel relationship")
	}
	if ct, err := read("[Content_Types].xml"); err != nil {
		return nil, err
	} else if !bytes.Contains(ct, []byte("3dmanufacturing-3dmodel+xml")) {
		return nil, fmt.Errorf("content types lack the model type")
	}
	doc, err := read(target)
	if err != nil {
		return nil, err
	}
	var m struct {
		Unit      string `xml:"unit,attr"`
		Resources struct {
			Objects []struct {
				ID       int `xml:"id,attr"`
				Vertices []struct {
					X float64 `xml:"x,attr"`
					Y float64 `xml:"y,attr"`
					Z float64 `xml:"z,attr"`
				} `xml:"mesh>vertices>vertex"`
				Triangles []struct {
					V1 int `xml:"v1,attr"`
					V2 int `xml:"v2,attr"`
					V3 int `xml:"v3,attr"`
				} `xml:"mesh>triangles>triangle"`
			} `xml:"object"`
		} `xml:"resources"`
		Items []struct {
			ObjectID int `xml:"objectid,attr"`
		} `xml:"build>item"`
	}
	if err := xml.Unmarshal(doc, &m); err != nil {
		return nil, fmt.Errorf("model: %v", err)
	}
	if m.Unit != "millimeter" {
		return nil, fmt.Errorf("unit is %q", m.Unit)
	}
	var out []r3.Triangle
	for _, it := range m.Items {
		found := false
		for _, o := range m.Resources.Objects {
			if o.ID != it.ObjectID {
				continue
			}
			found = true
			for i, t := range o.Triangles {
				var tri r3.Triangle
				for j, v := range []int{t.V1, t.V2, t.V3} {
					if v < 0 || v >= len(o.Vertices) {
						return nil, fmt.Errorf("triangle %d refers to vertex %d of %d", i, v, len(o.Vertices))
					}
					tri[j] = r3.Vec{X: o.Vertices[v].X, Y: o.Vertices[v].Y, Z: o.Vertices[v].Z}
				}
				out = append(out, tri)
			}
		}
		if !found {
			return nil, fmt.Errorf("build item refers to object %d which does not exist", it.ObjectID)
		}
	}
	return out, nil
}

// posZero maps -0 to +0: 3MF vertex sharing is by numeric equality.
func posZero(ts []r3.Triangle) []r3.Triangle {
	out := make([]r3.Triangle, len(ts))
	for i, t := range ts {
		for j, v := range t {
			out[i][j] = r3.Vec{X: v.X + 0, Y: v.Y + 0, Z: v.Z + 0}
		}
	}
	return out
}

func check3MF(b []byte, want []r3.Triangle, ordered bool) string {
	got, err := parse3MF(b)
	if err != nil {
		return fmt.Sprintf("3MF (%d bytes) cannot be read: %v", len(b), err)
	}
	if ordered {
		if d := diffSequence(posZero(got), posZero(want)); d != "" {
			return "3MF model: " + d
		}
	} else if d := diffMultiset(posZero(got), posZero(want)); d != "" {
		return "3MF model: " + d
	}
	return ""
}

// bytes materialises prior file content.
func (p Prior) bytes() []byte {
	switch p.Kind {
	case "stl":
		return encodeSTL(genTris(p.Seed, p.N))
	case "3mf":
		return encode3MF(genTris(p.Seed, p.N))
	}
	r := newRng(p.Seed, 9)
	b := make([]byte, p.Size)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}

// encode3MF is an independent (unshared vertices) 3MF encoder.
func encode3MF(ts []r3.Triangle) []byte {
	var out bytes.Buffer
	z := zip.NewWriter(&out)
	w, _ := z.Create("3D/3dmodel.model")
	io.WriteString(w, `<model unit="millimeter"><resources><object id="1"><mesh><vertices>`)
	for _, t := range ts {
		for _, v := range t {
			fmt.Fprintf(w, `<vertex x="%v" y="%v" z="%v"/>`, v.X, v.Y, v.Z)
		}
	}
	io.WriteString(w, "</vertices><triangles>")
	for i := range ts {
		fmt.Fprintf(w, `<triangle v1="%d" v2="%d" v3="%d"/>`, 3*i, 3*i+1, 3*i+2)
	}
	io.WriteString(w, `</triangles></mesh></object></resources><build><item objectid="1"/></build></model>`)
	w, _ = z.Create("_rels/.rels")
	io.WriteString(w, `<Relationships><Relationship Target="3D/3dmodel.model" Type="http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"/></Relationships>`)
	w, _ = z.Create("[Content_Types].xml")
	io.WriteString(w, `<Types><Default Extension="model" ContentType="application/vnd.ms-package.3dmanufacturing-3dmodel+xml"/></Types>`)
	z.Close()
	return out.Bytes()
}
