// instr inserts a scheduling point (runtime.SimYield) before every statement of
// the given Go files and writes the result next to a build overlay. Line
// numbers are preserved. It also registers, for every package, a function that
// gives the package-level variables their initial values again
// (runtime.SimOnBoot), so that every simulated process starts as a new one.
//
// usage: instr OUTDIR FILE...   (prints "src<TAB>dst" lines)
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const alias = "__simrt"

type ins struct {
	at   int
	text string
}

// source is one file on its way through the instrumenter.
type source struct {
	src, dst string
	b        []byte
	off      func(token.Pos) int
	file     *ast.File
	list     []ins
	points   int
	tail     string
	imported bool // the added import is used
}

// variable is one package-level declaration that a process start executes.
type variable struct {
	src   *source
	names []string
	fn    string
	code  string
	uses  map[string]bool
	done  bool
	busy  bool
}

// pack is one package.
type pack struct {
	files []*source
	vars  []*variable
	funcs map[string]map[string]bool // names a function refers to
	inits []string
}

func main() {
	out := os.Args[1]
	noboot := os.Getenv("INSTR_NOBOOT") != ""
	packs := map[string]*pack{}
	var keys []string
	var all []*source
	for _, f := range os.Args[2:] {
		s, err := read(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(3)
		}
		s.dst = filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "__"))
		all = append(all, s)
		if ok, err := build.Default.MatchFile(filepath.Dir(f), filepath.Base(f)); err != nil || !ok {
			continue // not part of this build
		}
		key := filepath.Dir(f) + " " + s.file.Name.Name
		if packs[key] == nil {
			packs[key] = &pack{funcs: map[string]map[string]bool{}}
			keys = append(keys, key)
		}
		packs[key].files = append(packs[key].files, s)
	}
	for _, s := range all {
		s.yields()
	}
	for _, k := range keys {
		if !noboot {
			packs[k].boot()
		}
	}
	for _, s := range all {
		n, err := s.write()
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(3)
		}
		if n > 0 || s.tail != "" {
			fmt.Printf("%s\t%s\t%d\n", s.src, s.dst, n)
		}
	}
}

func read(src string) (*source, error) {
	b, err := os.ReadFile(src)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, src, b, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	// Offsets must be physical: ignore //line directives.
	tf := fset.File(file.Pos())
	return &source{src: src, b: b, file: file, off: func(p token.Pos) int { return tf.Offset(p) }}, nil
}

// text returns the source between two positions, with scheduling points.
func (s *source) text(from, to token.Pos) string {
	a, z := s.off(from), s.off(to)
	var sb strings.Builder
	last := a
	for _, in := range s.list {
		if in.at < a || in.at >= z {
			continue
		}
		sb.Write(s.b[last:in.at])
		sb.WriteString(in.text)
		s.imported = true
		last = in.at
	}
	sb.Write(s.b[last:z])
	return sb.String()
}

func idents(n ast.Node) map[string]bool {
	m := map[string]bool{}
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			m[id.Name] = true
		}
		return true
	})
	return m
}

// sentinel reports whether e makes an error: such a variable is an identity
// that outlives everything, not state.
func sentinel(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	x, ok := f.X.(*ast.Ident)
	return ok && (x.Name == "errors" && f.Sel.Name == "New" || x.Name == "fmt" && f.Sel.Name == "Errorf")
}

func (p *pack) boot() {
	n := 0
	add := func(s *source, names []string, code string, uses map[string]bool) {
		v := &variable{src: s, names: names, code: code, uses: uses, fn: fmt.Sprintf("__simboot%d", n)}
		n++
		p.vars = append(p.vars, v)
	}
	for _, s := range p.files {
		for _, d := range s.file.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				u := idents(d)
				for k := range p.funcs[d.Name.Name] {
					u[k] = true // methods share a name: all of them
				}
				p.funcs[d.Name.Name] = u
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					fn := fmt.Sprintf("__siminit%d", len(p.inits))
					p.inits = append(p.inits, fn)
					s.list = append(s.list, ins{s.off(d.Name.Pos()), "init() { " + fn + "() }; func " + fn + "() "})
					// what followed the name is removed: see write
					s.list = append(s.list, ins{s.off(d.Name.Pos()), "\x00" + fmt.Sprint(s.off(d.Body.Pos()))})
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					var names []string
					for _, id := range vs.Names {
						names = append(names, id.Name)
					}
					switch {
					case len(vs.Values) == 0:
						for _, x := range names {
							if x != "_" {
								add(s, []string{x}, x+" = *new("+s.text(vs.Type.Pos(), vs.Type.End())+")", nil)
							}
						}
					case len(vs.Values) == len(names):
						for i, x := range names {
							if x != "_" && !sentinel(vs.Values[i]) {
								e := vs.Values[i]
								code := x + " = " + s.text(e.Pos(), e.End())
								add(s, []string{x}, code, idents(e))
							}
						}
					default:
						e := vs.Values[0]
						add(s, names, strings.Join(names, ", ")+" = "+s.text(e.Pos(), e.End()), idents(e))
					}
				}
			}
		}
	}
	if len(p.vars)+len(p.inits) == 0 {
		return
	}
	byName := map[string]*variable{}
	for _, v := range p.vars {
		for _, x := range v.names {
			byName[x] = v
		}
		v.src.tail += "\nfunc " + v.fn + "() { " + v.code + " }\n"
	}
	var calls []string
	var visit func(v *variable)
	visit = func(v *variable) {
		if v.done || v.busy {
			return
		}
		v.busy = true
		seen := map[string]bool{}
		var need func(m map[string]bool)
		need = func(m map[string]bool) {
			var l []string
			for k := range m {
				l = append(l, k)
			}
			sort.Strings(l)
			for _, k := range l {
				if seen[k] {
					continue
				}
				seen[k] = true
				if d := byName[k]; d != nil && d != v {
					visit(d)
				} else if u := p.funcs[k]; u != nil {
					need(u)
				}
			}
		}
		need(v.uses)
		v.done = true
		calls = append(calls, v.fn+"()")
	}
	for _, v := range p.vars {
		visit(v)
	}
	for _, f := range p.inits {
		calls = append(calls, f+"()")
	}
	last := p.files[len(p.files)-1]
	last.imported = true
	last.tail += "\nfunc init() { " + alias + ".SimOnBoot(func() { " + strings.Join(calls, "; ") + " }) }\n"
}

func (s *source) write() (int, error) {
	if len(s.list) == 0 && s.tail == "" {
		return 0, nil
	}
	list := s.list
	if s.points > 0 || s.imported {
		list = append(list, ins{s.off(s.file.Name.End()), "; import " + alias + " \"runtime\""})
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].at < list[j].at })
	var sb strings.Builder
	last := 0
	for _, in := range list {
		if in.at > last {
			sb.Write(s.b[last:in.at])
			last = in.at
		}
		if strings.HasPrefix(in.text, "\x00") { // leave out up to there
			fmt.Sscan(in.text[1:], &last)
			continue
		}
		sb.WriteString(in.text)
	}
	sb.Write(s.b[last:])
	sb.WriteString(s.tail)
	return s.points, os.WriteFile(s.dst, []byte(sb.String()), 0o644)
}

func (s *source) yields() {
	off := s.off
	file := s.file
	seen := map[int]bool{}
	yield := func(at int, text string) {
		if seen[at] {
			return
		}
		seen[at] = true
		s.list = append(s.list, ins{at, text})
	}
	stmts := func(l []ast.Stmt) {
		for _, st := range l {
			if _, ok := st.(*ast.EmptyStmt); ok {
				continue
			}
			yield(off(st.Pos()), alias+".SimYield(); ")
		}
	}
	nosplit := func(fd *ast.FuncDecl) bool {
		if fd.Doc == nil {
			return false
		}
		for _, c := range fd.Doc.List {
			if strings.HasPrefix(c.Text, "//go:nosplit") {
				return true
			}
		}
		return false
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if nosplit(n) || n.Name.Name == "init" && n.Recv == nil {
				return n.Name.Name == "init"
			}
		case *ast.BlockStmt:
			if len(n.List) == 0 {
				yield(off(n.Lbrace)+1, " "+alias+".SimYield() ")
				return true
			}
			// A switch or select body holds clauses, not statements.
			switch n.List[0].(type) {
			case *ast.CaseClause, *ast.CommClause:
				return true
			}
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.SwitchStmt:
			if len(n.Body.List) == 0 {
				seen[off(n.Body.Lbrace)+1] = true
			}
		case *ast.TypeSwitchStmt:
			if len(n.Body.List) == 0 {
				seen[off(n.Body.Lbrace)+1] = true
			}
		case *ast.SelectStmt:
			if len(n.Body.List) == 0 {
				seen[off(n.Body.Lbrace)+1] = true
			}
		}
		return true
	})
	sort.SliceStable(s.list, func(i, j int) bool { return s.list[i].at < s.list[j].at })
	s.points = len(s.list)
}
