// Command instr writes a copy of the library whose non-test sources call the scheduler before every
// statement that may touch memory other goroutines can see:
//
//	instr -repo DIR -out DIR
//
// Only text is inserted (line numbers stay), package sync is replaced, channel operations and go statements
// go through the scheduler, and every package gets a function that puts its variables back into their
// initial state.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type listed struct {
	ImportPath, Dir, Export, Name string
	Standard                      bool
	GoFiles                       []string
	Imports                       []string
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, a...)...)
	os.Exit(1)
}

var fset = token.NewFileSet()

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,Standard,GoFiles,Imports", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	exports := map[string]string{}
	var own []*listed
	for dec := json.NewDecoder(bytes.NewReader(js)); ; {
		p := new(listed)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		if p.Standard {
			exports[p.ImportPath] = p.Export
		} else if strings.HasPrefix(p.Dir, *repo) && p.Name != "main" {
			own = append(own, p)
		}
	}
	imp := &mixed{own: map[string]*types.Package{}, std: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data of %s", path)
		}
		return os.Open(f)
	})}
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal(err)
	}
	// type parameters (of the scheduler's functions) need at least this version of the language
	re := regexp.MustCompile(`(?m)^go 1\.(\d+)(\.\d+)?\s*$`)
	if m := re.FindSubmatch(mod); m == nil {
		mod = append(mod, "\ngo 1.18\n"...)
	} else if len(m[1]) == 1 || string(m[1]) < "18" {
		mod = re.ReplaceAll(mod, []byte("go 1.18"))
	}
	write(filepath.Join(*out, "go.mod"), mod)
	if b, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		write(filepath.Join(*out, "go.sum"), b)
	}
	site := 0
	for _, p := range own {
		rel, _ := filepath.Rel(*repo, p.Dir)
		site = instrument(p, imp, filepath.Join(*out, rel), site)
	}
	fmt.Fprintf(os.Stderr, "instr: %d packages, %d scheduling points, %d statements without effect on shared memory\n", len(own), site, skipped)
}

func write(name string, b []byte) {
	os.MkdirAll(filepath.Dir(name), 0755)
	if err := os.WriteFile(name, b, 0644); err != nil {
		fatal(err)
	}
}

type mixed struct {
	own map[string]*types.Package
	std types.Importer
}

func (m *mixed) Import(path string) (*types.Package, error) {
	if p := m.own[path]; p != nil {
		return p, nil
	}
	return m.std.Import(path)
}

type insertion struct {
	off, seq int
	text     string
	del      int // bytes of the original that it replaces
}

type file struct {
	ast  *ast.File
	src  []byte
	name string
	ins  []insertion
	used bool
	tail strings.Builder
	base int
}

func (f *file) off(p token.Pos) int { return int(p) - f.base }

func (f *file) insert(p token.Pos, text string) {
	f.ins = append(f.ins, insertion{off: f.off(p), seq: len(f.ins), text: text})
}

func (f *file) replace(from, to token.Pos, text string) {
	f.ins = append(f.ins, insertion{off: f.off(from), seq: len(f.ins), text: text, del: f.off(to) - f.off(from)})
}

// render gives the text from one offset to another with all insertions.
func (f *file) render(from, to int) string {
	sort.SliceStable(f.ins, func(i, j int) bool {
		if f.ins[i].off != f.ins[j].off {
			return f.ins[i].off < f.ins[j].off
		}
		return f.ins[i].seq < f.ins[j].seq
	})
	var b strings.Builder
	at := from
	for _, i := range f.ins {
		if i.off < from || i.off > to || i.off == to && to != len(f.src) {
			continue
		}
		if i.off < at {
			continue // inside a replaced part
		}
		b.Write(f.src[at:i.off])
		b.WriteString(i.text)
		at = i.off + i.del
	}
	b.Write(f.src[at:to])
	return b.String()
}

var skipped int

type instr struct {
	f      *file
	info   *types.Info
	pkg    *types.Package
	site   *int
	names  *[]string
	shared map[types.Object]bool // local variables others may see; package variables that are written
	sel    int
}

func instrument(p *listed, imp *mixed, dir string, site int) int {
	var files []*file
	var asts []*ast.File
	for _, n := range p.GoFiles {
		src, err := os.ReadFile(filepath.Join(p.Dir, n))
		if err != nil {
			fatal(err)
		}
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		files = append(files, &file{ast: a, src: src, name: n, base: fset.File(a.Pos()).Base()})
		asts = append(asts, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, FakeImportC: true}
	pkg, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		fatal(err)
	}
	imp.own[p.ImportPath] = pkg
	shared := sharedVars(asts, info)
	first := site
	var names []string
	for _, f := range files {
		in := &instr{f: f, info: info, pkg: pkg, site: &site, names: &names, shared: shared}
		for _, d := range f.ast.Decls {
			ast.Inspect(d, in.visit)
		}
		for _, s := range f.ast.Imports {
			if s.Path.Value == `"sync"` {
				name := ""
				if s.Name == nil {
					name = "sync "
				}
				f.replace(s.Path.Pos(), s.Path.End(), name+`"verif/mc/sched/ssync"`)
			}
		}
		f.insert(f.ast.Name.End(), `; import gmsched "verif/mc/sched"`)
	}
	resetCode(files, info, pkg)
	for i, f := range files {
		fmt.Fprintf(&f.tail, "\nvar _ = gmsched.Y\n")
		if i == 0 {
			fmt.Fprintf(&f.tail, "\nfunc init() { gmsched.AddSites(%d, %q) }\n", first, strings.Join(names, "\n"))
		}
		write(filepath.Join(dir, f.name), []byte(f.render(0, len(f.src))+"\n"+f.tail.String()))
	}
	return site
}

// resetCode appends to every file functions that evaluate its initial values again.
func resetCode(files []*file, info *types.Info, pkg *types.Package) {
	where := map[ast.Expr]*file{}
	var zero []string
	var last *file
	inits := 0
	var calls []string
	for _, f := range files {
		last = f
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					v := s.(*ast.ValueSpec)
					for _, x := range v.Values {
						where[x] = f
					}
					for _, n := range v.Names {
						if n.Name != "_" {
							zero = append(zero, n.Name)
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					n := fmt.Sprintf("gminit_%d", inits)
					inits++
					f.replace(d.Name.Pos(), d.Name.End(), n)
					fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", n)
					calls = append(calls, n+"()")
				}
			}
		}
	}
	if last == nil {
		return
	}
	var vars []string
	for k, i := range info.InitOrder {
		f := where[i.Rhs]
		if f == nil {
			continue
		}
		var lhs []string
		blank := true
		for _, v := range i.Lhs {
			lhs = append(lhs, v.Name())
			blank = blank && v.Name() == "_"
		}
		if blank || len(lhs) == 0 {
			continue
		}
		n := fmt.Sprintf("gmvalue_%d", k)
		fmt.Fprintf(&f.tail, "\nfunc %s() { %s = %s }\n", n, strings.Join(lhs, ", "), f.render(f.off(i.Rhs.Pos()), f.off(i.Rhs.End())))
		vars = append(vars, n+"()")
	}
	fmt.Fprintf(&last.tail, "\nfunc init() { gmsched.OnReset(func() {\n")
	for _, z := range zero {
		fmt.Fprintf(&last.tail, "\tgmsched.Zero(&%s)\n", z)
	}
	for _, c := range append(vars, calls...) {
		fmt.Fprintf(&last.tail, "\t%s\n", c)
	}
	fmt.Fprintf(&last.tail, "}) }\n")
}

// sharedVars finds the local variables that are not private to one activation of their function (captured
// by a function literal, or their address is taken) and the package variables that may be written to.
func sharedVars(asts []*ast.File, info *types.Info) map[types.Object]bool {
	sh := map[types.Object]bool{}
	// root is the variable an operand lives in, if it does not go through a pointer, slice or map
	var root func(e ast.Expr) types.Object
	root = func(e ast.Expr) types.Object {
		switch e := e.(type) {
		case *ast.Ident:
			if v, ok := info.ObjectOf(e).(*types.Var); ok {
				return v
			}
		case *ast.ParenExpr:
			return root(e.X)
		case *ast.SelectorExpr:
			if s := info.Selections[e]; s != nil && s.Kind() == types.FieldVal && !s.Indirect() {
				return root(e.X)
			}
			if v, ok := info.Uses[e.Sel].(*types.Var); ok && info.Selections[e] == nil {
				return v
			}
		case *ast.IndexExpr:
			return root(e.X) // for slices of package variables: elements count as the variable
		case *ast.SliceExpr:
			return root(e.X)
		}
		return nil
	}
	mark := func(e ast.Expr) {
		if o := root(e); o != nil {
			sh[o] = true
		}
	}
	isPkg := func(o types.Object) bool { return o != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() }
	for _, a := range asts {
		var funcs []ast.Node
		ast.Inspect(a, func(n ast.Node) bool {
			if n == nil {
				return true
			}
			for len(funcs) > 0 && n.Pos() >= funcs[len(funcs)-1].End() {
				funcs = funcs[:len(funcs)-1]
			}
			switch n := n.(type) {
			case *ast.FuncDecl:
				funcs = append(funcs, n)
			case *ast.FuncLit:
				funcs = append(funcs, n)
			case *ast.Ident:
				o := info.Uses[n]
				if v, ok := o.(*types.Var); ok && !v.IsField() && !isPkg(v) && len(funcs) > 0 {
					f := funcs[len(funcs)-1]
					if v.Pos() < f.Pos() || v.Pos() >= f.End() {
						sh[v] = true
					}
				}
				if isPkg(o) {
					// any use of a package variable other than reading an element of it or its length counts as a possible write
					if _, ok := o.(*types.Var); ok && !readOnly(a, n, info) {
						sh[o] = true
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.SliceExpr:
				if t := info.TypeOf(n.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						mark(n.X)
					}
				}
			case *ast.CallExpr:
				// methods with pointer receivers take the address
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
						if sig, ok := sel.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
							if _, ok := sig.Recv().Type().(*types.Pointer); ok {
								mark(s.X)
							}
						}
					}
				}
			case *ast.RangeStmt:
				if t := info.TypeOf(n.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						return true
					}
				}
			}
			return true
		})
	}
	return sh
}

var parents = map[*ast.File]map[ast.Node]ast.Node{}

func parentsOf(a *ast.File) map[ast.Node]ast.Node {
	m := parents[a]
	if m == nil {
		m = map[ast.Node]ast.Node{}
		var stack []ast.Node
		ast.Inspect(a, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			if len(stack) > 0 {
				m[n] = stack[len(stack)-1]
			}
			stack = append(stack, n)
			return true
		})
		parents[a] = m
	}
	return m
}

// readOnly: this use of a package variable of the package itself only reads a basic value out of it.
func readOnly(a *ast.File, id *ast.Ident, info *types.Info) bool {
	v := info.Uses[id].(*types.Var)
	if v.Exported() {
		return false
	}
	m := parentsOf(a)
	var n ast.Node = id
	for {
		p := m[n]
		switch q := p.(type) {
		case *ast.ParenExpr:
		case *ast.IndexExpr:
			if q.X != n {
				return true // used as an index
			}
		case *ast.SelectorExpr:
			if s := info.Selections[q]; s == nil || s.Kind() != types.FieldVal {
				return false
			}
		case *ast.CallExpr:
			if f, ok := q.Fun.(*ast.Ident); ok && q.Fun != n {
				if b, ok := info.Uses[f].(*types.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					return true
				}
			}
			return basic(info.TypeOf(n.(ast.Expr)))
		case *ast.AssignStmt:
			for _, l := range q.Lhs {
				if l == n {
					return false
				}
			}
			return basic(info.TypeOf(n.(ast.Expr)))
		case *ast.IncDecStmt:
			return false
		case *ast.UnaryExpr:
			if q.Op == token.AND {
				return false
			}
			return true
		case *ast.BinaryExpr:
			return true
		default:
			e, ok := n.(ast.Expr)
			return ok && basic(info.TypeOf(e))
		}
		n = p
	}
}

func basic(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

func (in *instr) point(p token.Pos) string {
	pos := fset.Position(p)
	*in.names = append(*in.names, fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
	n := *in.site
	*in.site++
	return fmt.Sprint(n)
}

func (in *instr) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		in.list(n.List)
	case *ast.CaseClause:
		in.list(n.Body)
	case *ast.CommClause:
		in.list(n.Body)
	case *ast.IfStmt:
		if e, ok := n.Else.(*ast.IfStmt); ok {
			// the condition of an else-if gets a point, too
			if !in.local(e) {
				in.f.insert(e.Pos(), "{ gmsched.Y("+in.point(e.Pos())+"); ")
				in.f.insert(e.End(), " }")
			}
		}
	case *ast.ForStmt:
		if n.Cond != nil && !in.localExpr(n.Cond) {
			if t := in.info.TypeOf(n.Cond); t == types.Typ[types.Bool] || t == types.Typ[types.UntypedBool] {
				in.f.insert(n.Cond.Pos(), "gmsched.C("+in.point(n.Cond.Pos())+") && (")
				in.f.insert(n.Cond.End(), ")")
			}
		}
		if len(n.Body.List) == 0 {
			in.f.insert(n.Body.Rbrace, " gmsched.Y("+in.point(n.Body.Pos())+") ")
		}
	case *ast.RangeStmt:
		if t := in.info.TypeOf(n.X); t != nil {
			if _, ok := t.Underlying().(*types.Chan); ok {
				op, key := n.Tok.String(), "_"
				if n.Key != nil {
					key = string(in.f.src[in.f.off(n.Key.Pos()):in.f.off(n.Key.End())])
				}
				x := string(in.f.src[in.f.off(n.X.Pos()):in.f.off(n.X.End())])
				get := fmt.Sprintf("gmv, gmok := gmsched.Recv2(%s); if !gmok { break }; _ = gmv; ", x)
				if key != "_" {
					get += fmt.Sprintf("%s %s gmv; ", key, op)
				}
				in.f.replace(n.For, n.Body.Lbrace+1, "for { "+get)
			}
		}
	case *ast.SelectStmt:
		def := false
		for _, c := range n.Body.List {
			def = def || c.(*ast.CommClause).Comm == nil
		}
		if !def {
			in.sel++
			l := fmt.Sprintf("gmsel%d", in.sel)
			in.f.insert(in.labelled(n), l+": ")
			in.f.insert(n.Body.Rbrace, "default: gmsched.WaitChan(); goto "+l+"\n")
		}
	case *ast.SendStmt:
		if !in.inComm(n) {
			in.f.insert(n.Pos(), "gmsched.Send(")
			in.f.replace(n.Arrow, n.Arrow+2, ",")
			in.f.insert(n.End(), ")")
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !in.inComm(n) {
			f := "gmsched.Recv("
			if a, ok := parentsOf(in.f.ast)[n].(*ast.AssignStmt); ok && len(a.Lhs) == 2 && len(a.Rhs) == 1 {
				f = "gmsched.Recv2("
			}
			in.f.replace(n.OpPos, n.OpPos+2, f)
			in.f.insert(n.End(), ")")
		}
	case *ast.GoStmt:
		in.goStmt(n)
	}
	return true
}

// labelled is where a label before a statement goes: before its own label, if it has one.
func (in *instr) labelled(s ast.Stmt) token.Pos {
	if l, ok := parentsOf(in.f.ast)[s].(*ast.LabeledStmt); ok {
		return l.Pos()
	}
	return s.Pos()
}

// inComm: the operation is that of a case of a select statement.
func (in *instr) inComm(n ast.Node) bool {
	m := parentsOf(in.f.ast)
	for {
		p := m[n]
		switch c := p.(type) {
		case *ast.CommClause:
			return c.Comm == n
		case *ast.AssignStmt, *ast.ExprStmt, *ast.ParenExpr:
		default:
			return false
		}
		n = p
	}
}

func (in *instr) goStmt(g *ast.GoStmt) {
	sig, _ := in.info.TypeOf(g.Call.Fun).Underlying().(*types.Signature)
	n := len(g.Call.Args)
	if sig != nil && sig.Results().Len() == 0 && !sig.Variadic() && n <= 4 && sig.Params().Len() == n && sig.TypeParams().Len() == 0 {
		if n == 0 {
			// f and its receiver are evaluated now
			in.f.replace(g.Go, g.Go+2, "gmsched.Go(")
			in.f.replace(g.Call.Lparen, g.Call.Rparen+1, ")")
			return
		}
		in.f.replace(g.Go, g.Go+2, fmt.Sprintf("gmsched.Go%d(", n))
		in.f.replace(g.Call.Lparen, g.Call.Lparen+1, ", ")
		return
	}
	in.f.replace(g.Go, g.Go+2, "gmsched.Go(func() {")
	in.f.insert(g.End(), "})")
}

func (in *instr) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		if in.local(s) {
			skipped++
			continue
		}
		in.f.insert(s.Pos(), "gmsched.Y("+in.point(s.Pos())+"); ")
	}
}

// local: the statement itself (without the statements inside it, which have points of their own) touches
// only variables that no other goroutine can see, and calls nothing.
func (in *instr) local(s ast.Stmt) bool {
	switch s := s.(type) {
	case nil:
		return true
	case *ast.LabeledStmt:
		return in.local(s.Stmt)
	case *ast.BlockStmt, *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		return in.localExpr(s.X)
	case *ast.AssignStmt:
		for _, e := range append(append([]ast.Expr{}, s.Lhs...), s.Rhs...) {
			if !in.localExpr(e) {
				return false
			}
		}
		return true
	case *ast.IncDecStmt:
		return in.localExpr(s.X)
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			if !in.localExpr(e) {
				return false
			}
		}
		return true
	case *ast.DeclStmt:
		d, ok := s.Decl.(*ast.GenDecl)
		if !ok {
			return false
		}
		for _, sp := range d.Specs {
			if v, ok := sp.(*ast.ValueSpec); ok {
				for _, e := range v.Values {
					if !in.localExpr(e) {
						return false
					}
				}
			}
		}
		return true
	case *ast.IfStmt:
		return in.local(s.Init) && in.localExpr(s.Cond)
	case *ast.ForStmt:
		return in.local(s.Init) && in.local(s.Post) && (s.Cond == nil || in.localExpr(s.Cond))
	case *ast.RangeStmt:
		if t := in.info.TypeOf(s.X); t != nil {
			switch t.Underlying().(type) {
			case *types.Basic, *types.Array:
			default:
				return false
			}
		}
		return in.localExpr(s.X) && (s.Key == nil || in.localExpr(s.Key)) && (s.Value == nil || in.localExpr(s.Value))
	case *ast.SwitchStmt:
		if !in.local(s.Init) || s.Tag != nil && !in.localExpr(s.Tag) {
			return false
		}
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				if !in.localExpr(e) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func (in *instr) localExpr(e ast.Expr) bool {
	if e == nil {
		return true
	}
	if tv, ok := in.info.Types[e]; ok && (tv.Value != nil || tv.IsType()) {
		return true
	}
	switch e := e.(type) {
	case *ast.Ident:
		switch o := in.info.ObjectOf(e).(type) {
		case *types.Var:
			return !in.shared[o]
		case nil:
			return e.Name == "_"
		case *types.Const, *types.Nil, *types.TypeName, *types.Func, *types.Builtin:
			return true
		}
		return false
	case *ast.BasicLit, *ast.FuncLit:
		return true
	case *ast.ParenExpr:
		return in.localExpr(e.X)
	case *ast.BinaryExpr:
		return in.localExpr(e.X) && in.localExpr(e.Y)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return false
		}
		if e.Op == token.AND {
			_, lit := e.X.(*ast.CompositeLit)
			return lit && in.localExpr(e.X)
		}
		return in.localExpr(e.X)
	case *ast.CompositeLit:
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if _, field := kv.Key.(*ast.Ident); !field && !in.localExpr(kv.Key) {
					return false
				}
				x = kv.Value
			}
			if !in.localExpr(x) {
				return false
			}
		}
		return true
	case *ast.SelectorExpr:
		s := in.info.Selections[e]
		return s != nil && s.Kind() == types.FieldVal && !s.Indirect() && in.localExpr(e.X)
	case *ast.IndexExpr:
		t := in.info.TypeOf(e.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			_ = u
		case *types.Basic: // a string
		default:
			// a package variable nobody writes to
			if o, ok := in.info.ObjectOf(ident(e.X)).(*types.Var); !ok || o.Parent() != in.pkg.Scope() {
				return false
			}
		}
		return in.localExpr(e.X) && in.localExpr(e.Index)
	case *ast.CallExpr:
		if tv, ok := in.info.Types[e.Fun]; ok && tv.IsType() {
			return len(e.Args) == 1 && basic(tv.Type) && basic(in.info.TypeOf(e.Args[0])) && in.localExpr(e.Args[0])
		}
		f, ok := e.Fun.(*ast.Ident)
		if !ok {
			return false
		}
		b, ok := in.info.Uses[f].(*types.Builtin)
		if !ok {
			return false
		}
		switch b.Name() {
		case "len", "cap":
			switch in.info.TypeOf(e.Args[0]).Underlying().(type) {
			case *types.Map, *types.Chan, *types.Pointer:
				return false
			}
		case "make", "new", "min", "max":
		default:
			return false
		}
		for _, a := range e.Args {
			if !in.localExpr(a) {
				return false
			}
		}
		return true
	}
	return false
}

func ident(e ast.Expr) *ast.Ident {
	if p, ok := e.(*ast.ParenExpr); ok {
		return ident(p.X)
	}
	if i, ok := e.(*ast.Ident); ok {
		return i
	}
	return &ast.Ident{Name: "?"}
}
