package inject_test

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// sx is a piece of syntax with its names resolved: qualified names carry the
// path of their package, local names the object they denote.
type sx struct {
	op   string
	prop string
	kids []*sx
	obj  any // local objects
	user ast.Node
}

// objects made up for parameters without a name
type anon struct{ n ast.Node }

type dumper struct {
	info  *types.Info
	pkg   *types.Package
	impl  map[types.Object]any
	paths map[string]*sx
}

// dumpFile turns a type-checked file into an sx tree, and finds the node at each path.
func dumpFile(chk *ilib.Checked, name string) (*sx, map[string]*sx) {
	d := &dumper{chk.Info, chk.Pkg, map[types.Object]any{}, map[string]*sx{}}
	f := chk.Files[name]
	// Each clause of a type switch has its own object for the symbol.
	ast.Inspect(f, func(n ast.Node) bool {
		ts, ok := n.(*ast.TypeSwitchStmt)
		if !ok {
			return true
		}
		if as, ok := ts.Assign.(*ast.AssignStmt); ok {
			for _, cl := range ts.Body.List {
				if o := chk.Info.Implicits[cl]; o != nil {
					d.impl[o] = as.Lhs[0]
				}
			}
		}
		return true
	})
	s := d.dump(tree(f, nil, "", -1, chk.Info))
	return s, d.paths
}

func (d *dumper) dump(t *node) *sx {
	if _, ok := t.n.(*ast.ParenExpr); ok { // gofmt drops some of them
		s := d.dump(t.kids[0])
		s.prop = t.prop
		d.paths[t.path] = s
		return s
	}
	s := &sx{prop: t.prop, user: t.n}
	d.paths[t.path] = s
	s.op = strings.TrimPrefix(fmt.Sprintf("%T", t.n), "*ast.")
	switch n := t.n.(type) {
	case *ast.SelectorExpr:
		if len(t.kids) == 0 {
			s.op = "q:" + d.qualified(n.Sel)
			return s
		}
		x := t.kids[0]
		sel := t.kids[1]
		s.kids = []*sx{d.dump(x), {op: "n:" + n.Sel.Name, prop: "Sel", user: n.Sel}}
		d.paths[sel.path] = s.kids[1]
		return s
	case *ast.Ident:
		d.ident(s, n)
		return s
	case *ast.BasicLit:
		s.op = n.Value
		if n.Kind != token.STRING && n.Kind != token.CHAR {
			s.op = normNumber(n.Value)
		}
		return s
	case *ast.UnaryExpr:
		s.op += n.Op.String()
	case *ast.BinaryExpr:
		s.op += n.Op.String()
	case *ast.CallExpr:
		if n.Ellipsis.IsValid() {
			s.op += "..."
		}
	case *ast.AssignStmt:
		s.op += n.Tok.String()
	case *ast.IncDecStmt:
		s.op += n.Tok.String()
	case *ast.BranchStmt:
		s.op += n.Tok.String()
	case *ast.RangeStmt:
		s.op += n.Tok.String()
	case *ast.GenDecl:
		s.op += n.Tok.String()
	case *ast.TypeSpec:
		if n.Assign.IsValid() {
			s.op += "="
		}
	case *ast.ChanType:
		s.op += fmt.Sprint(n.Dir)
	case *ast.SliceExpr:
		if n.Slice3 {
			s.op += "3"
		}
	case *ast.FuncDecl:
		if t := n.Recv; t != nil {
			s.op += "recv"
		}
	}
	for _, k := range t.kids {
		switch k := k.n.(type) {
		case *ast.GenDecl:
			if k.Tok == token.IMPORT {
				continue
			}
		case *ast.EmptyStmt:
			continue
		case *ast.FieldList:
			if _, ok := t.n.(*ast.StructType); !ok {
				if _, ok := t.n.(*ast.InterfaceType); !ok {
					s.kids = append(s.kids, d.params(k, t))
					continue
				}
			}
		}
		s.kids = append(s.kids, d.dump(k))
	}
	return s
}

func normNumber(v string) string {
	return strings.ToLower(v)
}

// params writes a parameter list one by one.
func (d *dumper) params(fl *ast.FieldList, parent *node) *sx {
	var ft *node
	for _, k := range parent.kids {
		if k.n == ast.Node(fl) {
			ft = k
		}
	}
	s := &sx{op: "Params", prop: ft.prop, user: nil}
	for i, f := range fl.List {
		var typ *sx
		for _, k := range ft.kids[i].kids {
			if k.prop == "Type" {
				typ = d.dump(k)
			}
		}
		if len(f.Names) == 0 {
			s.kids = append(s.kids, &sx{op: "P", kids: []*sx{{op: "local", obj: anon{f}}, typ}})
		}
		for _, nm := range f.Names {
			o := d.info.Defs[nm]
			p := &sx{op: "local", obj: o, user: nm}
			if o == nil {
				p.obj = anon{nm}
			}
			s.kids = append(s.kids, &sx{op: "P", kids: []*sx{p, typ}})
		}
	}
	return s
}

func (d *dumper) qualified(id *ast.Ident) string {
	o := d.info.Uses[id]
	if o == nil || o.Pkg() == nil {
		return "?" + id.Name
	}
	return o.Pkg().Path() + "." + o.Name()
}

func (d *dumper) ident(s *sx, id *ast.Ident) {
	s.op = "n:" + id.Name
	o := d.info.Uses[id]
	if o == nil {
		o = d.info.Defs[id]
	}
	if o == nil {
		if id.Name != "_" {
			// The symbol of a type switch.
			s.op, s.obj = "local", id
		}
		return
	}
	if k, ok := d.impl[o]; ok {
		s.op, s.obj = "local", k
		return
	}
	if v, ok := o.(*types.Var); ok && v.IsField() {
		return
	}
	switch {
	case o.Pkg() == nil: // universe
	case o.Parent() == o.Pkg().Scope():
		if o.Pkg() != d.pkg {
			s.op = "q:" + o.Pkg().Path() + "." + o.Name()
		} else {
			s.op = "self." + o.Name()
		}
	default:
		if f, ok := o.(*types.Func); ok && f.Type().(*types.Signature).Recv() != nil || id.Name == "_" {
			return
		}
		if id.Name == "init" {
			if _, ok := o.(*types.Func); ok {
				return
			}
		}
		s.op, s.obj = "local", o
	}
}

// text prints the tree, numbering the local names within each declaration.
func (s *sx) text() string {
	var b strings.Builder
	if s.op == "File" {
		for _, k := range s.kids {
			p := &sxPrinter{&b, map[any]int{}}
			p.print(k, 0)
		}
	} else {
		(&sxPrinter{&b, map[any]int{}}).print(s, 0)
	}
	return b.String()
}

type sxPrinter struct {
	b   *strings.Builder
	num map[any]int
}

func (p *sxPrinter) print(s *sx, ind int) {
	p.b.WriteString(strings.Repeat(" ", ind))
	if s.prop != "" {
		p.b.WriteString(s.prop + ":")
	}
	if s.obj != nil {
		k, ok := p.num[s.obj]
		if !ok {
			k = len(p.num) + 1
			p.num[s.obj] = k
		}
		name := ""
		switch o := s.obj.(type) {
		case types.Object:
			name = o.Name()
		case tmplVar:
			name = o.name
		case *ast.Ident:
			name = o.Name
		}
		if name == "_" || strings.HasPrefix(name, "__") {
			name = ""
		}
		fmt.Fprintf(p.b, "%s#%d\n", name, k)
		return
	}
	p.b.WriteString(s.op + "\n")
	for _, k := range s.kids {
		p.print(k, ind+1)
	}
}

func (s *sx) kid(prop string) *sx {
	for _, k := range s.kids {
		if k.prop == prop {
			return k
		}
	}
	return nil
}

func (s *sx) all(prop string) (out []*sx) {
	for _, k := range s.kids {
		if k.prop == prop {
			out = append(out, k)
		}
	}
	return
}

func (s *sx) each(f func(*sx) bool) {
	if !f(s) {
		return
	}
	for _, k := range s.kids {
		k.each(f)
	}
}

func (s *sx) clone() *sx {
	c := *s
	c.kids = make([]*sx, len(s.kids))
	for i, k := range s.kids {
		c.kids[i] = k.clone()
	}
	return &c
}

// --- templates ---

// tmplVar is a variable declared by an instance of a template.
type tmplVar struct {
	inst int
	name string
}

var instances int

// template parses the text of a template, in which the names in holes stand for
// given pieces of syntax and the names in imports for packages.
func parseTemplate(kind, text string, imports map[string]string, holes map[string]*sx) []*sx {
	instances++
	inst := instances
	src := "package p\n"
	if kind == "decls" {
		src += text
	} else {
		src += "func _() {\n" + text + "\n}"
	}
	f, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
	if err != nil {
		vh.Infra("template: %v\n%s", err, src)
	}
	declared := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			for _, id := range n.Names {
				declared[id.Name] = true
			}
		case *ast.ValueSpec:
			for _, id := range n.Names {
				declared[id.Name] = kind != "decls"
			}
		case *ast.AssignStmt:
			if n.Tok == token.DEFINE {
				for _, l := range n.Lhs {
					declared[l.(*ast.Ident).Name] = true
				}
			}
		case *ast.StructType, *ast.InterfaceType:
			return false
		}
		return true
	})
	var conv func(n ast.Node, prop string) *sx
	conv = func(n ast.Node, prop string) *sx {
		s := &sx{prop: prop, op: strings.TrimPrefix(fmt.Sprintf("%T", n), "*ast.")}
		switch n := n.(type) {
		case *ast.ParenExpr:
			return conv(n.X, prop)
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && imports[id.Name] != "" {
				s.op = "q:" + imports[id.Name] + "." + n.Sel.Name
				return s
			}
			s.kids = []*sx{conv(n.X, "X"), {op: "n:" + n.Sel.Name, prop: "Sel"}}
			return s
		case *ast.Ident:
			if h, ok := holes[n.Name]; ok {
				c := *h
				c.prop = prop
				return &c
			}
			switch {
			case kind == "decls" && strings.HasPrefix(n.Name, "zz"):
				s.op = "self." + n.Name
			case declared[n.Name]:
				s.op, s.obj = "local", tmplVar{inst, n.Name}
			default:
				s.op = "n:" + n.Name
			}
			return s
		case *ast.BasicLit:
			s.op = n.Value
			return s
		case *ast.UnaryExpr:
			s.op += n.Op.String()
		case *ast.BinaryExpr:
			s.op += n.Op.String()
		case *ast.CallExpr:
			if n.Ellipsis.IsValid() {
				s.op += "..."
			}
		case *ast.AssignStmt:
			s.op += n.Tok.String()
		case *ast.GenDecl:
			s.op += n.Tok.String()
		case *ast.FuncType:
			for _, fl := range []struct {
				p string
				l *ast.FieldList
			}{{"Params", n.Params}, {"Results", n.Results}} {
				if fl.l == nil {
					continue
				}
				ps := &sx{op: "Params", prop: fl.p}
				for _, f := range fl.l.List {
					typ := conv(f.Type, "Type")
					if len(f.Names) == 0 {
						ps.kids = append(ps.kids, &sx{op: "P", kids: []*sx{{op: "local", obj: anon{f}}, typ}})
					}
					for _, nm := range f.Names {
						ps.kids = append(ps.kids, &sx{op: "P", kids: []*sx{conv(nm, ""), typ}})
					}
				}
				s.kids = append(s.kids, ps)
			}
			return s
		}
		v := reflect.ValueOf(n).Elem()
		add := func(c reflect.Value, name string) {
			if c.Kind() == reflect.Interface {
				c = c.Elem()
			}
			if c.Kind() != reflect.Ptr || c.IsNil() {
				return
			}
			if k, ok := c.Interface().(ast.Node); ok {
				s.kids = append(s.kids, conv(k, name))
			}
		}
		for i := 0; i < v.NumField(); i++ {
			name := v.Type().Field(i).Name
			if skipFields[name] || !v.Type().Field(i).IsExported() {
				continue
			}
			switch f := v.Field(i); f.Kind() {
			case reflect.Slice:
				for j := 0; j < f.Len(); j++ {
					add(f.Index(j), name)
				}
			case reflect.Ptr, reflect.Interface:
				add(f, name)
			}
		}
		return s
	}
	var out []*sx
	if kind == "decls" {
		for _, d := range f.Decls {
			out = append(out, conv(d, "Decls"))
		}
		return out
	}
	for _, st := range f.Decls[0].(*ast.FuncDecl).Body.List {
		out = append(out, conv(st, "List"))
	}
	return out
}

// typeSX is the syntax of a type name as advice takes it.
func typeSX(t typ, prop string) *sx {
	if t.ptr {
		t.ptr = false
		return &sx{op: "StarExpr", prop: prop, kids: []*sx{typeSX(t, "X")}}
	}
	if t.path == "" {
		return &sx{op: "n:" + t.name, prop: prop}
	}
	return &sx{op: "q:" + t.path + "." + t.name, prop: prop}
}

// marksIn counts the strings of the form @k in a tree.
func marksIn(s *sx) map[string]int {
	out := map[string]int{}
	s.each(func(k *sx) bool {
		if v, err := strconv.Unquote(k.op); err == nil && strings.HasPrefix(v, "@") {
			out[v]++
		}
		return true
	})
	return out
}
