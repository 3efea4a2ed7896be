package inject_test

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"pgregory.net/rapid"
)

// --- a tree of syntax with the paths nodes are known by ---

type node struct {
	n      ast.Node
	parent *node
	prop   string
	index  int
	path   string
	kids   []*node
}

var skipFields = map[string]bool{"Doc": true, "Comment": true, "Comments": true, "Obj": true, "Scope": true, "Imports": true, "Unresolved": true}

// tree builds the nodes of a file; qualified identifiers are leaves.
func tree(n ast.Node, parent *node, prop string, index int, info *types.Info) *node {
	t := &node{n: n, parent: parent, prop: prop, index: index}
	if parent != nil {
		t.path = parent.path + "." + prop
		if index >= 0 {
			t.path += "[" + strconv.Itoa(index) + "]"
		}
	}
	if sel, ok := n.(*ast.SelectorExpr); ok && qualified(sel, info) {
		return t
	}
	v := reflect.ValueOf(n).Elem()
	add := func(c reflect.Value, name string, i int) {
		if c.Kind() == reflect.Interface {
			c = c.Elem()
		}
		if c.Kind() != reflect.Ptr || c.IsNil() {
			return
		}
		if k, ok := c.Interface().(ast.Node); ok {
			t.kids = append(t.kids, tree(k, t, name, i, info))
		}
	}
	for i := 0; i < v.NumField(); i++ {
		name := v.Type().Field(i).Name
		if skipFields[name] || !v.Type().Field(i).IsExported() {
			continue
		}
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Slice:
			for j := 0; j < f.Len(); j++ {
				add(f.Index(j), name, j)
			}
		case reflect.Ptr, reflect.Interface:
			add(f, name, -1)
		}
	}
	return t
}

func qualified(sel *ast.SelectorExpr, info *types.Info) bool {
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return false
	}
	_, ok = info.Uses[id].(*types.PkgName)
	return ok
}

func (t *node) each(f func(*node)) {
	f(t)
	for _, k := range t.kids {
		k.each(f)
	}
}

// --- what a join point says about a node ---

type tri int

const (
	no tri = iota
	yes
	open // the documentation does not settle it
)

func b2t(b bool) tri {
	if b {
		return yes
	}
	return no
}
func (a tri) and(b tri) tri {
	if a == no || b == no {
		return no
	}
	if a == yes && b == yes {
		return yes
	}
	return open
}
func (a tri) or(b tri) tri {
	if a == yes || b == yes {
		return yes
	}
	if a == no && b == no {
		return no
	}
	return open
}
func (a tri) not() tri {
	switch a {
	case no:
		return yes
	case yes:
		return no
	}
	return open
}

// env is the package the nodes are in.
type env struct {
	path     string
	pkg      string
	testMain bool
	config   map[string]string
	root     string // root module
	chk      *ilib.Checked
	file     *ast.File
	src      string
}

type typ struct {
	path, name string
	ptr        bool
}

func (t typ) String() string {
	s := t.name
	if t.path != "" {
		s = t.path + "." + s
	}
	if t.ptr {
		s = "*" + s
	}
	return s
}

type fopt struct {
	kind      string
	name      string
	typ       typ
	flag      bool
	args, ret []typ
}

type jp struct {
	kind  string
	path  string // import path of the symbol
	name  string
	typ   typ
	match string
	field string
	flag  bool
	pat   string
	opts  []fopt
	kids  []*jp
	cfg   map[string]string
}

func quoted(s string) string { return strconv.Quote(s) }

func symbol(p, n string) string {
	if p == "" {
		return n
	}
	return p + "." + n
}

// yaml writes the join point in flow style.
func (j *jp) yaml() string {
	switch j.kind {
	case "all-of", "one-of":
		parts := make([]string, len(j.kids))
		for i, k := range j.kids {
			parts[i] = k.yaml()
		}
		return "{" + j.kind + ": [" + strings.Join(parts, ", ") + "]}"
	case "not", "function-body":
		return "{" + j.kind + ": " + j.kids[0].yaml() + "}"
	case "function":
		parts := make([]string, len(j.opts))
		list := func(ts []typ) string {
			p := make([]string, len(ts))
			for i, t := range ts {
				p[i] = quoted(t.String())
			}
			return "[" + strings.Join(p, ", ") + "]"
		}
		for i, o := range j.opts {
			switch o.kind {
			case "name", "result-implements", "final-result-implements", "argument-implements":
				parts[i] = "{" + o.kind + ": " + quoted(o.name) + "}"
			case "receiver":
				parts[i] = "{receiver: " + quoted(o.typ.String()) + "}"
			case "has-receiver":
				parts[i] = fmt.Sprintf("{receiver: %v}", o.flag)
			case "signature", "signature-contains":
				parts[i] = "{" + o.kind + ": {args: " + list(o.args) + ", returns: " + list(o.ret) + "}}"
			}
		}
		return "{function: [" + strings.Join(parts, ", ") + "]}"
	case "function-call", "declaration-of":
		return "{" + j.kind + ": " + quoted(symbol(j.path, j.name)) + "}"
	case "method-call":
		m := ""
		if j.match != "" {
			m = ", match: " + j.match
		}
		return "{method-call: {receiver: " + quoted(j.typ.String()) + ", name: " + j.name + m + "}}"
	case "struct-literal":
		m := ""
		if j.match != "" {
			m = ", match: " + j.match
		}
		if j.field != "" {
			m = ", field: " + j.field
		}
		return "{struct-literal: {type: " + quoted(j.typ.String()) + m + "}}"
	case "struct-definition", "value-declaration":
		return "{" + j.kind + ": " + quoted(j.typ.String()) + "}"
	case "directive", "import-path", "package-name":
		return "{" + j.kind + ": " + quoted(j.name) + "}"
	case "test-main":
		return fmt.Sprintf("{test-main: %v}", j.flag)
	case "package-filter":
		if j.flag {
			if j.pat == "" {
				return "{package-filter: {root: true}}"
			}
			return "{package-filter: {root: true, pattern: " + quoted(j.pat) + "}}"
		}
		return "{package-filter: " + quoted(j.pat) + "}"
	case "configuration":
		var parts []string
		for k, v := range j.cfg {
			parts = append(parts, k+": "+quoted(v))
		}
		return "{configuration: {" + strings.Join(parts, ", ") + "}}"
	}
	panic(j.kind)
}

// typeIs tells whether the type expression is the named type.
func (e *env) typeIs(want typ, x ast.Expr) tri {
	if x == nil {
		return no
	}
	switch n := x.(type) {
	case *ast.ParenExpr:
		return open.and(e.typeIs(want, n.X).or(open))
	case *ast.StarExpr:
		if !want.ptr {
			if e.aliasIn(n.X) {
				return open
			}
			return no
		}
		return e.typeIs(typ{want.path, want.name, false}, n.X)
	case *ast.IndexExpr:
		return e.typeIs(want, n.X)
	case *ast.IndexListExpr:
		return e.typeIs(want, n.X)
	case *ast.InterfaceType:
		return b2t(len(n.Methods.List) == 0 && want == typ{"", "any", false})
	case *ast.Ident, *ast.SelectorExpr:
		id, ok := n.(*ast.Ident)
		if !ok {
			id = n.(*ast.SelectorExpr).Sel
		}
		obj, ok := e.chk.Info.Uses[id].(*types.TypeName)
		if !ok {
			return no
		}
		if e.aliasIn(x) && obj.Pkg() != nil {
			return open
		}
		p := ""
		if obj.Pkg() != nil {
			p = obj.Pkg().Path()
		}
		if _, isParam := obj.Type().(*types.TypeParam); isParam {
			if want.path == "" && want.name == obj.Name() {
				return open
			}
			return no
		}
		if p == e.path && !want.ptr && obj.Name() == want.name && (want.path == p || want.path == "") {
			return open // types of the package itself
		}
		return b2t(!want.ptr && p == want.path && obj.Name() == want.name)
	}
	return no
}

// valueIs tells whether a value's type is the named one.
func (e *env) valueIs(want typ, t types.Type) tri {
	_, untyped := types.Unalias(t).(*types.Basic)
	if untyped {
		t = types.Default(t)
	}
	if _, isAlias := t.(*types.Alias); isAlias {
		return open
	}
	if p, ok := t.(*types.Pointer); ok && want.ptr {
		return e.valueIs(typ{want.path, want.name, false}, p.Elem())
	}
	if want.ptr {
		return no
	}
	switch t := t.(type) {
	case *types.Basic:
		return b2t(want.path == "" && t.Name() == want.name)
	case *types.Named:
		p := ""
		if t.Obj().Pkg() != nil {
			p = t.Obj().Pkg().Path()
		}
		if p == e.path && p != "" {
			if t.Obj().Name() == want.name {
				return open
			}
			return no
		}
		return b2t(p == want.path && t.Obj().Name() == want.name)
	case *types.Interface:
		return b2t(t.Empty() && want == typ{"", "any", false})
	}
	return no
}

func (e *env) aliasIn(x ast.Expr) bool {
	id, ok := x.(*ast.Ident)
	if sel, isSel := x.(*ast.SelectorExpr); isSel {
		id, ok = sel.Sel, true
	}
	if !ok {
		return false
	}
	obj, ok := e.chk.Info.Uses[id].(*types.TypeName)
	return ok && obj.IsAlias() && obj.Pkg() != nil
}

func flat(fl *ast.FieldList) []ast.Expr {
	var out []ast.Expr
	if fl == nil {
		return nil
	}
	for _, f := range fl.List {
		k := len(f.Names)
		if k == 0 {
			k = 1
		}
		for ; k > 0; k-- {
			out = append(out, f.Type)
		}
	}
	return out
}

func (e *env) function(j *jp, t *node) tri {
	var ft *ast.FuncType
	var recv ast.Expr
	name := ""
	switch n := t.n.(type) {
	case *ast.FuncDecl:
		ft, name = n.Type, n.Name.Name
		if n.Recv != nil {
			recv = n.Recv.List[0].Type
		}
	case *ast.FuncLit:
		ft = n.Type
	default:
		return no
	}
	res := yes
	for _, o := range j.opts {
		r := no
		switch o.kind {
		case "name":
			r = b2t(o.name == name)
		case "has-receiver":
			r = b2t((recv != nil) == o.flag)
		case "receiver":
			if recv != nil && o.typ.path == e.path {
				rt := e.chk.Info.TypeOf(recv)
				ptr := false
				if p, ok := rt.(*types.Pointer); ok {
					rt, ptr = p.Elem(), true
				}
				if named, ok := types.Unalias(rt).(*types.Named); ok {
					r = b2t(named.Obj().Name() == o.typ.name && ptr == o.typ.ptr)
				}
				if _, isAlias := rt.(*types.Alias); isAlias {
					r = open
				}
			}
		case "signature":
			ps, rs := flat(ft.Params), flat(ft.Results)
			r = b2t(len(ps) == len(o.args) && len(rs) == len(o.ret))
			if r == yes {
				for i, p := range ps {
					r = r.and(e.typeIs(o.args[i], p))
				}
				for i, p := range rs {
					r = r.and(e.typeIs(o.ret[i], p))
				}
			}
		case "signature-contains":
			for _, p := range flat(ft.Params) {
				for _, a := range o.args {
					r = r.or(e.typeIs(a, p))
				}
			}
			for _, p := range flat(ft.Results) {
				for _, a := range o.ret {
					r = r.or(e.typeIs(a, p))
				}
			}
		case "result-implements":
			r = e.anyImplements(flat(ft.Results), o.name)
		case "argument-implements":
			r = e.anyImplements(flat(ft.Params), o.name)
		case "final-result-implements":
			if rs := flat(ft.Results); len(rs) > 0 {
				r = e.anyImplements(rs[len(rs)-1:], o.name)
			}
		}
		res = res.and(r)
	}
	return res
}

// implements: the interfaces named are error, fmt.Stringer and context.Context.
func (e *env) anyImplements(xs []ast.Expr, name string) tri {
	methods := map[string][]string{"error": {"Error"}, "fmt.Stringer": {"String"}, "context.Context": {"Deadline", "Done", "Err", "Value"}, "io.Closer": {"Close"}}[name]
	sigs := map[string]string{"Error": "func() string", "String": "func() string", "Close": "func() error"}
	res := no
	for _, x := range xs {
		if el, ok := x.(*ast.Ellipsis); ok {
			_ = el
			continue // a slice, which has no methods
		}
		t := e.chk.Info.TypeOf(x)
		if t == nil {
			res = res.or(open)
			continue
		}
		r := yes
		for _, m := range methods {
			obj, _, _ := types.LookupFieldOrMethod(t, false, e.chk.Pkg, m)
			fn, ok := obj.(*types.Func)
			if !ok {
				r = no
				break
			}
			want, known := sigs[m]
			if known && strings.TrimSpace(types.TypeString(fn.Type(), nil)) != want {
				r = no
			}
			if !known {
				r = r.and(open.or(b2t(strings.HasPrefix(t.String(), "context."))))
			}
		}
		if _, isParam := t.(*types.TypeParam); isParam {
			r = r.and(open)
		}
		res = res.or(r)
	}
	return res
}

func (e *env) matches(j *jp, t *node) tri {
	info := e.chk.Info
	switch j.kind {
	case "all-of":
		r := yes
		for _, k := range j.kids {
			r = r.and(e.matches(k, t))
		}
		return r
	case "one-of":
		r := no
		for _, k := range j.kids {
			r = r.or(e.matches(k, t))
		}
		return r
	case "not":
		return e.matches(j.kids[0], t).not()
	case "function":
		return e.function(j, t)
	case "function-body":
		if _, ok := t.n.(*ast.BlockStmt); !ok || t.prop != "Body" {
			return no
		}
		switch t.parent.n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			return e.matches(j.kids[0], t.parent)
		}
		return no
	case "function-call":
		call, ok := t.n.(*ast.CallExpr)
		if !ok {
			return no
		}
		fun := call.Fun
		res := yes
		for {
			if p, ok := fun.(*ast.ParenExpr); ok {
				fun, res = p.X, open
				continue
			}
			if ix, ok := fun.(*ast.IndexExpr); ok {
				fun, res = ix.X, open
				continue
			}
			if ix, ok := fun.(*ast.IndexListExpr); ok {
				fun, res = ix.X, open
				continue
			}
			break
		}
		var obj types.Object
		switch f := fun.(type) {
		case *ast.Ident:
			obj = info.Uses[f]
		case *ast.SelectorExpr:
			if !qualified(f, info) {
				return no
			}
			obj = info.Uses[f.Sel]
		}
		if obj == nil || obj.Name() != j.name {
			return no
		}
		if j.path == "" || j.path == e.path {
			// Unqualified names, and the package's own functions, are not documented.
			if obj.Pkg() == nil || obj.Pkg().Path() == e.path {
				return open
			}
			return no
		}
		if obj.Pkg() == nil || obj.Pkg().Path() != j.path || obj.Parent() != obj.Pkg().Scope() {
			return no
		}
		if _, isFunc := obj.(*types.Func); !isFunc {
			return open // variables and conversions
		}
		return res
	case "method-call":
		call, ok := t.n.(*ast.CallExpr)
		if !ok {
			return no
		}
		sel, ok := call.Fun.(*ast.SelectorExpr)
		if !ok {
			if p, isP := ast.Unparen(call.Fun).(*ast.SelectorExpr); isP && p.Sel.Name == j.name {
				return open
			}
			return no
		}
		if qualified(sel, info) || sel.Sel.Name != j.name {
			return no
		}
		tv := info.Types[sel.X]
		t := tv.Type
		if t == nil {
			if id, ok := sel.X.(*ast.Ident); ok && info.Uses[id] != nil {
				t = info.Uses[id].Type()
			}
		}
		if t == nil || tv.IsType() {
			return open
		}
		ptr := false
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t, ptr = p.Elem(), true
		}
		named, ok := types.Unalias(t).(*types.Named)
		if !ok {
			return no
		}
		s := info.Selections[sel]
		if s == nil || s.Kind() != types.MethodVal || len(s.Index()) > 1 {
			return open // promoted methods and function fields
		}
		o := named.Obj()
		if o.Pkg() == nil || o.Pkg().Path() != j.typ.path || o.Name() != j.typ.name {
			return no
		}
		switch j.match {
		case "pointer-only":
			return b2t(ptr)
		case "value-only":
			return b2t(!ptr)
		}
		return yes
	case "struct-literal":
		lit := func(n ast.Node) tri {
			l, ok := n.(*ast.CompositeLit)
			if !ok {
				return no
			}
			if l.Type == nil {
				return open // the type is left out inside of another literal
			}
			return e.typeIs(j.typ, l.Type)
		}
		if j.field != "" {
			kv, ok := t.n.(*ast.KeyValueExpr)
			if !ok {
				return no
			}
			id, ok := kv.Key.(*ast.Ident)
			if !ok || id.Name != j.field {
				return no
			}
			return lit(t.parent.n)
		}
		switch j.match {
		case "pointer-only":
			if u, ok := t.n.(*ast.UnaryExpr); ok && u.Op == token.AND {
				if l, ok := ast.Unparen(u.X).(*ast.CompositeLit); ok && ast.Expr(l) != u.X {
					return lit(l).and(open)
				}
				return lit(u.X)
			}
			return no
		case "value-only":
			if t.parent == nil {
				return no
			}
			if u, ok := t.parent.n.(*ast.UnaryExpr); ok && u.Op == token.AND {
				return no
			}
			if _, ok := t.parent.n.(*ast.ParenExpr); ok {
				return lit(t.n).and(open)
			}
		}
		return lit(t.n)
	case "struct-definition":
		spec, ok := t.n.(*ast.TypeSpec)
		if !ok || spec.Name.Name != j.typ.name || j.typ.path != e.path {
			return no
		}
		if _, ok := spec.Type.(*ast.StructType); !ok {
			return no
		}
		obj := info.Defs[spec.Name]
		return b2t(obj != nil && obj.Parent() == e.chk.Pkg.Scope())
	case "declaration-of":
		if j.path != e.path {
			return no
		}
		switch n := t.n.(type) {
		case *ast.FuncDecl:
			if n.Recv != nil {
				return no
			}
			return b2t(n.Name.Name == j.name)
		case *ast.ValueSpec:
			if _, top := t.parent.parent.n.(*ast.File); !top {
				return no
			}
			for _, id := range n.Names {
				if id.Name == j.name {
					return yes
				}
			}
		case *ast.TypeSpec:
			if n.Name.Name == j.name {
				return open
			}
		}
		return no
	case "value-declaration":
		spec, ok := t.n.(*ast.ValueSpec)
		if !ok {
			return no
		}
		if _, top := t.parent.parent.n.(*ast.File); !top {
			return no
		}
		if spec.Type == nil {
			r := no
			for _, v := range spec.Values {
				vt := info.TypeOf(v)
				if tup, ok := vt.(*types.Tuple); ok {
					for i := 0; i < tup.Len(); i++ {
						r = r.or(e.valueIs(j.typ, tup.At(i).Type()))
					}
					continue
				}
				r = r.or(e.valueIs(j.typ, vt))
			}
			if len(spec.Values) == 0 {
				return open // the previous constant is repeated
			}
			return r
		}
		return e.typeIs(j.typ, spec.Type)
	case "directive":
		return e.directive(j.name, t)
	case "import-path":
		return b2t(e.path == j.name)
	case "package-name":
		return b2t(e.pkg == j.name)
	case "test-main":
		return b2t(e.testMain == j.flag)
	case "package-filter":
		return e.filter(j)
	case "configuration":
		for k, v := range j.cfg {
			if got, ok := e.config[k]; !ok || got != v {
				return no
			}
		}
		return yes
	}
	panic(j.kind)
}

func (e *env) filter(j *jp) tri {
	target := e.path
	if j.flag {
		if e.path != e.root && !strings.HasPrefix(e.path, e.root+"/") {
			return no
		}
		if j.pat == "" {
			return yes
		}
		target = strings.TrimPrefix(strings.TrimPrefix(e.path, e.root), "/")
		if target == "" {
			target = "."
		}
	}
	if j.pat == "*" {
		return open
	}
	if !strings.Contains(j.pat, "**") {
		ok, err := path.Match(j.pat, target)
		return b2t(ok && err == nil)
	}
	// ** as a whole segment: any number of segments.
	segs := slices.CompactFunc(strings.Split(j.pat, "/"), func(a, b string) bool { return a == "**" && b == "**" })
	re := "^"
	for i, s := range segs {
		if s == "**" {
			switch {
			case len(segs) == 1:
				re += ".*"
			case i == len(segs)-1:
				re = strings.TrimSuffix(re, "/") + "(/.*)?"
				if i == 1 && segs[0] == "" {
					return open
				}
			default:
				re += "(?:[^/]+/)*"
			}
			continue
		}
		if strings.Contains(s, "**") {
			return open
		}
		q := regexp.QuoteMeta(s)
		q = strings.ReplaceAll(q, `\*`, "[^/]*")
		q = strings.ReplaceAll(q, `\?`, "[^/]")
		q = strings.ReplaceAll(q, `\[`, "[")
		q = strings.ReplaceAll(q, `\]`, "]")
		re += q
		if i < len(segs)-1 {
			re += "/"
		}
	}
	if target == "." {
		return open
	}
	return b2t(regexp.MustCompile(re + "$").MatchString(target))
}

// --- comments ---

// attached lists the comment lines right above a node, and tells whether there
// are others nearby whose attachment nobody specified.
func (e *env) attached(t *node) (lines []string, unsure []string) {
	fset := e.chk.Fset
	tf := fset.File(e.file.FileStart)
	// The decorations belong to the outermost node of a list.
	start := t.n.Pos()
	inList := t.index >= 0 && (t.prop == "List" || t.prop == "Body" || t.prop == "Decls" || t.prop == "Specs")
	if f, ok := t.n.(*ast.File); ok {
		inList, start = true, f.Package
	}
	switch t.n.(type) {
	case *ast.FieldList, *ast.File:
	case *ast.Field:
		if t.parent != nil && t.parent.parent != nil {
			if _, ok := t.parent.parent.n.(*ast.FuncType); ok {
				inList = false
			}
		}
	}
	lineOf := func(p token.Pos) int { return tf.PositionFor(p, false).Line }
	if inList {
		for p := t.parent; p != nil; p = p.parent {
			if p.n.Pos() == start && p.index >= 0 {
				return nil, nil // the outermost node that starts here owns the comments
			}
		}
		bol := tf.Offset(tf.LineStart(lineOf(start)))
		if !e.onlyBlank(bol, tf.Offset(start)) {
			// Something else starts the line: the comments above are that thing's.
			for _, g := range e.file.Comments {
				for _, c := range g.List {
					if c.End() <= start && e.onlyBlank(tf.Offset(c.End()), tf.Offset(start)) {
						unsure = append(unsure, c.Text)
					}
				}
			}
			return nil, unsure
		}
	}
	cur := lineOf(start)
	adjacent := true
	for i := len(e.file.Comments) - 1; i >= 0; i-- {
		g := e.file.Comments[i]
		for k := len(g.List) - 1; k >= 0; k-- {
			c := g.List[k]
			if c.Pos() >= start {
				// Comments inside of the node may belong to it in ways nobody specified.
				if c.Pos() < t.n.End() && inList {
					continue
				}
				continue
			}
			if lineOf(c.End()) == cur && c.End() <= start {
				unsure = append(unsure, c.Text) // on the same line
				continue
			}
			if _, isClause := t.n.(*ast.CaseClause); isClause || isComm(t.n) {
				if tf.PositionFor(c.Pos(), false).Column != tf.PositionFor(start, false).Column {
					// Indented otherwise than the clause, it may belong to the previous one.
					adjacent = false
				}
			}
			if adjacent && lineOf(c.End()) == cur-1 && e.alone(c) {
				lines = append(lines, c.Text)
				cur = lineOf(c.Pos())
				continue
			}
			if adjacent {
				adjacent = false
			}
			// Further up: only if nothing but blank lines and comments lie between.
			if e.onlyBlank(tf.Offset(c.End()), tf.Offset(start)) {
				unsure = append(unsure, c.Text)
				continue
			}
			goto done
		}
	}
done:
	if !inList {
		// Nodes that do not start a line of their own have nothing attached,
		// except where a list of arguments or elements is spread over lines.
		// Whatever a node of a list has belongs to that node.
		for p := t.parent; p != nil; p = p.parent {
			if p.n.Pos() == start && p.index >= 0 {
				return nil, nil
			}
		}
		return nil, append(lines, unsure...)
	}
	return lines, unsure
}

func isComm(n ast.Node) bool {
	_, ok := n.(*ast.CommClause)
	return ok
}

// alone tells whether the comment has its line(s) for itself.
func (e *env) alone(c *ast.Comment) bool {
	tf := e.chk.Fset.File(e.file.FileStart)
	off := tf.Offset(c.Pos())
	for off > 0 && (e.src[off-1] == ' ' || e.src[off-1] == '\t') {
		off--
	}
	return off == 0 || e.src[off-1] == '\n'
}

var commentRE = regexp.MustCompile(`(?s)//[^\n]*|/\*.*?\*/`)

func (e *env) onlyBlank(from, to int) bool {
	return from <= to && strings.TrimSpace(commentRE.ReplaceAllString(e.src[from:to], "")) == ""
}

func isDirective(text, name string) bool {
	rest, ok := strings.CutPrefix(text, "//"+name)
	return ok && (rest == "" || rest[0] == ' ' || rest[0] == '\t')
}

func (e *env) has(t *node, name string) tri {
	lines, unsure := e.attached(t)
	for _, l := range lines {
		if isDirective(l, name) {
			return yes
		}
	}
	for _, l := range unsure {
		if isDirective(l, name) {
			return open
		}
	}
	return no
}

// directive: attached to the node itself, or to one that passes it on.
func (e *env) directive(name string, t *node) tri {
	r := e.has(t, name)
	if t.parent == nil {
		return r
	}
	switch t.n.(type) {
	case ast.Spec:
		up := e.directive(name, t.parent)
		if t.parent.parent != nil {
			if ds, ok := t.parent.parent.n.(*ast.DeclStmt); ok && ds != nil {
				// A declaration in a function: the statement carries the comment.
				up = up.or(open.and(e.has(t.parent.parent, name)))
			}
		}
		r = r.or(up)
	}
	switch p := t.parent.n.(type) {
	case *ast.DeclStmt:
		r = r.or(open.and(e.has(t.parent, name)))
	case *ast.AssignStmt:
		if t.prop == "Rhs" || p.Tok == token.DEFINE && t.prop == "Lhs" {
			r = r.or(e.directive(name, t.parent))
		}
	case *ast.CallExpr:
		if t.prop == "Fun" {
			r = r.or(e.directive(name, t.parent))
		}
	case *ast.SendStmt:
		if t.prop == "Value" {
			r = r.or(e.directive(name, t.parent))
		}
	case *ast.DeferStmt, *ast.ExprStmt, *ast.GoStmt, *ast.ReturnStmt:
		r = r.or(e.directive(name, t.parent))
	}
	return r
}

// ignored tells whether the node or one it is in is excluded from weaving.
func (e *env) ignored(t *node) tri {
	r := no
	for p := t; p != nil; p = p.parent {
		r = r.or(e.has(p, "orchestrion:ignore")).or(e.has(p, "dd:ignore"))
	}
	return r
}

// --- generation of join points ---

type jpGen struct {
	t     *rapid.T
	prog  *ilib.Prog
	path  string
	names []string // names declared in the package
	types []string // struct types
}

func newJPGen(t *rapid.T, p *ilib.Prog, importPath string) *jpGen {
	g := &jpGen{t: t, prog: p, path: importPath}
	for _, f := range p.Funcs {
		g.names = append(g.names, f.Name)
	}
	for _, re := range []string{`\b(gv\d+|gf\d+|v\d+|w\d+|gc\d+A)\b`} {
		for _, n := range p.Names() {
			for _, m := range regexp.MustCompile(re).FindAllString(p.Files[n], 3) {
				g.names = append(g.names, m)
			}
		}
	}
	g.types = append(g.types, "T0")
	for _, n := range p.Names() {
		for _, m := range regexp.MustCompile(`\bT\d+\b|\bloc\d+\b`).FindAllString(p.Files[n], 8) {
			g.types = append(g.types, m)
		}
	}
	g.names = append(g.names, "Run", "main", "init", "nothing", "mkClient")
	return g
}

func (g *jpGen) n(k int) int            { return rapid.IntRange(0, k-1).Draw(g.t, "j") }
func (g *jpGen) pick(l []string) string { return l[g.n(len(l))] }

const (
	wLib  = "example.com/w/lib"
	wDeep = "example.com/w/deep/lib"
	wOdd  = "example.com/w/odd.v2"
)

func (g *jpGen) typ(ptr bool) typ {
	ts := []typ{{wLib, "Client", false}, {wLib, "Client", false}, {wLib, "Store", false}, {wLib, "Pair", false}, {wDeep, "Client", false}, {wOdd, "Thing", false}, {wLib, "Doer", false},
		{"", "int", false}, {"", "string", false}, {"", "error", false}, {"", "any", false}, {"", "bool", false}, {"net/http", "Client", false}, {"time", "Time", false}, {"example.com/absent", "T", false}, {wLib, "Opt", false}, {wLib, "Alias", false}}
	t := ts[g.n(len(ts))]
	t.ptr = ptr && g.n(2) == 0
	return t
}

func (g *jpGen) sigOf() (args, ret []typ) {
	key := func(k string) typ {
		ptr := strings.HasPrefix(k, "*")
		k = strings.TrimPrefix(k, "*")
		switch k {
		case "Client", "Store", "Doer", "Pair":
			return typ{wLib, k, ptr}
		case "Deep":
			return typ{wDeep, "Client", ptr}
		case "Thing":
			return typ{wOdd, "Thing", ptr}
		case "int", "string", "bool", "error", "any":
			return typ{"", k, ptr}
		}
		return typ{"", "int", false}
	}
	if len(g.prog.Funcs) > 0 && g.n(4) > 0 {
		f := g.prog.Funcs[g.n(len(g.prog.Funcs))]
		for _, k := range f.Params {
			args = append(args, key(k))
		}
		for _, k := range f.Results {
			ret = append(ret, key(k))
		}
		return
	}
	for k := g.n(3); k > 0; k-- {
		args = append(args, g.typ(true))
	}
	for k := g.n(2); k > 0; k-- {
		ret = append(ret, g.typ(true))
	}
	return
}

func (g *jpGen) fn() *jp {
	j := &jp{kind: "function"}
	for k := g.n(3); k > 0; k-- {
		switch g.n(8) {
		case 0, 1:
			name := g.pick(g.names)
			if g.n(5) == 0 {
				name = ""
			}
			j.opts = append(j.opts, fopt{kind: "name", name: name})
		case 2:
			j.opts = append(j.opts, fopt{kind: "has-receiver", flag: g.n(2) == 0})
		case 3:
			p := g.path
			if g.n(5) == 0 {
				p = wLib
			}
			j.opts = append(j.opts, fopt{kind: "receiver", typ: typ{p, g.pick(g.types), g.n(2) == 0}})
		case 4:
			a, r := g.sigOf()
			j.opts = append(j.opts, fopt{kind: "signature", args: a, ret: r})
		case 5:
			a, r := g.sigOf()
			if len(a) > 1 {
				a = a[:1]
			}
			if len(r) > 1 {
				r = r[1:]
			}
			for k := g.n(3); k > 0; k-- {
				a = append(a, g.typ(true))
			}
			if g.n(3) == 0 {
				r = append(r, g.typ(true))
			}
			j.opts = append(j.opts, fopt{kind: "signature-contains", args: a, ret: r})
		case 6, 7:
			j.opts = append(j.opts, fopt{kind: g.pick([]string{"result-implements", "final-result-implements", "argument-implements"}), name: g.pick([]string{"error", "fmt.Stringer", "error", "context.Context"})})
		}
	}
	return j
}

var filterPatterns = []string{"example.com/w/*", "example.com/**", "**/app", "example.com/*/app", "*", "example.com/w/app", "**", "example.com/w", "**/internal/**", "**/w/**/x", "example.com/w/app/**", "ex*/w/**", "app", "app/**", "a?p", "[a-c]pp", "internal/*", "**/x"}

func (g *jpGen) point(depth int) *jp {
	if depth > 0 && g.n(3) == 0 {
		switch g.n(4) {
		case 0, 1:
			j := &jp{kind: g.pick([]string{"all-of", "one-of"})}
			for k := 1 + g.n(3); k > 0; k-- {
				j.kids = append(j.kids, g.point(depth-1))
			}
			return j
		case 2:
			return &jp{kind: "not", kids: []*jp{g.point(depth - 1)}}
		case 3:
			return &jp{kind: "function-body", kids: []*jp{g.point(depth - 1)}}
		}
	}
	switch g.n(30) {
	case 20, 21:
		return &jp{kind: "value-declaration", typ: g.typ(true)}
	case 0, 1:
		return &jp{kind: "function-call", path: wLib, name: g.pick([]string{"Add", "Sum", "New", "Apply", "Hook", "Ident", "Do", "Make"})}
	case 2:
		s := [][2]string{{wDeep, "Sum"}, {wDeep, "New"}, {wOdd, "Twice"}, {"strings", "ToUpper"}, {"fmt", "Sprint"}, {"errors", "New"}, {"net/http", "Get"}, {wLib, "nothing"}, {wOdd, "Do"}}[g.n(9)]
		return &jp{kind: "function-call", path: s[0], name: s[1]}
	case 3, 4:
		s := [][2]string{{"Client", "Do"}, {"Client", "Peek"}, {"Client", "With"}, {"Client", "String"}, {"Store", "Do"}, {"Pair", "Get"}, {"Pair", "Set"}, {"Doer", "Do"}}[g.n(8)]
		j := &jp{kind: "method-call", typ: typ{wLib, s[0], false}, name: s[1], match: g.pick([]string{"", "any", "pointer-only", "value-only"})}
		if g.n(4) == 0 {
			j.typ = []typ{{wDeep, "Client", false}, {wOdd, "Thing", false}}[g.n(2)]
			j.name = "Do"
		}
		return j
	case 5, 6:
		return &jp{kind: "struct-literal", typ: g.typ(false), match: g.pick([]string{"", "any", "pointer-only", "value-only"})}
	case 7:
		return &jp{kind: "struct-literal", typ: g.typ(false), field: g.pick([]string{"Name", "Timeout", "V", "Hooks"})}
	case 8:
		p := g.path
		if g.n(5) == 0 {
			p = wLib
		}
		return &jp{kind: "struct-definition", typ: typ{p, g.pick(g.types), false}}
	case 9:
		p := g.path
		if g.n(5) == 0 {
			p = wLib
		}
		return &jp{kind: "declaration-of", path: p, name: g.pick(g.names)}
	case 10:
		return &jp{kind: "value-declaration", typ: g.typ(true)}
	case 11, 12:
		return &jp{kind: "directive", name: g.pick([]string{"verif:mark", "verif:other", "verif:ma"})}
	case 13:
		return &jp{kind: "import-path", name: g.pick([]string{g.path, g.path, wLib, "example.com/w"})}
	case 14:
		return &jp{kind: "package-name", name: g.pick([]string{g.prog.Package, g.prog.Package, "lib", "other"})}
	case 15:
		return &jp{kind: "test-main", flag: g.n(2) == 0}
	case 16:
		j := &jp{kind: "package-filter", flag: g.n(2) == 0, pat: g.pick(filterPatterns)}
		if j.flag && g.n(4) == 0 {
			j.pat = ""
		}
		return j
	case 17:
		return &jp{kind: "configuration", cfg: map[string]string{g.pick([]string{"httpmode", "other"}): g.pick([]string{"wrap", "report"})}}
	}
	f := g.fn()
	if g.n(3) == 0 {
		return &jp{kind: "function-body", kids: []*jp{f}}
	}
	return f
}

// leaf tells the kinds in the tree.
func (j *jp) kinds(out map[string]bool) {
	out[j.kind] = true
	for _, k := range j.kids {
		k.kinds(out)
	}
	for _, o := range j.opts {
		out["function/"+o.kind] = true
	}
}
