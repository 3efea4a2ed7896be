package ilib

import (
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

const (
	pLib  = "example.com/w/lib"
	pDeep = "example.com/w/deep/lib"
	pOdd  = "example.com/w/odd.v2"

	pInst  = "example.com/w/inst"
	pInst3 = "example.com/w/inst/v3"
	pHooks = "example.com/w/go-hooks.v1"
)

var realName = map[string]string{pLib: "lib", pDeep: "lib", pOdd: "strange", pInst: "inst", pInst3: "inst", pHooks: "hooks", "strings": "strings", "strconv": "strconv",
	"errors": "errors", "context": "context", "fmt": "fmt", "sync": "sync", "net/http": "http", "unsafe": "unsafe", "os": "os", "log": "log"}

// GenOpts shapes generated programs.
type GenOpts struct {
	Package     string   // name of the package, "main" for programs that run
	Files       int      // at most this many files (default 2)
	Funcs       int      // at most this many functions per file (default 3)
	Depth       int      // nesting of statements (default 2)
	Comments    []string // comment lines to put in front of statements, declarations and specs
	CommentPct  int      // how often, in percent
	TrailingPct int      // how often a comment line ends up at the end of a line of code, in percent
	Shadow      []string // names local variables and parameters may take, besides fresh ones
	Unformatted bool     // leave the text as generated in some of the cases
	NoGo        bool     // no goroutines
	Clash       bool     // more imports under names of the Shadow list, and more of these names
	PlainOnly   bool     // no shadowing of imports, one plain import per package
	Sigs        bool     // longer signatures with more types in common
	Indirect    bool     // in some cases, have values of types from packages that nothing imports
}

// Prog is a generated package.
type Prog struct {
	Package string
	Files   map[string]string
	Marks   int // trace marks go from 1 to Marks
	Funcs   []*Fn
	Imports map[string]bool // every import path used
}

// Names lists the files in order.
func (p *Prog) Names() []string {
	out := make([]string, 0, len(p.Files))
	for n := range p.Files {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// Text is the whole program, for reports.
func (p *Prog) Text() string {
	var b strings.Builder
	for _, n := range p.Names() {
		fmt.Fprintf(&b, "-- %s --\n%s", n, p.Files[n])
	}
	return b.String()
}

// Fn is a generated function.
type Fn struct {
	Name     string
	Recv     string // local type name, "" for plain functions
	PtrRecv  bool
	Params   []string // type keys
	Variadic bool     // the last parameter is ...key
	Results  []string
	Generic  bool
}

type local struct {
	name string
	typ  string
	mut  bool
}

type scope struct {
	vars    []local
	names   map[string]bool // all names declared here, whatever they are
	fn      *Fn
	named   []string // names of named results
	inLoop  bool
	loops   []string
	inDefer bool
}

type imp struct{ name, path string } // name "" is the plain import

type gfile struct {
	name    string
	imports []imp
	used    map[imp]bool
	decls   []string
}

type gen struct {
	t       *rapid.T
	o       GenOpts
	f       *gfile
	files   []*gfile
	scopes  []*scope
	out     strings.Builder
	ind     int
	uid     int
	marks   int
	fns     []*Fn
	locals  []string // local struct types
	imports map[string]bool
	taken   map[string]bool // parameter names of the current function
}

// Generate draws a program.
func Generate(t *rapid.T, o GenOpts) *Prog {
	if o.Package == "" {
		o.Package = "app"
	}
	if o.Files == 0 {
		o.Files = 2
	}
	if o.Funcs == 0 {
		o.Funcs = 3
	}
	if o.Depth == 0 {
		o.Depth = 2
	}
	g := &gen{t: t, o: o, imports: map[string]bool{}}
	return g.program()
}

func (g *gen) n(k int) int            { return rapid.IntRange(0, k-1).Draw(g.t, "n") }
func (g *gen) pct(p int) bool         { return p > 0 && g.n(100) < p }
func (g *gen) pick(l []string) string { return l[g.n(len(l))] }
func (g *gen) fresh(p string) string {
	g.uid++
	return p + strconv.Itoa(g.uid)
}
func (g *gen) mark() int { g.marks++; return g.marks }

func (g *gen) line(format string, args ...any) {
	g.out.WriteString(strings.Repeat("\t", g.ind))
	s := fmt.Sprintf(format, args...)
	g.out.WriteString(s)
	if g.o.TrailingPct > 0 && len(s) > 0 && s[len(s)-1] == ')' && !strings.HasPrefix(s, "//") && len(g.o.Comments) > 0 && g.pct(g.o.TrailingPct) {
		g.out.WriteString(" " + g.pick(g.o.Comments))
	}
	g.out.WriteString("\n")
}

func (g *gen) comment() {
	if len(g.o.Comments) > 0 && g.pct(g.o.CommentPct) {
		g.line("%s", g.pick(g.o.Comments))
	}
}

// --- scopes ---

func (g *gen) push() *scope {
	s := &scope{names: map[string]bool{}}
	if len(g.scopes) > 0 {
		p := g.scopes[len(g.scopes)-1]
		s.fn, s.named, s.inLoop, s.loops, s.inDefer = p.fn, p.named, p.inLoop, p.loops, p.inDefer
	}
	g.scopes = append(g.scopes, s)
	return s
}
func (g *gen) pop()        { g.scopes = g.scopes[:len(g.scopes)-1] }
func (g *gen) cur() *scope { return g.scopes[len(g.scopes)-1] }

func (g *gen) declare(name, typ string, mut bool) {
	s := g.cur()
	s.names[name] = true
	s.vars = append(s.vars, local{name, typ, mut})
}

func (g *gen) shadowed(name string) bool {
	for _, s := range g.scopes {
		if s.names[name] {
			return true
		}
	}
	return false
}

// varName gives a fresh name, or one that hides something outside.
func (g *gen) varName() string {
	if len(g.o.Shadow) > 0 && (g.pct(12) || g.o.Clash && g.pct(30)) {
		n := g.pick(g.o.Shadow)
		if !g.cur().names[n] {
			return n
		}
	}
	return g.fresh("v")
}

// visible lists variables of the type that are not hidden.
func (g *gen) visible(typ string, mut bool) []string {
	var out []string
	seen := map[string]bool{}
	for i := len(g.scopes) - 1; i >= 0; i-- {
		s := g.scopes[i]
		for j := len(s.vars) - 1; j >= 0; j-- {
			v := s.vars[j]
			if !seen[v.name] && v.typ == typ && (!mut || v.mut) {
				out = append(out, v.name)
			}
			seen[v.name] = true
		}
		for n := range s.names {
			seen[n] = true
		}
	}
	return out
}

// q gives a way to write pkg.Name here ("" if every import of it is hidden).
func (g *gen) q(path, name string) string {
	var can []imp
	for _, im := range g.f.imports {
		if im.path != path || im.name == "_" {
			continue
		}
		ident := im.name
		switch ident {
		case "":
			ident = realName[path]
		case ".":
			ident = name
		}
		if !g.shadowed(ident) {
			can = append(can, im)
		}
	}
	if len(can) == 0 {
		return ""
	}
	im := can[0]
	if len(can) > 1 {
		im = can[g.n(len(can))]
	}
	g.f.used[im] = true
	g.imports[path] = true
	switch im.name {
	case "":
		return realName[path] + "." + name
	case ".":
		return name
	}
	return im.name + "." + name
}

// --- types ---

var allTypes = []string{"int", "int", "int", "string", "bool", "error", "any", "[]int", "map[string]int", "func(int) int",
	"*Client", "*Client", "Client", "Store", "*Store", "Pair", "*Pair", "Doer", "*Deep", "*Thing", "[]string"}

// typ writes the type, "" if it cannot be named here.
func (g *gen) typ(key string) string {
	star := ""
	k := key
	if strings.HasPrefix(k, "*") {
		star, k = "*", k[1:]
	}
	var s string
	switch k {
	case "Client", "Store", "Doer":
		s = g.q(pLib, k)
	case "Pair":
		if g.shadowed("string") || g.shadowed("int") {
			return ""
		}
		if s = g.q(pLib, "Pair"); s != "" {
			s += "[string, int]"
		}
	case "Deep":
		s = g.q(pDeep, "Client")
	case "Thing":
		s = g.q(pOdd, "Thing")
	case "any":
		if g.shadowed("any") {
			return "interface{}"
		}
		if g.pct(30) {
			return "interface{}"
		}
		return "any"
	default:
		if g.shadowed(k) {
			return ""
		}
		for _, b := range []string{"int", "string", "bool", "error"} {
			if strings.Contains(k, b) && g.shadowed(b) {
				return ""
			}
		}
		s = k
	}
	if s == "" {
		return ""
	}
	return star + s
}

func (g *gen) someType() (string, string) {
	for i := 0; i < 8; i++ {
		key := g.pick(allTypes)
		if len(g.locals) > 0 && g.pct(15) {
			key = g.pick(g.locals)
			if g.pct(50) {
				key = "*" + key
			}
			if !g.shadowed(strings.TrimPrefix(key, "*")) {
				return key, key
			}
			continue
		}
		if s := g.typ(key); s != "" {
			return key, s
		}
	}
	return "interface{}!", "interface{}"
}

func printable(key string) bool {
	return !strings.HasPrefix(key, "func") && !strings.Contains(key, "chan")
}

// --- expressions ---

func (g *gen) expr(key string, depth int) string {
	if vs := g.visible(key, false); len(vs) > 0 && g.pct(40) {
		e := g.pick(vs)
		if g.pct(8) {
			return "(" + e + ")"
		}
		return e
	}
	if depth <= 0 {
		return g.leaf(key)
	}
	// Calls of generated functions with that only result.
	if g.pct(25) {
		var can []*Fn
		for _, f := range g.fns {
			if f.Recv == "" && len(f.Results) == 1 && f.Results[0] == key && !g.shadowed(f.Name) {
				can = append(can, f)
			}
		}
		if len(can) > 0 {
			return g.call(can[g.n(len(can))], depth-1)
		}
	}
	if g.pct(6) && printableIn(key) {
		if s := g.typ(key); s != "" {
			return g.iife(key, s, depth-1)
		}
	}
	switch key {
	case "int":
		return g.intExpr(depth)
	case "string":
		switch g.n(6) {
		case 0:
			return g.expr("string", depth-1) + " + " + g.expr("string", depth-1)
		case 1:
			if q := g.q("strings", "ToUpper"); q != "" {
				return q + "(" + g.expr("string", depth-1) + ")"
			}
		case 2:
			if q := g.q("fmt", "Sprint"); q != "" {
				return q + "(" + g.expr("int", depth-1) + ", " + g.expr("string", depth-1) + ")"
			}
		case 3:
			return g.opnd("*Client", depth-1) + ".Name"
		case 4:
			return g.opnd("Client", 0) + ".String()"
		}
	case "bool":
		switch g.n(4) {
		case 0:
			return g.expr("int", depth-1) + " < " + g.expr("int", depth-1)
		case 1:
			return "!(" + g.expr("bool", depth-1) + ")"
		case 2:
			return "(" + g.expr("bool", depth-1) + " && " + g.expr("bool", depth-1) + ")"
		}
	case "error":
		switch g.n(3) {
		case 0:
			if q := g.q(pLib, "Fail"); q != "" {
				return q + "(" + g.expr("int", depth-1) + ")"
			}
		case 1:
			if q := g.q("errors", "New"); q != "" {
				return q + "(" + g.expr("string", depth-1) + ")"
			}
		}
	case "[]int":
		switch g.n(4) {
		case 0:
			return "[]int{" + g.list("int", depth-1, 0, 3) + "}"
		case 1:
			if !g.shadowed("append") && !g.shadowed("int") {
				return "append(" + g.expr("[]int", depth-1) + ", " + g.list("int", depth-1, 1, 2) + ")"
			}
		case 2:
			if q := g.q(pLib, "Map"); q != "" && !g.shadowed("int") {
				return q + "(" + g.expr("[]int", depth-1) + ", func(a int) int { return a + " + g.intLit() + " })"
			}
		case 3:
			return g.expr("[]int", 0) + "[:]"
		}
	case "*Client":
		switch g.n(5) {
		case 0:
			if q := g.q(pLib, "New"); q != "" {
				if h := g.q(pLib, "Hook"); h != "" && g.pct(50) {
					if g.pct(40) {
						if o := g.q(pLib, "Opt"); o != "" {
							return q + "(" + g.expr("string", depth-1) + ", []" + o + "{" + h + "(" + g.expr("string", depth-1) + ")}...)"
						}
					}
					return q + "(" + g.expr("string", depth-1) + ", " + h + "(" + g.expr("string", depth-1) + "))"
				}
				return q + "(" + g.expr("string", depth-1) + ")"
			}
		case 1:
			if q := g.q(pLib, "Client"); q != "" {
				return "&" + q + "{Name: " + g.expr("string", depth-1) + ", Timeout: " + g.expr("int", depth-1) + "}"
			}
		case 2:
			return g.opnd("*Client", depth-1) + ".With(" + g.expr("int", depth-1) + ")"
		case 3:
			if q := g.q(pLib, "Client"); q != "" {
				return "(&" + q + "{" + g.expr("string", depth-1) + ", nil, " + g.intLit() + "})"
			}
		case 4:
			if g.pct(70) {
				if q := g.q(pLib, "Default"); q != "" {
					return q
				}
			}
			if q := g.q(pLib, "Alias"); q != "" && !g.shadowed("new") {
				return "new(" + q + ")"
			}
		}
	case "Client":
		switch g.n(3) {
		case 0:
			if q := g.q(pLib, "Make"); q != "" {
				return q + "(" + g.expr("string", depth-1) + ")"
			}
		case 1:
			return "(*" + g.expr("*Client", depth-1) + ")"
		}
	case "func(int) int":
		if !g.shadowed("int") {
			switch g.n(4) {
			case 0:
				return g.funcLit(depth - 1)
			case 1:
				return g.opnd("*Client", 0) + ".Do"
			case 2:
				if q := g.q(pOdd, "Twice"); q != "" {
					return q
				}
			case 3:
				return g.opnd("Store", 0) + ".Do"
			}
		}
	case "any":
		return g.expr(g.pick([]string{"int", "string", "bool", "[]int", "*Client", "Store"}), depth-1)
	case "Doer":
		return g.expr(g.pick([]string{"*Client", "Store", "*Store", "*Deep", "*Thing"}), depth-1)
	case "map[string]int":
		if !g.shadowed("string") && !g.shadowed("int") {
			return "map[string]int{" + strconv.Quote(g.fresh("k")) + ": " + g.expr("int", depth-1) + "}"
		}
	}
	return g.leaf(key)
}

// opnd is an expression that can be selected from or called.
func (g *gen) opnd(key string, depth int) string {
	e := g.expr(key, depth)
	if strings.ContainsAny(e[:1], "&*-+!^") {
		return "(" + e + ")"
	}
	return e
}

func printableIn(key string) bool {
	return key == "int" || key == "string" || key == "*Client" || key == "error" || key == "bool"
}

func (g *gen) intLit() string {
	return g.pick([]string{"0", "1", "2", "3", "7", "10", "0x1F", "1_000", "0b11"})
}

func (g *gen) list(key string, depth, min, max int) string {
	k := min + g.n(max-min+1)
	parts := make([]string, k)
	for i := range parts {
		parts[i] = g.expr(key, depth)
	}
	return strings.Join(parts, ", ")
}

func (g *gen) intExpr(depth int) string {
	switch g.n(16) {
	case 0, 1:
		return fmt.Sprintf("ti(%d, %s)", g.mark(), g.expr("int", depth-1))
	case 2:
		return "(" + g.expr("int", depth-1) + " " + g.pick([]string{"+", "-", "*", "&", "|", "^"}) + " " + g.expr("int", depth-1) + ")"
	case 3:
		if q := g.q(pLib, "Add"); q != "" {
			if g.pct(10) {
				q = "(" + q + ")"
			}
			return q + "(" + g.expr("int", depth-1) + ", " + g.expr("int", depth-1) + ")"
		}
	case 4:
		if q := g.q(pLib, "Sum"); q != "" {
			if g.pct(40) {
				return q + "(" + g.expr("[]int", depth-1) + "...)"
			}
			return q + "(" + g.list("int", depth-1, 0, 3) + ")"
		}
	case 5:
		return g.opnd("*Client", depth-1) + ".Do(" + g.expr("int", depth-1) + ")"
	case 6:
		return g.opnd("Store", depth-1) + ".Do(" + g.expr("int", depth-1) + ")"
	case 7:
		return g.opnd("*Deep", depth-1) + ".Do(" + g.expr("int", depth-1) + ")"
	case 8:
		return g.opnd("Doer", depth-1) + ".Do(" + g.expr("int", depth-1) + ")"
	case 9:
		if q := g.q(pLib, "Apply"); q != "" {
			return q + "(" + g.expr("func(int) int", depth-1) + ", " + g.expr("int", depth-1) + ")"
		}
	case 10:
		if q := g.q(pLib, "Ident"); q != "" {
			if g.pct(50) && !g.shadowed("int") {
				q += "[int]"
			}
			return q + "(" + g.expr("int", depth-1) + ")"
		}
	case 11:
		if !g.shadowed("len") {
			return "len(" + g.expr(g.pick([]string{"[]int", "string", "map[string]int"}), depth-1) + ")"
		}
	case 12:
		return g.opnd("*Client", depth-1) + g.pick([]string{".Timeout", ".Peek(1)"})
	case 13:
		return g.opnd("Pair", 0) + g.pick([]string{".Val", ".Get()"})
	case 14:
		if q := g.q(pDeep, "Sum"); q != "" {
			return q + "(" + g.list("int", depth-1, 0, 2) + ")"
		}
	case 15:
		if !g.shadowed("int") {
			return g.opnd("func(int) int", depth-1) + "(" + g.expr("int", depth-1) + ")"
		}
	}
	return g.leaf("int")
}

func (g *gen) funcLit(depth int) string {
	p := g.fresh("a")
	if depth <= 0 || g.pct(40) {
		return "func(" + p + " int) int { return " + p + " + " + g.intLit() + " }"
	}
	return "func(" + p + " int) int {" + g.nested(func() {
		s := g.push()
		s.fn, s.named, s.loops, s.inLoop = &Fn{Results: []string{"int"}}, nil, nil, false
		g.declare(p, "int", true)
		g.line("tr(%d, %s)", g.mark(), p)
		g.stmts(1, 2)
		g.line("return %s", g.expr("int", 1))
		g.pop()
	}) + "}"
}

func (g *gen) iife(key, typ string, depth int) string {
	return "func() " + typ + " {" + g.nested(func() {
		s := g.push()
		s.fn, s.named, s.loops, s.inLoop = &Fn{Results: []string{key}}, nil, nil, false
		if g.pct(40) {
			g.stmt(depth)
		}
		g.line("return %s", g.expr(key, depth))
		g.pop()
	}) + "}()"
}

// nested renders statements inside an expression.
func (g *gen) nested(f func()) string {
	saved := g.out
	g.out = strings.Builder{}
	g.ind++
	f()
	g.ind--
	s := g.out.String()
	g.out = saved
	return "\n" + s + strings.Repeat("\t", g.ind)
}

// leaf is an expression without calls of user code that always works.
func (g *gen) leaf(key string) string {
	switch key {
	case "int":
		return g.intLit()
	case "string":
		return g.pick([]string{`"a"`, `"b\n"`, "`raw`", `"//line x.go:3"`, `"` + g.fresh("s") + `"`})
	case "bool":
		if g.shadowed("true") || g.shadowed("false") {
			return "(1 == 1)"
		}
		return g.pick([]string{"true", "false"})
	case "error":
		return "mkError(" + g.intLit() + ")"
	case "any":
		return g.pick([]string{"1", `"x"`, "2.5", "mkStore()"})
	case "[]int":
		return "mkInts()"
	case "[]string":
		return "mkStrings()"
	case "map[string]int":
		return "mkMap()"
	case "func(int) int":
		return "mkFunc()"
	case "*Client":
		return g.pick([]string{"mkClient()", `mkClientPtr("x")`})
	case "Client":
		return `mkClientVal()`
	case "Store":
		return "mkStore()"
	case "*Store":
		return "mkStorePtr()"
	case "Pair":
		return "mkPair()"
	case "*Pair":
		return "mkPairPtr()"
	case "Doer":
		return g.pick([]string{"mkClient()", "mkStore()"})
	case "*Deep":
		return "mkDeep()"
	case "*Thing":
		return "mkThing()"
	case "interface{}!":
		return "1"
	}
	if strings.HasPrefix(key, "*") {
		return "new" + key[1:] + "()"
	}
	return "(*new" + key + "())"
}

const helpersDirect = `
func ti(id int, v int) int {
	tr(id, v)
	return v
}

func mkError(n int) error                 { return Qlib.Fail(n) }
func mkInts() []int                       { return []int{1, 2} }
func mkStrings() []string                 { return []string{"p", "q"} }
func mkMap() map[string]int               { return map[string]int{"k": 1} }
func mkFunc() func(int) int               { return func(n int) int { return n + 1 } }
func mkClient() *Qlib.Client              { return Qlib.New("mk") }
func mkClientPtr(s string) *Qlib.Client   { return &Qlib.Client{Name: s} }
func mkClientVal() Qlib.Client            { return Qlib.Make("val") }
func mkStore() Qlib.Store                 { return Qlib.Store{V: 4} }
func mkStorePtr() *Qlib.Store             { return &Qlib.Store{V: 5} }
func mkPair() Qlib.Pair[string, int]      { return Qlib.Pair[string, int]{Key: "k", Val: 6} }
func mkPairPtr() *Qlib.Pair[string, int]  { return &Qlib.Pair[string, int]{Key: "p", Val: 7} }
func mkDeep() *Qdeep.Client               { return Qdeep.New(8) }
func mkThing() *Qodd.Thing                { return &Qodd.Thing{N: 9} }
func mkSeq(n int) func(func(int) bool)    { return func(y func(int) bool) { for i := 0; i < n; i++ { if !y(i) { return } } } }
`

const helpersMain = `
func tr(id int, vs ...any) { Qfmt.Println(append([]any{id}, vs...)...) }
`

const helpersLib = `
var trace []int

func tr(id int, vs ...any) { trace = append(trace, id) }
`

// call calls a generated function.
func (g *gen) call(f *Fn, depth int) string {
	var args []string
	for i, p := range f.Params {
		if f.Variadic && i == len(f.Params)-1 {
			if p == "int" && g.pct(30) {
				args = append(args, g.expr("[]int", depth)+"...")
			} else {
				for k := g.n(3); k > 0; k-- {
					args = append(args, g.expr(p, depth))
				}
			}
			break
		}
		args = append(args, g.expr(p, depth))
	}
	name := f.Name
	if f.Generic && g.pct(50) && !g.shadowed("string") {
		name += "[string]"
	}
	if f.Generic {
		args = append([]string{g.expr("string", 0)}, args...)
	}
	if f.Recv != "" {
		name = "new" + f.Recv + "()." + f.Name
	}
	return name + "(" + strings.Join(args, ", ") + ")"
}

// --- statements ---

func (g *gen) stmts(min, max int) {
	for k := min + g.n(max-min+1); k > 0; k-- {
		g.stmt(g.o.Depth - (len(g.scopes)-1)/2)
	}
}

func (g *gen) use(name, key string) {
	if printable(key) && g.pct(70) {
		g.comment()
		g.line("tr(%d, %s)", g.mark(), name)
	} else {
		g.comment()
		g.line("_ = %s", name)
	}
}

func (g *gen) block(f func(s *scope)) {
	s := g.push()
	g.ind++
	if f != nil {
		f(s)
	}
	if g.ind < 7 {
		g.stmts(0, 2)
	}
	g.ind--
	g.pop()
}

func (g *gen) stmt(depth int) {
	g.comment()
	if depth <= 0 || len(g.scopes) > 7 {
		switch g.n(3) {
		case 0:
			g.comment()
			g.line("tr(%d, %s)", g.mark(), g.expr("int", 1))
		case 1:
			if vs := g.visible("int", true); len(vs) > 0 {
				g.line("%s %s %s", g.pick(vs), g.pick([]string{"=", "+=", "^="}), g.expr("int", 1))
				return
			}
			g.comment()
			g.line("_ = %s", g.expr("string", 1))
		case 2:
			g.line("%s", g.callStmt(1))
		}
		return
	}
	switch g.n(30) {
	case 0, 1, 2:
		key, _ := g.someType()
		if key == "interface{}!" || key == "any" || key == "Doer" || key == "error" {
			key = "int"
		}
		e := g.expr(key, 2)
		v := g.varName()
		g.line("%s := %s", v, e)
		g.declare(v, key, true)
		g.use(v, key)
	case 3, 4:
		key, src := g.someType()
		if key == "interface{}!" {
			return
		}
		if g.pct(40) && !strings.Contains(key, "*") && !strings.HasPrefix(key, "func") && key != "Doer" && key != "error" && key != "any" && !strings.HasPrefix(key, "map") {
			v := g.varName()
			g.line("var %s %s", v, src)
			g.declare(v, key, true)
			g.use(v, key)
			return
		}
		e := g.expr(key, 2)
		v := g.varName()
		switch g.n(3) {
		case 0:
			g.line("var %s %s = %s", v, src, e)
			g.declare(v, key, true)
		case 1:
			w := g.fresh("w")
			g.line("var (\n%s\t%s = %s\n%s\t// second\n%s\t%s %s = %s\n%s)", strings.Repeat("\t", g.ind), w, g.expr("int", 1), strings.Repeat("\t", g.ind), strings.Repeat("\t", g.ind), v, src, e, strings.Repeat("\t", g.ind))
			g.declare(w, "int", true)
			g.use(w, "int")
			g.declare(v, key, true)
		case 2:
			w := g.fresh("w")
			g.line("var %s, %s %s = %s, %s", w, v, src, e, g.expr(key, 1))
			g.declare(w, key, true)
			g.use(w, key)
			g.declare(v, key, true)
		}
		g.use(v, key)
	case 5:
		e1, e2 := g.expr("int", 2), g.expr("string", 2)
		v, w := g.varName(), g.fresh("w")
		g.line("%s, %s := %s, %s", v, w, e1, e2)
		g.declare(v, "int", true)
		g.declare(w, "string", true)
		g.use(v, "int")
		g.use(w, "string")
	case 6:
		if vs := g.visible("int", true); len(vs) > 0 {
			v := g.pick(vs)
			switch g.n(3) {
			case 0:
				g.line("%s++", v)
			case 1:
				g.line("%s %s %s", v, g.pick([]string{"=", "+=", "-=", "|="}), g.expr("int", 2))
			case 2:
				g.line("%s, _ = %s, %s", v, g.expr("int", 1), g.expr("int", 1))
			}
			return
		}
		g.comment()
		g.line("_ = %s", g.expr("int", 2))
	case 7:
		g.line("%s", g.callStmt(2))
	case 8, 9:
		init := ""
		s := g.push()
		_ = s
		if g.pct(40) {
			e := g.expr("int", 1)
			v := g.varName()
			g.declare(v, "int", true)
			init = v + " := " + e + "; "
			if !g.pct(50) {
				init = v + ", _ := " + e + ", 1; "
			}
			g.comment()
			g.line("if %s%s > 0 {", init, v)
		} else {
			g.comment()
			g.line("if %s {", g.cond())
		}
		g.block(nil)
		for k := g.n(2); k > 0; k-- {
			g.line("} else if %s {", g.cond())
			g.block(nil)
		}
		if g.pct(50) {
			g.line("} else {")
			g.block(nil)
		}
		g.line("}")
		g.pop()
	case 10, 11, 12:
		g.loop()
	case 13:
		g.push()
		switch g.n(3) {
		case 0:
			g.comment()
			g.line("switch %s {", g.cond0("int"))
			g.line("case 0, %s:", "1")
			g.block(nil)
			if g.pct(30) {
				g.line("\tfallthrough")
			}
			g.line("case 2:")
			g.block(nil)
			g.line("default:")
			g.block(nil)
		case 1:
			g.comment()
			g.line("switch {")
			g.line("case %s:", g.cond0("bool"))
			g.block(nil)
			g.line("default:")
			g.block(nil)
		case 2:
			e := g.expr("int", 1)
			v := g.varName()
			g.comment()
			g.line("switch %s := %s; {", v, e)
			g.declare(v, "int", true)
			g.line("case %s > 3:", v)
			g.block(nil)
			g.line("case %s < 1:", v)
			g.block(nil)
		}
		g.line("}")
		g.pop()
	case 14:
		if g.shadowed("int") || g.shadowed("string") {
			return
		}
		g.push()
		e := g.expr("any", 2)
		v := g.varName()
		if g.pct(70) {
			g.comment()
			g.line("switch %s := interface{}(%s).(type) {", v, e)
			g.line("case int:")
			g.block(func(s *scope) { g.declare(v, "int", true); g.line("tr(%d, %s)", g.mark(), v) })
			g.line("case string, bool:")
			g.block(func(s *scope) { s.names[v] = true; g.line("tr(%d, %s)", g.mark(), v) })
			if q := g.typ("*Client"); q != "" {
				g.line("case %s:", q)
				g.block(func(s *scope) { g.declare(v, "*Client", true); g.line("tr(%d, %s.Do(1))", g.mark(), v) })
			}
		} else {
			g.comment()
			g.line("switch interface{}(%s).(type) {", e)
			g.line("case int, nil:")
			g.block(nil)
			g.line("default:")
			g.block(nil)
		}
		g.line("}")
		g.pop()
	case 15, 16:
		switch g.n(4) {
		case 0:
			g.comment()
			g.line("defer %s", g.callStmt(1))
		case 1:
			g.comment()
			g.line("defer func() {")
			g.block(func(s *scope) { s.fn, s.loops, s.inLoop = &Fn{}, nil, false; s.named = nil })
			g.line("}()")
		case 2:
			if !g.shadowed("recover") && !g.shadowed("nil") && !g.shadowed("panic") {
				r := g.fresh("r")
				g.comment()
				g.line("func() {")
				g.ind++
				g.comment()
				g.line("defer func() { if %s := recover(); %s != nil { tr(%d, %s) } }()", r, r, g.mark(), r)
				g.line("panic(%s)", g.expr("string", 1))
				g.ind--
				g.line("}()")
			}
		case 3:
			if !g.o.NoGo && !g.shadowed("make") && !g.shadowed("bool") && !g.shadowed("close") {
				c := g.fresh("ch")
				g.comment()
				g.line("%s := make(chan bool)", c)
				g.declare(c, "chan bool", false)
				if g.pct(50) {
					g.comment()
					g.line("go func() {")
					g.block(func(s *scope) {
						s.fn, s.loops, s.inLoop, s.named = &Fn{}, nil, false, nil
						g.comment()
						g.line("defer close(%s)", c)
					})
					g.line("}()")
					g.comment()
					g.line("<-%s", c)
				} else {
					g.comment()
					g.line("go func(k int) { tr(%d, k); close(%s) }(%s)", g.mark(), c, g.expr("int", 1))
					g.comment()
					g.line("<-%s", c)
				}
			}
		}
	case 17:
		g.line("{")
		g.block(nil)
		g.line("}")
	case 18:
		if g.shadowed("make") || g.shadowed("int") {
			return
		}
		c := g.fresh("ch")
		g.comment()
		g.line("%s := make(chan int, 2)", c)
		g.declare(c, "chan int", false)
		g.comment()
		g.line("%s <- %s", c, g.expr("int", 2))
		switch g.n(3) {
		case 0:
			g.comment()
			g.line("tr(%d, <-%s)", g.mark(), c)
		case 1:
			v := g.varName()
			g.push()
			g.comment()
			g.line("select {")
			g.line("case %s, ok%d := <-%s:", v, g.marks, c)
			g.block(func(s *scope) {
				g.declare(v, "int", true)
				s.names[fmt.Sprintf("ok%d", g.marks)] = true
				g.comment()
				g.line("tr(%d, %s, ok%d)", g.marks+1, v, g.marks)
				g.marks++
			})
			g.line("}")
			g.pop()
		case 2:
			g.comment()
			g.line("select {")
			g.line("case %s <- %s:", c, g.expr("int", 1))
			g.block(nil)
			g.line("default:")
			g.block(nil)
			g.line("}")
		}
	case 19:
		if g.shadowed("int") || g.shadowed("string") {
			return
		}
		n := g.fresh("loc")
		switch g.n(3) {
		case 0:
			g.comment()
			g.line("type %s struct {", n)
			g.line("\tA int")
			g.line("\tB string `json:\"b\"`")
			g.line("}")
			g.comment()
			g.line("tr(%d, %s{A: %s}, &%s{%s, %s})", g.mark(), n, g.expr("int", 1), n, g.expr("int", 1), g.expr("string", 1))
		case 1:
			g.comment()
			g.line("const %s = %s", n, g.pick([]string{`"c"`, "4", "1.5"}))
			g.comment()
			g.line("tr(%d, %s)", g.mark(), n)
		case 2:
			g.comment()
			g.line("const (\n%[1]s\t%[2]sA = iota\n%[1]s\t%[2]sB\n%[1]s)", strings.Repeat("\t", g.ind), n)
			g.comment()
			g.line("tr(%d, %sA, %sB)", g.mark(), n, n)
		}
	case 20:
		// Multi-value call.
		for _, f := range g.fns {
			if f.Recv == "" && len(f.Results) == 2 && !g.shadowed(f.Name) {
				c := g.call(f, 1)
				v, w := g.varName(), g.fresh("w")
				g.line("%s, %s := %s", v, w, c)
				g.declare(v, f.Results[0], true)
				g.declare(w, f.Results[1], true)
				g.use(v, f.Results[0])
				g.use(w, f.Results[1])
				return
			}
		}
		g.line("%s", g.callStmt(1))
	case 21:
		if g.shadowed("int") {
			return
		}
		v := g.varName()
		e := g.funcLit(2)
		g.line("%s := %s", v, e)
		g.declare(v, "func(int) int", true)
		g.comment()
		g.line("tr(%d, %s(%s))", g.mark(), v, g.expr("int", 1))
	case 22:
		g.comment()
		g.line("tr(%d, %s, %s); tr(%d, %s)", g.mark(), g.expr("int", 2), g.expr("string", 1), g.mark(), g.expr("bool", 1))
	case 23:
		g.line("tr(%d,", g.mark())
		g.line("\t%s,", g.expr("int", 2))
		g.line("\t%s, // trailing", g.expr("*Client", 2))
		g.line(")")
	case 24:
		g.line("// plain comment")
		g.comment()
		g.line("tr(%d, %s) // end of line", g.mark(), g.expr("string", 2))
		g.line("")
	case 25:
		if fn := g.cur().fn; fn != nil && g.pct(40) {
			g.comment()
			g.line("if %s {", g.cond())
			g.ind++
			g.ret()
			g.ind--
			g.line("}")
		}
	case 26:
		g.comment()
		g.line("tr(%d, `raw", g.mark())
		g.out.WriteString("  //line raw.go:" + strconv.Itoa(g.n(9)) + "\n\t//line other.go:1:1\n  text`)\n")
	case 27:
		g.line("/* block comment")
		g.line("   in several lines */")
		g.comment()
		g.line("tr(%d, %s /* inline */, %s)", g.mark(), g.expr("int", 1), g.expr("int", 1))
	case 28:
		if s := g.q(pLib, "Client"); s != "" && !g.shadowed("string") {
			g.comment()
			g.line("tr(%d, []%s{{Name: %s}, {}}, []*%s{{Name: %s}}[0].Name, map[string]%s{%s: {Timeout: %s}})", g.mark(), s, g.expr("string", 1), s, g.expr("string", 1), s, g.expr("string", 0), g.expr("int", 1))
		}
	case 29:
		l := g.fresh("L")
		if g.shadowed("int") || g.pct(50) {
			g.line("goto %s", l)
			g.line("%s:", l)
			g.comment()
			g.line("tr(%d, %s)", g.mark(), g.expr("int", 1))
			return
		}
		i, j := g.fresh("i"), g.fresh("j")
		g.line("%s:", l)
		g.line("for %s := 0; %s < 2; %s++ {", i, i, i)
		g.ind++
		g.line("for %s := range 3 {", j)
		g.block(func(s *scope) {
			s.inLoop = true
			g.declare(j, "int", false)
			g.comment()
			g.line("if %s == 1 {", j)
			g.line("\t%s %s", g.pick([]string{"continue", "break"}), l)
			g.line("}")
		})
		g.line("}")
		g.ind--
		g.line("}")
	}
}

// cond is a condition usable in an if header (no composite literal outside of parentheses).
func (g *gen) cond() string { return "(" + g.expr("bool", 2) + ")" }

func (g *gen) cond0(key string) string { return "(" + g.expr(key, 2) + ")" }

func (g *gen) callStmt(depth int) string {
	switch g.n(6) {
	case 0:
		if q := g.q(pLib, "Add"); q != "" {
			return q + "(" + g.expr("int", depth) + ", " + g.expr("int", depth) + ")"
		}
	case 1:
		return g.opnd("*Client", 0) + ".Do(" + g.expr("int", depth) + ")"
	case 2:
		return g.opnd("*Pair", 0) + ".Set(" + g.expr("string", depth) + ", " + g.expr("int", depth) + ")"
	case 3:
		if len(g.fns) > 0 {
			f := g.fns[g.n(len(g.fns))]
			if !g.shadowed(f.Name) {
				return g.call(f, depth)
			}
		}
	case 4:
		if !g.shadowed("string") {
			return "func(s string, _ int) { tr(" + strconv.Itoa(g.mark()) + ", s) }(" + g.expr("string", depth) + ", " + g.expr("int", depth) + ")"
		}
	}
	return fmt.Sprintf("tr(%d, %s)", g.mark(), g.expr("int", depth))
}

func (g *gen) loop() {
	g.push()
	defer g.pop()
	body := func(f func(s *scope)) {
		g.block(func(s *scope) {
			s.inLoop = true
			if f != nil {
				f(s)
			}
			if g.pct(15) {
				g.line("if %s {", g.cond())
				g.line("\t%s", g.pick([]string{"break", "continue"}))
				g.line("}")
			}
		})
		g.line("}")
	}
	switch g.n(6) {
	case 0:
		i := g.fresh("i")
		g.line("for %s := 0; %s < %d; %s++ {", i, i, 1+g.n(3), i)
		body(func(s *scope) { g.declare(i, "int", false) })
	case 1:
		e := g.cond0("[]int")
		i, v := g.fresh("i"), g.varName()
		g.line("for %s, %s := range %s {", i, v, e)
		body(func(s *scope) {
			g.declare(i, "int", false)
			g.declare(v, "int", true)
			g.line("tr(%d, %s, %s)", g.mark(), i, v)
		})
	case 2:
		g.line("for range %d {", 1+g.n(2))
		body(nil)
	case 3:
		e := g.cond0("map[string]int")
		k, v := g.fresh("k"), g.varName()
		g.line("for %s, %s := range %s {", k, v, e)
		body(func(s *scope) {
			g.declare(k, "string", true)
			g.declare(v, "int", true)
			g.line("tr(%d, %s, %s)", g.mark(), k, v)
		})
	case 4:
		v := g.varName()
		g.line("for %s := range mkSeq(%d) {", v, 1+g.n(3))
		body(func(s *scope) { g.declare(v, "int", true); g.line("_ = %s", v) })
	case 5:
		i := g.fresh("n")
		g.line("%s := 0", i)
		g.declare(i, "int", false)
		g.line("for %s < 2 {", i)
		body(func(s *scope) { g.line("%s++", i) })
	}
}

func (g *gen) ret() {
	g.comment()
	s := g.cur()
	if len(s.fn.Results) == 0 {
		g.line("return")
		return
	}
	if len(s.named) > 0 && g.pct(40) {
		ok := true
		for _, n := range s.named {
			// A naked return needs the results not to be hidden.
			for _, sc := range g.scopes[1:] {
				if sc.names[n] {
					ok = false
				}
			}
		}
		if ok {
			g.line("return")
			return
		}
	}
	parts := make([]string, len(s.fn.Results))
	for i, k := range s.fn.Results {
		parts[i] = g.expr(k, 2)
	}
	g.line("return %s", strings.Join(parts, ", "))
}

// --- declarations ---

func (g *gen) params(f *Fn, use string, named bool) (src string, decl []local) {
	keys := f.Params
	if use == "r" {
		keys = f.Results
	}
	style := g.n(3) // 0: each named, 1: grouped when possible, 2: unnamed
	if named {
		style = g.n(2)
	}
	if use == "r" && !named {
		style = 2
	}
	if use == "p" && f.Variadic && style == 2 {
		style = 0
	}
	var parts []string
	for i := 0; i < len(keys); i++ {
		src := g.typ(keys[i])
		if src == "" {
			src = keys[i]
		}
		variadic := use == "p" && f.Variadic && i == len(keys)-1
		if variadic {
			src = "..." + src
		}
		if style == 2 {
			parts = append(parts, src)
			continue
		}
		name := func() string {
			if g.pct(15) {
				return "_"
			}
			if len(g.o.Shadow) > 0 && (g.pct(8) || g.o.Clash && g.pct(30)) {
				if n := g.pick(g.o.Shadow); !g.taken[n] && n != "int" && n != "string" && n != "bool" && n != "error" && n != "any" {
					g.taken[n] = true
					return n
				}
			}
			return g.fresh(use)
		}
		names := []string{name()}
		k := keys[i]
		for style == 1 && !variadic && i+1 < len(keys) && keys[i+1] == k && !(use == "p" && f.Variadic && i+1 == len(keys)-1) {
			names = append(names, name())
			i++
		}
		for _, n := range names {
			if n != "_" && !variadic {
				decl = append(decl, local{n, k, true})
			} else if n != "_" && k == "int" {
				decl = append(decl, local{n, "[]int", true})
			} else if n != "_" {
				decl = append(decl, local{n, "[]?" + k, false})
			}
		}
		parts = append(parts, strings.Join(names, ", ")+" "+src)
	}
	return strings.Join(parts, ", "), decl
}

func (g *gen) function(recv string) {
	f := &Fn{Name: g.fresh("fn"), Recv: recv}
	if recv == "" && g.pct(20) {
		f.Generic = true
	}
	if recv != "" {
		f.PtrRecv = g.pct(60)
	}
	draw := func() string {
		k, _ := g.someType()
		if k == "interface{}!" {
			return "int"
		}
		return k
	}
	for k := g.n(4); k > 0; k-- {
		f.Params = append(f.Params, draw())
		if g.pct(30) && k > 1 {
			f.Params = append(f.Params, f.Params[len(f.Params)-1])
		}
	}
	f.Variadic = len(f.Params) > 0 && g.pct(25)
	for k := g.n(3); k > 0; k-- {
		f.Results = append(f.Results, draw())
	}
	if len(f.Results) < 3 && g.pct(25) {
		f.Results = append(f.Results, "error")
	}
	if g.o.Sigs && g.pct(60) {
		f.Results = nil
		for k := 1 + g.n(3); k > 0; k-- {
			f.Results = append(f.Results, g.pick([]string{"error", "error", "int", "Client", "*Client", "any"}))
			if g.pct(50) {
				f.Results = append(f.Results, f.Results[len(f.Results)-1])
			}
		}
		if !f.Variadic && g.pct(40) {
			f.Params = append(f.Params, g.pick([]string{"error", "Client", "*Client"}), "error")
		}
	}
	if g.pct(40) {
		g.line("// %s does something.", f.Name)
	}
	g.comment()
	if g.pct(15) {
		g.line("//go:noinline")
	}
	g.push() // parameters
	g.taken = map[string]bool{"recv": true}
	params, decl := g.params(f, "p", false)
	if f.Generic {
		tn := "_"
		for _, d := range decl {
			tn = ""
			_ = d
			break
		}
		if tn == "" {
			tn = g.fresh("t")
		}
		if params == "" {
			params = tn + " T"
		} else if len(decl) > 0 || strings.Contains(params, "_ ") {
			params = tn + " T, " + params
		} else {
			params = "T, " + params
		}
	}
	named := len(f.Results) > 0 && g.pct(40)
	results, rdecl := g.params(f, "r", named)
	if len(f.Results) == 1 && !named {
		results = " " + results
	} else if len(f.Results) > 0 {
		results = " (" + results + ")"
	}
	head := "func "
	if recv != "" {
		star := ""
		if f.PtrRecv {
			star = "*"
		}
		switch g.n(3) {
		case 0:
			head += "(" + star + recv + ") "
		case 1:
			head += "(_ " + star + recv + ") "
		case 2:
			head += "(recv " + star + recv + ") "
			g.cur().names["recv"] = true
		}
	}
	head += f.Name
	if f.Generic {
		head += "[T any]"
	}
	head += "(" + params + ")" + results
	for _, d := range decl {
		g.declare(d.name, d.typ, d.mut)
	}
	s := g.cur()
	s.fn = f
	for _, d := range rdecl {
		g.declare(d.name, d.typ, true)
		s.named = append(s.named, d.name)
	}
	if named && strings.Contains(results, "_ ") || named && strings.Contains(results, "_,") {
		s.named = nil
	}
	if len(f.Results) == 0 && g.pct(5) {
		g.line("%s {}", head)
		g.pop()
		g.done(f)
		return
	}
	if len(f.Results) == 1 && g.pct(10) {
		g.line("%s { return %s }", head, g.expr(f.Results[0], 1))
		g.pop()
		g.done(f)
		return
	}
	g.line("%s {", head)
	g.ind++
	g.stmts(1, 4)
	if len(f.Results) > 0 {
		g.ret()
	}
	g.ind--
	g.line("}")
	g.pop()
	g.done(f)
}

func (g *gen) done(f *Fn) {
	g.fns = append(g.fns, f)
	g.flushDecl()
}

func (g *gen) flushDecl() {
	g.f.decls = append(g.f.decls, g.out.String())
	g.out.Reset()
}

func (g *gen) structDecl() {
	n := g.fresh("T")
	g.comment()
	g.push()
	if g.pct(25) {
		g.line("type (")
		g.ind++
		g.comment()
		g.line("%s struct {", n)
	} else {
		g.line("type %s struct {", n)
	}
	g.ind++
	for k := g.n(4); k > 0; k-- {
		_, src := g.someType()
		if g.pct(30) {
			g.line("// F is a field")
		}
		tag := ""
		if g.pct(30) {
			tag = " `json:\"x\"`"
		}
		if g.pct(20) {
			g.line("%s, %s %s%s", g.fresh("F"), g.fresh("F"), src, tag)
			continue
		}
		g.line("%s %s%s", g.fresh("F"), src, tag)
	}
	if g.pct(20) {
		if s := g.typ("*Store"); s != "" {
			g.line("%s", s)
		}
	}
	g.ind--
	g.line("}")
	if strings.HasPrefix(strings.TrimSpace(g.out.String()), "type (") || g.ind > 0 {
		if g.pct(50) {
			g.line("%s = %s", g.fresh("Al"), n)
		}
		g.ind--
		g.line(")")
	}
	g.line("")
	g.line("func new%s() *%s { return &%s{} }", n, n, n)
	g.pop()
	g.locals = append(g.locals, n)
	g.flushDecl()
}

func (g *gen) varDecl() {
	g.push()
	defer g.pop()
	switch g.n(7) {
	case 0:
		key, src := g.someType()
		if key == "interface{}!" {
			key = "any"
		}
		g.comment()
		g.line("var %s %s = %s", g.fresh("gv"), src, g.leaf(key))
	case 1:
		g.line("var (")
		g.ind++
		for k := 1 + g.n(3); k > 0; k-- {
			key, src := g.someType()
			if key == "interface{}!" {
				key = "any"
			}
			g.comment()
			switch g.n(3) {
			case 0:
				g.line("%s %s", g.fresh("gv"), src)
			case 1:
				g.line("%s = %s", g.fresh("gv"), g.leaf(key))
			case 2:
				g.line("%s, %s %s = %s, %s // pair", g.fresh("gv"), g.fresh("gv"), src, g.leaf(key), g.leaf(key))
			}
		}
		g.ind--
		g.line(")")
	case 2:
		n := g.fresh("gc")
		g.comment()
		g.line("const (")
		g.line("\t%sA = iota", n)
		g.line("\t%sB", n)
		g.line("\t%sC string = \"c\" // string", n)
		g.line(")")
	case 3:
		g.comment()
		g.line("const %s, %s = %s, \"two\"", g.fresh("gc"), g.fresh("gc"), g.intLit())
	case 4:
		g.comment()
		g.line("var %s = %s", g.fresh("gf"), g.funcLit(2))
	case 5:
		g.line("func init() {")
		g.ind++
		s := g.push()
		s.fn = &Fn{}
		g.stmts(1, 2)
		g.pop()
		g.ind--
		g.line("}")
	case 6:
		n := g.fresh("I")
		g.line("type %s interface {", n)
		g.line("\tDo(n int) int")
		if g.pct(40) {
			g.line("\t// M is a method")
			g.line("\tM%d(s string, xs ...int) (int, error)", g.uid)
		}
		g.line("}")
	}
	g.flushDecl()
}

func (g *gen) importSet() []imp {
	var out []imp
	add := func(path string, must bool) {
		if !must && g.pct(25) {
			return
		}
		base := realName[path]
		if g.o.PlainOnly {
			out = append(out, imp{"", path})
			return
		}
		switch g.n(10) {
		case 0, 1, 2, 3, 4:
			out = append(out, imp{"", path})
		case 5:
			out = append(out, imp{base, path})
		case 6, 7:
			out = append(out, imp{"my" + base + fmt.Sprint(len(out)), path})
		case 8:
			out = append(out, imp{"", path}, imp{"x" + base + fmt.Sprint(len(out)), path})
		case 9:
			out = append(out, imp{"y" + base + fmt.Sprint(len(out)), path})
			if g.pct(50) {
				out = append(out, imp{"_", path})
			}
		}
	}
	add(pLib, true)
	add(pDeep, false)
	add(pOdd, false)
	add("strings", false)
	add("errors", false)
	add("fmt", false)
	if g.pct(10) && !g.o.PlainOnly {
		out = append(out, imp{".", pOdd})
	}
	if g.o.Clash {
		for k := 1 + g.n(4); k > 0; k-- {
			path := g.pick([]string{pInst, pInst, pInst3, pHooks, pOdd, pLib, "fmt"})
			n := g.pick([]string{"lib", "inst", "fmt", "hooks", "strange", "errors", "x", "xs", "i", "instrument", "", "", "_", "."})
			if n == "." && (path == pInst3 || path == "fmt") {
				n = "x"
			}
			dup := false
			for _, im := range out {
				dup = dup || im.path == path && im.name == n
			}
			if dup {
				continue
			}
			if n == "." && path == pLib {
				n = "_"
			}
			out = append(out, imp{n, path})
		}
	}
	if g.pct(10) {
		out = append(out, imp{"_", "net/http"})
	}
	// Two plain imports of packages of the same name conflict.
	seen := map[string]int{}
	for i := range out {
		n := out[i].name
		if n == "" {
			n = realName[out[i].path]
		}
		if n == "_" || n == "." {
			continue
		}
		if seen[n] > 0 {
			out[i].name = n + "_" + fmt.Sprint(i)
			n = out[i].name
		}
		seen[n]++
	}
	if g.pct(40) {
		// Another order.
		for i := range out {
			j := g.n(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (g *gen) program() *Prog {
	nf := 1 + g.n(g.o.Files)
	// The helpers live in a file of their own, with fixed imports.
	p := &Prog{Package: g.o.Package, Files: map[string]string{}}
	for i := 0; i < nf; i++ {
		f := &gfile{name: fmt.Sprintf("f%d.go", i), used: map[imp]bool{}}
		g.f = f
		f.imports = g.importSet()
		g.files = append(g.files, f)
		for k := g.n(3); k > 0; k-- {
			g.structDecl()
		}
		for k := 1 + g.n(g.o.Funcs); k > 0; k-- {
			if g.pct(30) {
				g.varDecl()
			}
			recv := ""
			if len(g.locals) > 0 && g.pct(30) {
				recv = g.pick(g.locals)
			}
			g.function(recv)
		}
		if g.pct(30) {
			g.varDecl()
		}
		if i == nf-1 {
			g.entry()
		}
		for _, im := range f.imports {
			if im.name == "_" || uses(f, im) {
				continue
			}
			g.imports[im.path] = true
			ident := map[string]string{pLib: "Add", pDeep: "New", pOdd: "Twice", "strings": "ToUpper", "errors": "New", "fmt": "Sprint", pInst: "Enter", pInst3: "Mark", pHooks: "On"}[im.path]
			q := realName[im.path] + "."
			if im.name == "." {
				q = ""
			} else if im.name != "" {
				q = im.name + "."
			}
			f.decls = append(f.decls, "var _ = "+q+ident+"\n")
		}
		p.Files[f.name] = g.render(f)
	}
	helpers := helpersDirect
	direct := "\n\tQdeep \"" + pDeep + "\"\n\tQodd \"" + pOdd + "\"\n"
	if g.o.Indirect && g.pct(60) {
		direct = "\n"
		helpers = strings.Split(helpers, "func mkDeep")[0] + "func mkSeq" + strings.Split(helpers, "func mkSeq")[1] +
			"\nvar mkDeep = Qlib.GetDeep\nvar mkThing = Qlib.GetThing\n"
	}
	lib := "package " + g.o.Package + "\n\nimport (\n\tQlib \"" + pLib + "\"" + direct + ""
	if g.o.Package == "main" {
		lib += "\tQfmt \"fmt\"\n)\n" + helpers + helpersMain
	} else {
		lib += ")\n" + helpers + helpersLib
	}
	src, err := format.Source([]byte(lib))
	if err != nil {
		panic(err)
	}
	p.Files["zz_helpers.go"] = string(src)
	p.Marks = g.marks
	p.Funcs = g.fns
	p.Imports = g.imports
	return p
}

// uses tells whether the declarations of the file use the import.
func uses(f *gfile, im imp) bool {
	src := "package p\n" + strings.Join(f.decls, "\n")
	a, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
	if err != nil {
		panic(fmt.Sprintf("generated program does not parse: %v\n%s", err, src))
	}
	for _, id := range a.Unresolved {
		switch im.name {
		case "":
			if id.Name == realName[im.path] {
				return true
			}
		case ".":
			if im.path == pInst && id.Name == "Enter" {
				return true
			}
			if im.path == pOdd && (id.Name == "Twice" || id.Name == "Thing") {
				return true
			}
		case id.Name:
			return true
		}
	}
	return false
}

func (g *gen) entry() {
	g.push()
	name := "Run"
	if g.o.Package == "main" {
		name = "main"
	}
	g.line("func %s() {", name)
	g.ind++
	s := g.push()
	s.fn = &Fn{}
	for _, f := range g.fns {
		c := g.call(f, 1)
		if len(f.Results) == 0 {
			g.line("%s", c)
			continue
		}
		var vs []string
		tr := ""
		for _, r := range f.Results {
			if printable(r) {
				v := g.fresh("z")
				vs = append(vs, v)
				tr += ", " + v
			} else {
				vs = append(vs, "_")
			}
		}
		if tr == "" {
			g.line("%s = %s", strings.Join(vs, ", "), c)
			continue
		}
		g.line("%s := %s", strings.Join(vs, ", "), c)
		g.line("tr(%d%s)", g.mark(), tr)
	}
	g.pop()
	g.ind--
	g.line("}")
	g.pop()
	g.flushDecl()
}

func (g *gen) render(f *gfile) string {
	var b strings.Builder
	switch g.n(4) {
	case 0:
		b.WriteString("// Package " + g.o.Package + " is generated.\n")
	case 1:
		b.WriteString("//go:build !never\n\n// Copyright someone.\n\n")
	case 2:
		b.WriteString("/* license\ntext */\n\n")
	}
	b.WriteString("package " + g.o.Package + "\n\n")
	spec := func(im imp) string {
		p := strconv.Quote(im.path)
		if im.name == "" {
			return p
		}
		return im.name + " " + p
	}
	switch g.n(3) {
	case 0:
		for _, im := range f.imports {
			b.WriteString("import " + spec(im) + "\n")
		}
	case 1:
		b.WriteString("import (\n")
		for i, im := range f.imports {
			if i > 0 && g.pct(25) {
				b.WriteString("\n\t// group\n")
			}
			b.WriteString("\t" + spec(im) + "\n")
		}
		b.WriteString(")\n")
	case 2:
		b.WriteString("import " + spec(f.imports[0]) + "\n")
		if len(f.imports) > 1 {
			b.WriteString("import (\n")
			for _, im := range f.imports[1:] {
				b.WriteString("\t" + spec(im) + "\n")
			}
			b.WriteString(")\n")
		}
	}
	b.WriteString("\n")
	for _, d := range f.decls {
		b.WriteString(d)
		if !g.o.Unformatted || g.pct(80) {
			b.WriteString("\n")
		}
	}
	src := b.String()
	if g.o.Unformatted && g.pct(30) {
		return src
	}
	out, err := format.Source([]byte(src))
	if err != nil {
		panic(fmt.Sprintf("generated program does not parse: %v\n%s", err, src))
	}
	return string(out)
}
