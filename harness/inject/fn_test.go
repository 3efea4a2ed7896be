package inject_test

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/token"
	"go/types"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// fnQuery is something a template can ask about the enclosing function.
type fnQuery struct {
	hole, text string
	kind       byte // A argument of type, R result of type, I argument implementing, J result implementing, L last one, F whether the final one does, N name
	arg        string
}

var fnQueries = func() (out []fnQuery) {
	add := func(kind byte, text, arg string) {
		q := fnQuery{fmt.Sprintf("ZZQ%c%dZ", kind, len(out)), text, kind, arg}
		out = append(out, q)
	}
	opt := func(call string) string { return "{{with .Function." + call + "}}{{.}}{{else}}nil{{end}}" }
	for _, t := range []string{"int", "string", "bool", "error", "any", wLib + ".Client", "*" + wLib + ".Client", wLib + ".Doer", wLib + ".Pair", "*" + wLib + ".Pair", wLib + ".Store", "example.com/w/deep/lib.Client", "*example.com/w/deep/lib.Client", "*example.com/w/odd.v2.Thing"} {
		add('A', opt("ArgumentOfType `"+t+"`"), t)
		add('R', opt("ResultOfType `"+t+"`"), t)
	}
	for _, t := range []string{"error", "fmt.Stringer"} {
		add('I', opt("ArgumentThatImplements `"+t+"`"), t)
		add('J', opt("ResultThatImplements `"+t+"`"), t)
		add('L', opt("LastResultThatImplements `"+t+"`"), t)
		add('F', "{{if .Function.FinalResultImplements `"+t+"`}}1{{else}}0{{end}}", t)
	}
	add('X', "{{.Function.Argument -1}}", "")
	add('X', "{{.Function.Result -1}}", "")
	add('N', "{{printf `%q` .Function.Name}}", "")
	return
}()

var negative = func() (out []string) {
	for _, q := range fnQueries {
		if q.kind == 'X' {
			out = append(out, q.hole)
		}
	}
	return
}()

var (
	ifaceOnce sync.Once
	ifaces    map[string]*types.Interface
)

func iface(name string) *types.Interface {
	ifaceOnce.Do(func() {
		ilib.World()
		pkg, err := importer.ForCompiler(token.NewFileSet(), runtime.Compiler, ilib.Lookup).Import("fmt")
		vh.Must(err)
		ifaces = map[string]*types.Interface{
			"error":        types.Universe.Lookup("error").Type().Underlying().(*types.Interface),
			"fmt.Stringer": pkg.Scope().Lookup("Stringer").Type().Underlying().(*types.Interface),
		}
	})
	return ifaces[name]
}

// hasName tells whether a type is the one a type name denotes.
func hasName(t types.Type, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		return strings.HasPrefix(name, "*") && hasName(p.Elem(), name[1:])
	}
	switch t := types.Unalias(t).(type) {
	case *types.Basic:
		return t.Name() == name
	case *types.Interface:
		return t.NumMethods() == 0 && name == "any"
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name() == name
		}
		return t.Obj().Pkg().Path()+"."+t.Obj().Name() == name
	}
	return false
}

func signatureOf(chk *ilib.Checked, fn *sx) *types.Signature {
	switch n := fn.user.(type) {
	case *ast.FuncDecl:
		return chk.Info.Defs[n.Name].Type().(*types.Signature)
	case *ast.FuncLit:
		return chk.Info.Types[n].Type.(*types.Signature)
	}
	return nil
}

// ask answers the questions of a template about the enclosing function.
func (e *expected) ask(chk *ilib.Checked, w *wadv, fn *sx, holes map[string]*sx) {
	if e.asked == nil {
		e.asked = map[string]int{}
	}
	for _, kind := range []string{"ZZARG", "ZZRES"} {
		for i := 0; i < 9; i++ {
			if n := fmt.Sprint(kind, i); strings.Contains(w.text, n) {
				if fn == nil || holes[n] == nil {
					e.refused = fmt.Sprintf("there is no %s", n)
				} else {
					e.asked[kind]++
				}
			}
		}
	}
	if strings.Contains(w.text, "ZZRECV") {
		if holes["ZZRECV"] == nil {
			e.refused = "there is no receiver"
		}
		e.asked["receiver"]++
	}
	if !strings.Contains(w.text, "ZZQ") {
		return
	}
	if fn == nil {
		e.bad = "no function"
		return
	}
	sig := signatureOf(chk, fn)
	for _, q := range fnQueries {
		if !strings.Contains(w.text, q.hole) {
			continue
		}
		list, tuple := fn.kid("Type").kid("Params"), sig.Params()
		if strings.IndexByte("RJLF", q.kind) >= 0 {
			list, tuple = fn.kid("Type").kid("Results"), sig.Results()
		}
		at, exact := -1, -1
		for i := 0; i < tuple.Len(); i++ {
			t := tuple.At(i).Type()
			ok := false
			switch q.kind {
			case 'A', 'R':
				ok = hasName(t, q.arg)
			case 'I', 'J', 'L':
				ok = types.Implements(t, iface(q.arg))
				if hasName(t, q.arg) && (exact < 0 || q.kind == 'L') {
					exact = i
				}
			}
			if ok && (at < 0 || q.kind == 'L') {
				at = i
			}
		}
		if exact >= 0 && exact != at {
			e.bad = "whether the very type is preferred is not clear"
			return
		}
		switch q.kind {
		case 'X':
			e.refused = "there is no element of index -1"
		case 'F':
			v := "0"
			if n := tuple.Len(); n > 0 && types.Implements(tuple.At(n-1).Type(), iface(q.arg)) {
				v = "1"
			}
			holes[q.hole] = &sx{op: v}
			e.asked["F="+v]++
		case 'N':
			name := ""
			if fd, ok := fn.user.(*ast.FuncDecl); ok {
				name = fd.Name.Name
			}
			holes[q.hole] = &sx{op: fmt.Sprintf("%q", name)}
			e.asked["N"]++
		default:
			holes[q.hole] = &sx{op: "n:nil"}
			if at >= 0 {
				holes[q.hole] = list.kids[at].kids[0]
				e.asked[string(q.kind)]++
			}
		}
	}
}

// asks draws arguments of a call that refer to the enclosing function.
func (g *weaveGen) asks(any bool) string {
	var b strings.Builder
	for k := 1 + g.n(3); k > 0; k-- {
		switch g.n(3) {
		case 0:
			if any {
				b.WriteString(", " + g.pick([]string{"ZZARG0", "ZZARG0", "ZZRES0", "ZZRES0", "ZZARG1", "ZZARG2", "ZZRES1", "ZZRES2", "ZZRECV", "ZZRECV", "ZZARG5", g.pick(negative)}))
				continue
			}
			fallthrough
		default:
			if q := fnQueries[g.n(len(fnQueries))]; q.kind != 'X' {
				b.WriteString(", " + q.hole)
			}
		}
	}
	return b.String()
}

func TestC11_TemplatesSeeTheSignature(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random functions, methods and literals (parameters grouped, anonymous, blank, variadic, results named or not) woven with templates that ask for the n-th argument or result, the receiver, arguments and results by type or interface and the function's name; by the type checker's resolution, the names in the woven code are those elements of the innermost function, and nothing else changed; asking for what is not there is an error; non-trivial: a question was answered with an element of a function",
		Quick: 1400, Thorough: 5600,
	}, func(c *vh.Case) {
		w := weave(c, ilib.GenOpts{Files: 2, Funcs: 3, Depth: 2, Sigs: true, PlainOnly: rapid.Bool().Draw(c.T, "plain")}, map[string]int{"wrap": 1, "prepend": 1, "append": 1, "field": 0, "decl": 0, "blank": 0, "assign": 0, "replace": 0}, func(g *weaveGen, w *woven) {
			if g.n(3) > 0 {
				w.as = w.as[:g.n(len(w.as)+1)]
			}
			for k := 1 + g.n(3); k > 0; k-- {
				switch g.n(5) {
				case 0:
					id := g.id()
					x := []struct {
						j *jp
						t string
					}{{fnCall("Add"), "int"}, {fnCall("Sum"), "int"}, {fnCall("Apply"), "int"}, {fnCall("Fail"), "error"}}[g.n(4)]
					t := g.tmpl(func(a func(string) string) string {
						return fmt.Sprintf("%s.Call(func() %s {\n\t%s.Enter(%q%s)\n\treturn ZZDOT\n}, %q)", a(wInst), x.t, a(wInst), id, g.asks(false), id)
					})
					w.as = append(w.as, &wasp{x.j, []*wadv{{id: id, kind: "wrap", text: t.text, imports: t.imports, uses: t.uses(), yaml: "wrap-expression: {" + t.fields() + "}"}}})
				case 1, 2:
					name := "Run"
					if fs := w.prog.Funcs; len(fs) > 0 {
						name = fs[g.n(len(fs))].Name
					}
					j := &jp{kind: "function", opts: []fopt{{kind: "name", name: name}}}
					w.as = append(w.as, &wasp{&jp{kind: "function-body", kids: []*jp{j}}, []*wadv{g.prependAdv(g.asks(true))}})
				default:
					w.as = append(w.as, &wasp{g.body(), []*wadv{g.prependAdv(g.asks(false))}})
				}
			}
		})
		compareTrees(w)
		if w.bad {
			return
		}
		asked := 0
		for _, e := range w.want {
			for k, n := range e.asked {
				asked += n
				for ; n > 0; n-- {
					c.Class("answered " + k)
				}
			}
		}
		if asked > 0 {
			c.Nontrivial(aspectsYAML(w.as))
		}
	})
}

func TestC08_AdviceIsOrdered(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages woven with many aspects that match at the same places, each with several pieces of advice with and without namespaces and order numbers (ties, negative and huge numbers, names that sort unlike numbers); the woven files are compared with the original ones edited in the documented order, every piece of advice once; non-trivial: three or more pieces of advice applied at one place",
		Quick: 1000, Thorough: 4000,
	}, func(c *vh.Case) {
		w := weave(c, ilib.GenOpts{Files: 1, Funcs: 2, Depth: 1, PlainOnly: true}, map[string]int{"wrap": 3, "prepend": 4, "append": 2, "field": 2, "decl": 1, "blank": 0, "assign": 1, "replace": 1}, func(g *weaveGen, w *woven) {
			at := g.body()
			for k := 2 + g.n(6); k > 0; k-- {
				a := &wasp{jp: at}
				if g.n(4) == 0 {
					a.jp = g.body()
				}
				for n := 1 + g.n(4); n > 0; n-- {
					a.adv = append(a.adv, g.prependAdv(""))
				}
				w.as = append(w.as, a)
			}
			var as []*wasp // aspects that match the bodies of injected functions are left out
			for _, a := range w.as {
				if a.adv[0].kind != "decls" {
					as = append(as, a)
				}
			}
			w.as = as
		})
		compareTrees(w)
		if w.bad {
			return
		}
		most := 0
		for _, e := range w.want {
			most = max(most, e.most)
		}
		if most >= 3 {
			c.Class("three or more at one place")
			c.Nontrivial(aspectsYAML(w.as))
		}
	})
}
