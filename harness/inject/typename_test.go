package inject_test

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
	"testing"
	"unicode"

	"github.com/DataDog/orchestrion/internal/injector/typed"
	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"github.com/dave/dst"
	"github.com/dave/dst/decorator"
	"github.com/dave/dst/decorator/resolver/gotypes"
	"pgregory.net/rapid"
)

func letters(s, also string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune(also, r)) {
			return false
		}
	}
	return s != ""
}

// readTypeName is the grammar of type names: ["*"] [space] [import path "."] identifier.
func readTypeName(s string) (tn typed.TypeName, ok bool) {
	if s == "interface{}" {
		return typed.TypeName{Name: "any"}, true
	}
	s, tn.Pointer = strings.CutPrefix(s, "*")
	s = strings.TrimLeft(s, " \t\n\r\f")
	tn.Name = s
	if i := strings.LastIndex(s, "."); i >= 0 {
		tn.ImportPath, tn.Name = s[:i], s[i+1:]
		for _, seg := range strings.Split(tn.ImportPath, "/") {
			if !letters(seg, "_.~+-") {
				return tn, false
			}
		}
	}
	for i, r := range tn.Name {
		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.Is(unicode.Nd, r)) {
			return tn, false
		}
	}
	return tn, tn.Name != ""
}

func TestC12_TypeNameSyntax(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "random text close to type names (pointers, paths with dots, dashes and versions, brackets, spaces, line breaks, other types); what is accepted, and the path, name and pointer it is read as, are those of the grammar; the syntax it stands for is matched by it and not by a name that differs in one part; non-trivial: accepted",
		Quick: 20000, Thorough: 200000,
	}, func(c *vh.Case) {
		s := rapid.OneOf(
			rapid.StringMatching(`\*?[ \t\n]?(([a-zA-Z0-9_.~+\-]{1,5}/){0,3}[a-zA-Z0-9_.\-]{1,5}\.)?[A-Za-z_éÉ世][A-Za-z0-9_é世٣²]{0,3}`),
			rapid.StringMatching(`[*]{0,2}[ ]?[a-z0-9./_\-\[\] \n,]{0,12}`),
			rapid.StringMatching(`(\[\]|map\[string\]|\*|chan |func\(\) |\[4\]|\.\.\.|&|\()?(a\.b/c\.)?[A-Z]([a-z]|\[int\]|\[K, V\]|\.|\n|é|\{\})?`),
			rapid.StringMatching(`\*?interface ?\{ ?\}`),
		).Draw(c.T, "text")
		c.Desc(s)
		want, ok := readTypeName(s)
		got, err := typed.NewTypeName(s)
		if (err == nil) != ok {
			c.Violation("%q: accepted %v, expected %v", s, err == nil, ok)
		}
		if !ok {
			return
		}
		c.Nontrivial(s)
		if got != want {
			c.Violation("%q is read as %+v, expected %+v", s, got, want)
		}
		n := got.AsNode()
		if !got.Matches(n) {
			c.Violation("%q does not match the syntax it stands for, %v", s, n)
		}
		print := ""
		if got.Pointer {
			print = "*"
		}
		if got.ImportPath != "" {
			print += got.ImportPath + "."
		}
		if again, err := typed.NewTypeName(print + got.Name); err != nil || again != got {
			c.Violation("%q reads back as %+v", s, again)
		}
		for _, o := range []typed.TypeName{
			{ImportPath: got.ImportPath, Name: got.Name, Pointer: !got.Pointer},
			{ImportPath: got.ImportPath + "x", Name: got.Name, Pointer: got.Pointer},
			{ImportPath: got.ImportPath, Name: got.Name + "x", Pointer: got.Pointer},
			{ImportPath: "", Name: got.Name, Pointer: got.Pointer},
			{ImportPath: got.ImportPath, Name: "any", Pointer: got.Pointer},
		} {
			if o != got && (o.Matches(n) || got.Matches(o.AsNode())) {
				c.Violation("%q and %+v match each other", s, o)
			}
		}
	})
}

func TestC12_TypeNamesMatchTheirType(t *testing.T) {
	inWorld()
	pool := []string{"int", "string", "bool", "error", "any", "float64", "T", "U", wLib + ".Client", wLib + ".Store", wLib + ".Doer", wLib + ".Pair", wLib + ".Opt", "example.com/w/deep/lib.Client", "example.com/w/odd.v2.Thing", wInst + ".State", wInst3 + ".Extra", "net/http.Request", "context.Context", "time.Duration", "example.com/w/app.T", "lib.Client", "w/lib.Client"}
	vh.Run(t, vh.Opts{
		Rule:  "parameters, results, fields and variables of random types (qualified by packages imported under other names, twice and dot-imported, built-in, local, generic; behind pointers, parentheses, slices, arrays, maps, channels, functions) in a type-checked file read as the injector reads it; every type name of a pool matches an expression exactly if the type checker says that it has that type; non-trivial: some name matched",
		Quick: 2400, Thorough: 10000,
	}, func(c *vh.Case) {
		pick := func(s ...string) string { return rapid.SampledFrom(s).Draw(c.T, "x") }
		imports := map[string]string{"lib": wLib, "deep": "example.com/w/deep/lib", "strange": "example.com/w/odd.v2", "inst": wInst, "inst3": wInst3, "http": "net/http", "context": "context", "time": "time"}
		names := map[string][]string{}
		var head strings.Builder
		head.WriteString("package app\n\n")
		var tail strings.Builder
		probe := map[string]string{"lib": "Client", "deep": "Client", "strange": "Thing", "inst": "State", "inst3": "Extra", "http": "Request", "context": "Context", "time": "Duration"}
		taken := map[string]bool{}
		dotted := false
		for _, k := range []string{"lib", "deep", "strange", "inst", "inst3", "http", "context", "time"} {
			for i := rapid.IntRange(1, 2).Draw(c.T, "twice"); i > 0; i-- {
				n := pick(k, k, "lib", "x"+k, "deep", "http", ".")
				if n == "." && (dotted || k != "lib" && k != "http") {
					n = "y" + k
				}
				if taken[n] {
					n = fmt.Sprint(k, len(taken))
				}
				taken[n] = true
				fmt.Fprintf(&head, "import %s %q\n", n, imports[k])
				q := n + "."
				if n == "." {
					dotted = true
					q = ""
				}
				names[k] = append(names[k], q)
				fmt.Fprintf(&tail, "var _ %s%s\n", q, probe[k])
			}
		}
		q := func(k, n string) string { return pick(names[k]...) + n }
		var typ func(d int) string
		typ = func(d int) string {
			if d > 0 {
				switch rapid.IntRange(0, 13).Draw(c.T, "shape") {
				case 0, 1, 2, 3:
					return "*" + typ(d-1)
				case 4:
					return "[]" + typ(d-1)
				case 5:
					return "[3]" + typ(d-1)
				case 6:
					return "map[string]" + typ(d-1)
				case 7:
					return "chan " + typ(d-1)
				case 8:
					return "func(" + typ(d-1) + ") " + typ(d-1)
				case 9:
					return "(" + typ(d-1) + ")"
				case 10:
					return q("lib", "Pair") + "[string, " + typ(d-1) + "]"
				}
			}
			return pick("int", "string", "bool", "error", "any", "interface{}", "float64", "T", "U[int]", "U["+q("lib", "Client")+"]", q("lib", "Client"), q("lib", "Client"), q("lib", "Store"), q("lib", "Doer"), q("lib", "Opt"), q("lib", "Pair")+"[string, int]", q("deep", "Client"), q("strange", "Thing"), q("inst", "State"), q("inst3", "Extra"), q("http", "Request"), q("context", "Context"), q("time", "Duration"), "interface{ M() }", "struct{}", "interface{ int | string }x"[:0]+"int")
		}
		src := head.String() + "\ntype T struct{}\ntype U[X any] struct{ v X }\n\n"
		for k := 1 + rapid.IntRange(0, 4).Draw(c.T, "n"); k > 0; k-- {
			switch rapid.IntRange(0, 2).Draw(c.T, "where") {
			case 0:
				src += fmt.Sprintf("func f%d(a, b %s, _ %s) (_ %s) { panic(0) }\n", k, typ(2), typ(2), typ(2))
			case 1:
				src += fmt.Sprintf("type s%d struct {\n\tF %s\n\tG, H %s\n}\n", k, typ(2), typ(2))
			case 2:
				src += fmt.Sprintf("var v%d %s\n", k, typ(2))
			}
		}
		src += tail.String()
		c.Desc(src)
		chk, err := ilib.Check(ilib.AppPath, map[string]string{"f.go": src})
		if err != nil {
			vh.Infra("generated file does not compile: %v\n%s", err, src)
		}
		dec := decorator.NewDecoratorWithImports(chk.Fset, ilib.AppPath, gotypes.New(chk.Info.Uses))
		file, err := dec.DecorateFile(chk.Files["f.go"])
		vh.Must(err)
		hits := 0
		dst.Inspect(file, func(n dst.Node) bool {
			var e dst.Expr
			switch n := n.(type) {
			case *dst.Field:
				e = n.Type
			case *dst.ValueSpec:
				e = n.Type
			}
			if e == nil {
				return true
			}
			expr, ok := dec.Ast.Nodes[e].(ast.Expr)
			if !ok {
				return true
			}
			ty := chk.Info.TypeOf(expr)
			for _, p := range pool {
				for _, name := range []string{p, "*" + p} {
					tn, err := typed.NewTypeName(name)
					if err != nil {
						c.Violation("%q is refused: %v", name, err)
					}
					if want := namedIn(ty, name); want != tn.Matches(e) && p != "example.com/w/app.T" {
						c.Violation("%q matching %s is %v, expected %v", name, types.ExprString(expr), !want, want)
					} else if want {
						hits++
						c.Class(p)
					}
				}
			}
			return true
		})
		if hits > 0 {
			c.Nontrivial(src)
		}
	})
}

// namedIn is hasName where local types have no path.
func namedIn(t types.Type, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		return strings.HasPrefix(name, "*") && namedIn(p.Elem(), name[1:])
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == ilib.AppPath {
		return n.Obj().Name() == name
	}
	return hasName(t, name)
}
