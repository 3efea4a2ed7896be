package inject_test

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/DataDog/orchestrion/internal/injector/aspect"
	"github.com/DataDog/orchestrion/internal/injector/aspect/advice"
	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

const (
	wInst  = "example.com/w/inst"
	wInst3 = "example.com/w/inst/v3"
	wHooks = "example.com/w/go-hooks.v1"
)

// wadv is one piece of advice with what it should do.
type wadv struct {
	id        string // "@n"
	kind      string
	ns        string
	order     int
	lang      string
	imports   map[string]string
	text      string // template, with ZZDOT for {{.}} and ZZARGn, ZZRESn, ZZRECV
	yaml      string
	uses      []string // packages the injected code refers to
	add       []*wtmpl // append-args
	typ       typ
	name      string
	path      string
	links     []string
	fieldWrap bool
}

type wtmpl struct {
	text    string
	imports map[string]string
	lang    string
}

// wasp is an aspect: a join point and its advice.
type wasp struct {
	jp  *jp
	adv []*wadv
}

type weaveGen struct {
	*jpGen
	k       int
	prog    *ilib.Prog
	decls   []string // names of the functions of the program, "" when there is none
	aliases []string
	langs   []string
	clash   bool
}

func newWeaveGen(c *vh.Case, p *ilib.Prog, path string) *weaveGen {
	return &weaveGen{jpGen: newJPGen(c.T, p, path), prog: p,
		aliases: []string{"inst", "inst", "lib", "i", "x", "fmt", "hooks", "xs", "strange", "T1", "errors", "instrument"}}
}

func (g *weaveGen) id() string { g.k++; return fmt.Sprintf("@%d", g.k) }

func (g *weaveGen) alias(m map[string]string, path string) string {
	for a, p := range m {
		if p == path {
			return a
		}
	}
	for {
		a := g.pick(g.aliases)
		if m[a] == "" {
			m[a] = path
			return a
		}
		a += fmt.Sprint(g.n(50))
		if m[a] == "" {
			m[a] = path
			return a
		}
	}
}

func (g *weaveGen) tmpl(f func(a func(path string) string) string) *wtmpl {
	t := &wtmpl{imports: map[string]string{}}
	t.text = f(func(path string) string { return g.alias(t.imports, path) })
	if len(g.langs) > 0 && g.n(3) == 0 {
		t.lang = g.pick(g.langs)
	}
	return t
}

func (t *wtmpl) fields() string {
	j, _ := json.Marshal(t.text)
	text := string(j)
	for _, r := range [][2]string{{"ZZDOT", "{{.}}"}, {"ZZRECV", "{{.Function.Receiver}}"}} {
		text = strings.ReplaceAll(text, r[0], r[1])
	}
	for i := 0; i < 9; i++ {
		text = strings.ReplaceAll(text, fmt.Sprint("ZZARG", i), fmt.Sprintf("{{.Function.Argument %d}}", i))
		text = strings.ReplaceAll(text, fmt.Sprint("ZZRES", i), fmt.Sprintf("{{.Function.Result %d}}", i))
		text = strings.ReplaceAll(text, fmt.Sprint("ZZCALL", i), fmt.Sprintf("{{index .AST.Args %d}}", i))
	}
	im, _ := json.Marshal(t.imports)
	for _, q := range fnQueries {
		text = strings.ReplaceAll(text, q.hole, q.text)
	}
	s := "template: " + text + ", imports: " + string(im)
	if t.lang != "" {
		s += ", lang: " + t.lang
	}
	return s
}

func (t *wtmpl) uses() []string {
	var out []string
	for _, p := range t.imports {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func fnCall(name string) *jp { return &jp{kind: "function-call", path: wLib, name: name} }
func methCall(t, n, m string) *jp {
	return &jp{kind: "method-call", typ: typ{wLib, t, false}, name: n, match: m}
}

// wrapText is a template that wraps an expression of any type.
func (g *weaveGen) wrapText(id, typ string) *wtmpl {
	return g.tmpl(func(a func(string) string) string {
		switch k := g.n(5); {
		case k == 0 && typ != "":
			t := typ
			if i := strings.Index(t, "."); i > 0 {
				t = strings.Replace(t, t[:i], a(wLib), 1)
			}
			if strings.HasPrefix(typ, "*") {
				t = "*" + a(wLib) + typ[strings.Index(typ, "."):]
			}
			return fmt.Sprintf("%s.Call(func() %s {\n\treturn ZZDOT\n}, %q)", a(wInst), t, id)
		case k == 1:
			return fmt.Sprintf("%s.Wrap(\n\tZZDOT,\n\t%q,\n)", a(wInst), id)
		}
		return fmt.Sprintf("%s.Wrap(ZZDOT, %q)", a(wInst), id)
	})
}

func (g *weaveGen) wrap() *wasp {
	id := g.id()
	type target struct {
		j *jp
		t string
	}
	ts := []target{{fnCall("Add"), "int"}, {fnCall("Add"), "int"}, {fnCall("Sum"), "int"}, {fnCall("New"), "*lib.Client"}, {fnCall("New"), "*lib.Client"}, {fnCall("Make"), "lib.Client"}, {fnCall("Hook"), "lib.Opt"},
		{fnCall("Apply"), "int"}, {fnCall("Fail"), "error"}, {methCall("Client", "Do", ""), "int"}, {methCall("Client", "Do", "pointer-only"), "int"}, {methCall("Client", "Peek", ""), "int"}, {methCall("Client", "With", ""), "*lib.Client"},
		{methCall("Client", "String", "any"), "string"}, {methCall("Store", "Do", ""), "int"},
		{&jp{kind: "struct-literal", typ: typ{wLib, "Client", false}, match: "pointer-only"}, "*lib.Client"},
		{&jp{kind: "struct-literal", typ: typ{wLib, "Client", false}, match: "value-only"}, "lib.Client"},
		{&jp{kind: "struct-literal", typ: typ{wLib, "Store", false}, match: "value-only"}, "lib.Store"}}
	if g.n(5) == 0 {
		w := &wadv{id: id, kind: "wrap", fieldWrap: true}
		field, fn := "Timeout", "Num"
		if g.n(2) == 0 {
			field, fn = "Name", "Str"
		}
		t := g.tmpl(func(a func(string) string) string { return fmt.Sprintf("%s.%s(%q, ZZDOT)", a(wInst), fn, id) })
		w.text, w.imports, w.lang, w.uses = t.text, t.imports, t.lang, t.uses()
		w.yaml = "wrap-expression: {" + t.fields() + "}"
		return &wasp{&jp{kind: "struct-literal", typ: typ{wLib, "Client", false}, field: field}, []*wadv{w}}
	}
	x := ts[g.n(len(ts))]
	a := &wasp{jp: x.j}
	for k := 1 + g.n(5)/4; k > 0; k-- {
		t := g.wrapText(id, x.t)
		w := &wadv{id: id, kind: "wrap", text: t.text, imports: t.imports, lang: t.lang, uses: t.uses(), yaml: "wrap-expression: {" + t.fields() + "}"}
		a.adv = append(a.adv, w)
		id = g.id()
	}
	return a
}

func (g *weaveGen) appendArgs() *wasp {
	w := &wadv{id: g.id(), kind: "append"}
	j := fnCall("Sum")
	w.typ = typ{"", "int", false}
	if g.n(3) > 0 {
		j = fnCall(g.pick([]string{"New", "Make"}))
		w.typ = typ{wLib, "Opt", false}
	}
	for k := 1 + g.n(2); k > 0; k-- {
		id := w.id
		t := g.tmpl(func(a func(string) string) string {
			if w.typ.path == "" {
				return fmt.Sprintf("%s.Int(%q)", a(wInst), id)
			}
			return fmt.Sprintf("%s.Opt(%q)", a(wInst), id)
		})
		w.add = append(w.add, t)
		w.uses = append(w.uses, t.uses()...)
	}
	var vs []string
	for _, t := range w.add {
		vs = append(vs, "{"+t.fields()+"}")
	}
	w.yaml = "append-args: {type: " + w.typ.String() + ", values: [" + strings.Join(vs, ", ") + "]}"
	return &wasp{j, []*wadv{w}}
}

func (g *weaveGen) replace() *wasp {
	n := g.pick([]string{"Add", "Sum", "New"})
	w := &wadv{id: g.id(), kind: "replace", path: wInst, name: n, uses: []string{wInst}, yaml: "replace-function: " + wInst + "." + n}
	return &wasp{fnCall(n), []*wadv{w}}
}

// prependAdv is a block of statements for the start of a body.
func (g *weaveGen) prependAdv(args string) *wadv {
	w := &wadv{id: g.id(), kind: "prepend"}
	id := w.id
	t := g.tmpl(func(a func(string) string) string {
		switch g.n(8) {
		case 0:
			return fmt.Sprintf("defer %s.Leave(%q)", a(wInst), id)
		case 1:
			return fmt.Sprintf("%s.On(%q%s)", a(wHooks), id, args)
		case 2:
			return fmt.Sprintf("%s.Enter(%q%s)", a(wInst3), id, args)
		case 3:
			return fmt.Sprintf("zzx := %s.State{N: 1}\nif zzx.N > 0 {\n\t%s.Enter(%q, zzx)\n}", a(wInst), a(wInst), id)
		case 4:
			return fmt.Sprintf("var zzs string = %s.Mark(%q)\n_ = zzs\n%s.Enter(\"\"%s)", a(wInst3), id, a(wInst), args)
		case 6:
			if g.clash {
				return fmt.Sprintf("%s.Enter(%q, %s.Twice(1)%s)", a(wInst), id, a(wOdd), args)
			}
		case 5:
			return fmt.Sprintf("%s.Enter(%q,\n\t%s.Sprint(1)%s)", a(wInst), id, a("fmt"), args)
		}
		return fmt.Sprintf("%s.Enter(%q%s)", a(wInst), id, args)
	})
	w.text, w.imports, w.lang, w.uses = t.text, t.imports, t.lang, t.uses()
	w.yaml = "prepend-statements: {" + t.fields()
	if g.n(2) == 0 {
		w.ns = g.pick([]string{"", "a", "b", "a", "aa", "B", "zz", "\U0010ffff", "a.b"})
		j, _ := json.Marshal(w.ns)
		w.yaml += ", namespace: " + string(j)
	}
	if g.n(2) == 0 {
		w.order = []int{-3, -2, -1, 0, 1, 2, 3, 10, 2, -10, 1 << 40}[g.n(11)]
		w.yaml += fmt.Sprintf(", order: %d", w.order)
	}
	if w.ns == "" {
		w.ns = "\U0010ffff"
	}
	w.yaml += "}"
	return w
}

func (g *weaveGen) body() *jp {
	f := &jp{kind: "function"}
	switch g.n(4) {
	case 0:
		f.opts = append(f.opts, fopt{kind: "name", name: g.pick(g.names)})
	case 1:
		f.opts = append(f.opts, fopt{kind: "name", name: "Run"})
	case 2:
		f.opts = append(f.opts, fopt{kind: "has-receiver", flag: g.n(2) == 0})
	}
	return &jp{kind: "function-body", kids: []*jp{f}}
}

func (g *weaveGen) prepend() *wasp {
	a := &wasp{jp: g.body()}
	for k := 1 + g.n(3)/2; k > 0; k-- {
		a.adv = append(a.adv, g.prependAdv(""))
	}
	return a
}

func (g *weaveGen) field() *wasp {
	w := &wadv{id: g.id(), kind: "field"}
	w.name = "zzF" + w.id[1:]
	w.typ = []typ{{"", "int", false}, {wInst, "State", false}, {wHooks, "H", true}, {wInst3, "Extra", false}, {"", "string", true}, {wLib, "Client", true}}[g.n(6)]
	if w.typ.path != "" {
		w.uses = []string{w.typ.path}
	}
	w.yaml = "add-struct-field: {name: " + w.name + ", type: " + quoted(w.typ.String()) + "}"
	return &wasp{&jp{kind: "struct-definition", typ: typ{g.path, g.pick(g.types), false}}, []*wadv{w}}
}

func (g *weaveGen) decl() *wasp {
	w := &wadv{id: g.id(), kind: "decls"}
	n := w.id[1:]
	t := g.tmpl(func(a func(string) string) string {
		switch g.n(4) {
		case 0:
			return fmt.Sprintf("var zzV%s = %s.Str(%q, \"v\")", n, a(wInst), w.id)
		case 1:
			return fmt.Sprintf("type zzT%s struct {\n\t%s.State\n\tH *%s.H\n}", n, a(wInst), a(wHooks))
		case 2:
			return fmt.Sprintf("var zzA%s = %s.Mark(%q)\nvar _ = zzA%s", n, a(wInst3), w.id, n)
		}
		return fmt.Sprintf("//go:noinline\nfunc zzG%s(v any) {\n\t%s.Enter(%q, v)\n}", n, a(wInst), w.id)
	})
	w.text, w.imports, w.lang, w.uses = t.text, t.imports, t.lang, t.uses()
	w.yaml = "inject-declarations: {" + t.fields()
	if g.n(3) == 0 {
		w.links = []string{g.pick([]string{wHooks, "net/http", wInst3, "log"})}
		w.yaml += ", links: [" + w.links[0] + "]"
	}
	w.yaml += "}"
	return &wasp{&jp{kind: "declaration-of", path: g.path, name: g.declName()}, []*wadv{w}}
}

// declName picks something declared once, or not at all.
func (g *weaveGen) declName() string {
	if n := g.pick(append([]string{"Run", "Run"}, g.names...)); n != "init" && n != "_" {
		return n
	}
	return "Run"
}

func (g *weaveGen) blank() *wasp {
	p := g.pick([]string{wHooks, "net/http", wInst, "log", wLib, "unsafe"})
	w := &wadv{id: g.id(), kind: "blank", path: p, uses: []string{p}, yaml: "add-blank-import: " + p}
	return &wasp{&jp{kind: "declaration-of", path: g.path, name: g.declName()}, []*wadv{w}}
}

func (g *weaveGen) assign() *wasp {
	id := g.id()
	t := g.tmpl(func(a func(string) string) string { return fmt.Sprintf("%s.Int(%q)", a(wInst), id) })
	w := &wadv{id: id, kind: "assign", text: t.text, imports: t.imports, lang: t.lang, uses: t.uses(), yaml: "assign-value: {" + t.fields() + "}"}
	return &wasp{&jp{kind: "all-of", kids: []*jp{{kind: "value-declaration", typ: typ{"", "int", false}}, {kind: "not", kids: []*jp{{kind: "directive", name: "zz:const"}}}}}, []*wadv{w}}
}

// aspects draws aspects that leave programs valid.
func (g *weaveGen) aspects(weights map[string]int) []*wasp {
	var kinds []string
	for _, k := range []string{"wrap", "append", "replace", "prepend", "field", "decl", "blank", "assign"} {
		w, ok := weights[k]
		if !ok {
			w = 1
		}
		for i := 0; i < w; i++ {
			kinds = append(kinds, k)
		}
	}
	make := map[string]func() *wasp{"wrap": g.wrap, "append": g.appendArgs, "replace": g.replace, "prepend": g.prepend, "field": g.field, "decl": g.decl, "blank": g.blank, "assign": g.assign}
	rank := map[string]int{"replace": 0, "append": 0, "assign": 0, "wrap": 1}
	var out, late []*wasp
	for k := 1 + g.n(6); k > 0; k-- {
		kind := g.pick(kinds)
		a := make[kind]()
		if rank[kind] == 1 {
			late = append(late, a)
		} else {
			out = append(out, a)
		}
	}
	out = append(out, late...)
	// Whether injected declarations are woven in turn is not documented.
	bodies := false
	for _, a := range out {
		bodies = bodies || a.adv[0].kind == "prepend" && (len(a.jp.kids[0].opts) == 0 || a.jp.kids[0].opts[0].kind != "name")
	}
	if bodies {
		var keep []*wasp
		for _, a := range out {
			if a.adv[0].kind != "decls" || !strings.Contains(a.adv[0].text, "func zz") {
				keep = append(keep, a)
			}
		}
		out = keep
	}
	return out
}

func aspectsYAML(as []*wasp) string {
	var b strings.Builder
	b.WriteString("aspects:\n")
	for i, a := range as {
		fmt.Fprintf(&b, "  - id: A%d\n    join-point: %s\n    advice:\n", i, a.jp.yaml())
		for _, w := range a.adv {
			fmt.Fprintf(&b, "      - %s\n", w.yaml)
		}
	}
	return b.String()
}

func parseWeave(c *vh.Case, as []*wasp) []*aspect.Aspect {
	doc := aspectsYAML(as)
	out, err := ilib.ParseAspects(doc)
	if err != nil {
		c.Violation("valid aspects are refused: %v\n%s", err, doc)
	}
	return out
}

// matched finds where each aspect's join point matches, with advice that only records.
func matched(c *vh.Case, files map[string]string, as []*wasp, s ilib.Setup) []map[string]bool {
	parsed := parseWeave(c, as)
	var recs []*recorder
	for _, a := range parsed {
		r := newRecorder()
		recs = append(recs, r)
		a.Advice = []advice.Advice{r}
	}
	if res := ilib.Inject(files, parsed, s); res.Err != nil {
		c.Violation("matching fails: %v", res.Err)
	}
	var out []map[string]bool
	for _, r := range recs {
		out = append(out, r.got)
	}
	return out
}

var _ = rapid.Just[int]
