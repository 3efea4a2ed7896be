package inject_test

import (
	"fmt"
	"go/ast"
	"go/token"
	"sort"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

type weaveCase struct {
	Files   map[string]string
	Aspects string
	Setup   ilib.Setup
}

// expect applies the advice to the tree of a file by its documentation.
type expected struct {
	file    *sx
	applied map[string]int // id of the advice -> how often
	kinds   map[string]int
	uses    map[string]bool
	links   map[string]bool
	blank   map[string]bool
	lang    string
	multi   int // nodes with several pieces of advice
	repack  int
	bad     string // the advice cannot be applied here without breaking the program
	refused string // the template asks for something that is not there
	asked   map[string]int
	most    int // pieces of advice at one node
}

func wanted(chk *ilib.Checked, name string, as []*wasp, hits []map[string]bool) *expected {
	file, paths := dumpFile(chk, name)
	e := &expected{file: file, applied: map[string]int{}, kinds: map[string]int{}, uses: map[string]bool{}, links: map[string]bool{}, blank: map[string]bool{}}
	root := tree(chk.Files[name], nil, "", -1, chk.Info)
	fns := map[string]*sx{} // innermost function of a path
	var visit func(t *node, fn *sx)
	visit = func(t *node, fn *sx) {
		s := paths[t.path]
		fns[t.path] = fn
		switch t.n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			fn = s
		}
		for _, k := range t.kids {
			visit(k, fn)
		}
		var list []*wadv
		for i, a := range as {
			if hits[i][name+":"+t.path] {
				list = append(list, a.adv...)
			}
		}
		if len(list) == 0 {
			return
		}
		e.most = max(e.most, len(list))
		if len(list) > 1 {
			e.multi++
		}
		sort.SliceStable(list, func(i, j int) bool {
			a, b := list[i], list[j]
			na, nb := a.ns, b.ns
			if na == "" {
				na = "\U0010ffff"
			}
			if nb == "" {
				nb = "\U0010ffff"
			}
			if na != nb {
				return na < nb
			}
			return a.order < b.order
		})
		for _, w := range list {
			e.apply(chk, w, t, s, fn)
		}
	}
	visit(root, nil)
	return e
}

func (e *expected) apply(chk *ilib.Checked, w *wadv, t *node, s, fn *sx) {
	e.applied[w.id]++
	e.kinds[w.kind]++
	for _, u := range w.uses {
		e.uses[u] = true
	}
	for _, l := range w.links {
		e.links[l] = true
	}
	lang := func(l string) {
		if l > e.lang {
			e.lang = l
		}
	}
	lang(w.lang)
	holes := map[string]*sx{}
	if fn != nil {
		ft := fn.kid("Type")
		for _, l := range []struct {
			hole string
			ps   *sx
		}{{"ZZARG", ft.kid("Params")}, {"ZZRES", ft.kid("Results")}, {"ZZRECV", fn.kid("Recv")}} {
			if l.ps == nil {
				continue
			}
			for i, p := range l.ps.kids {
				n := l.hole + fmt.Sprint(i)
				if l.hole == "ZZRECV" {
					n = l.hole
				}
				holes[n] = p.kids[0]
			}
		}
	}
	e.ask(chk, w, fn, holes)
	expr := func(text string, imports map[string]string, dot *sx) *sx {
		if dot != nil {
			holes["ZZDOT"] = dot
		}
		out := parseTemplate("stmts", text, imports, holes)
		if len(out) != 1 {
			vh.Infra("template %q", text)
		}
		return out[0].kids[0]
	}
	put := func(at, with *sx) { // keeps the place
		prop := at.prop
		*at = *with
		at.prop = prop
	}
	switch w.kind {
	case "wrap":
		at := s
		if kv, ok := t.n.(*ast.KeyValueExpr); ok {
			_ = kv
			at = s.kid("Value")
		}
		dot := *at
		put(at, expr(w.text, w.imports, &dot))
		if t.parent != nil {
			if cl, ok := t.parent.n.(*ast.CompositeLit); ok {
				if lit, ok := t.n.(*ast.CompositeLit); ok && lit.Type == nil && cl != nil {
					e.bad = "elided literal type"
				}
			}
		}
	case "append":
		var list []*sx
		for _, a := range w.add {
			x := expr(a.text, a.imports, s)
			x.prop = "Args"
			list = append(list, x)
			lang(a.lang)
		}
		if !strings.HasSuffix(s.op, "...") {
			s.kids = append(s.kids, list...)
			return
		}
		e.repack++
		if w.typ.path != "" {
			e.uses[w.typ.path] = true
		}
		last := s.kids[len(s.kids)-1]
		orig := *last
		orig.prop = "Args"
		// func(opts ...T) []T { return append(opts, new...) }(orig...)
		fun := parseTemplate("stmts", "func(opts ...ZZTYPE) []ZZTYPE { return append(opts) }(ZZORIG...)", nil, map[string]*sx{"ZZTYPE": typeSX(w.typ, ""), "ZZORIG": &orig})[0].kids[0]
		done := false
		fun.each(func(k *sx) bool {
			if done {
				return false
			}
			if k.op == "CallExpr" && k.kid("Fun") != nil && k.kid("Fun").op == "n:append" {
				k.kids = append(k.kids, list...)
				done = true
			}
			return true
		})
		put(last, fun)
	case "replace":
		*s.kid("Fun") = sx{op: "q:" + w.path + "." + w.name, prop: "Fun"}
	case "prepend":
		list := parseTemplate("stmts", w.text, w.imports, holes)
		s.kids = append([]*sx{{op: "BlockStmt", prop: "List", kids: list}}, s.kids...)
	case "field":
		st := s.kid("Type")
		fl := st.kid("Fields")
		fl.kids = append(fl.kids, &sx{op: "Field", prop: "List", kids: []*sx{{op: "n:" + w.name, prop: "Names"}, typeSX(w.typ, "Type")}})
	case "decls":
		e.file.kids = append(e.file.kids, parseTemplate("decls", w.text, w.imports, holes)...)
		if len(w.links) > 0 {
			e.blank["unsafe"] = true
		}
	case "blank":
		e.blank[w.path] = true
	case "assign":
		var kids []*sx
		names := s.all("Names")
		for _, k := range s.kids {
			if k.prop != "Values" {
				kids = append(kids, k)
			}
		}
		for range names {
			x := expr(w.text, w.imports, s)
			x.prop = "Values"
			kids = append(kids, x)
		}
		s.kids = kids
		if t.parent != nil {
			if gd, ok := t.parent.n.(*ast.GenDecl); ok && gd.Tok == token.CONST {
				e.bad = "constant"
			}
		}
	}
}

func diffText(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-12)
	return "expected\n" + strings.Join(a[lo:min(len(a), i+12)], "\n") + "\n---- but found\n" + strings.Join(b[lo:min(len(b), i+12)], "\n")
}

// woven is one run of the injector with everything about it.
type woven struct {
	c      *vh.Case
	prog   *ilib.Prog
	files  map[string]string
	as     []*wasp
	setup  ilib.Setup
	orig   *ilib.Checked
	hits   []map[string]bool
	want   map[string]*expected
	res    *ilib.Result
	chk    *ilib.Checked // of the result, nil when it does not compile
	chkErr error
	bad    bool // the aspects do not suit the program
}

func (w *woven) applied() int {
	n := 0
	for _, e := range w.want {
		for _, k := range e.applied {
			n += k
		}
	}
	return n
}

// weave draws a program and aspects and runs the injector.
func weave(c *vh.Case, o ilib.GenOpts, weights map[string]int, tweak func(*weaveGen, *woven)) *woven {
	w := &woven{c: c, prog: ilib.Generate(c.T, o), want: map[string]*expected{}}
	g := newWeaveGen(c, w.prog, ilib.AppPath)
	if g.clash = o.Clash; g.clash {
		g.langs = []string{"go1.18", "go1.20", "go1.21", "go1.22", "go1.23"}
	}
	w.files = w.prog.Files
	w.as = g.aspects(weights)
	if tweak != nil {
		tweak(g, w)
	}
	wc := &weaveCase{Files: w.files, Aspects: aspectsYAML(w.as), Setup: w.setup}
	c.Desc(wc)
	ided := identify(w.files)
	w.hits = matched(c, ided, w.as, w.setup)
	var err error
	w.orig, err = ilib.Check(ilib.AppPath, w.files)
	if err != nil {
		vh.Infra("generated program does not compile: %v\n%s", err, (&ilib.Prog{Files: w.files}).Text())
	}
	for _, n := range (&ilib.Prog{Files: w.files}).Names() {
		w.want[n] = wanted(w.orig, n, w.as, w.hits)
		if w.want[n].bad != "" {
			w.bad = true
		}
	}
	if w.bad {
		return w
	}
	w.res = ilib.Inject(w.files, parseWeave(c, w.as), w.setup)
	for _, e := range w.want {
		if e.refused != "" {
			if w.res.Err == nil {
				c.Violation("weaving succeeds although %s\n%s\n%s", e.refused, aspectsYAML(w.as), (&ilib.Prog{Files: w.res.Files}).Text())
			}
			c.Class("refused")
			w.bad = true
			return w
		}
	}
	if w.res.Err != nil {
		c.Violation("weaving fails: %v", w.res.Err)
	}
	w.chk, w.chkErr = ilib.Check(ilib.AppPath, w.res.Merged(w.files))
	if w.chkErr != nil {
		w.chk = nil
	}
	return w
}

func TestC32_AdviceDoesWhatItSays(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages and 1-6 random aspects with advice of every kind; where they match is learnt from a run with advice that only records; the woven files, parsed and with names resolved by the type checker, are compared with the original ones edited as the documentation of the advice says; non-trivial: advice was applied at two or more places",
		Quick: 1400, Thorough: 5600,
	}, func(c *vh.Case) {
		w := weave(c, ilib.GenOpts{Files: 2, Funcs: 2, Depth: 2, PlainOnly: true, Unformatted: true}, map[string]int{"wrap": 3, "prepend": 2, "append": 2}, nil)
		compareTrees(w)
	})
}

func compareTrees(w *woven) {
	if w.bad {
		w.c.Class("unsuitable")
		return
	}
	if w.chk == nil {
		w.c.Violation("the woven package does not compile: %v\n%s\n=====\n%s", w.chkErr, aspectsYAML(w.as), (&ilib.Prog{Files: w.res.Files}).Text())
	}
	for _, n := range (&ilib.Prog{Files: w.files}).Names() {
		e := w.want[n]
		got, _ := dumpFile(w.chk, n)
		if a, b := e.file.text(), got.text(); a != b {
			w.c.Violation("%s is not woven as the aspects say\n%s\n%s\n=====\n%s", n, aspectsYAML(w.as), diffText(a, b), w.res.Files[n])
		}
		for k, v := range e.kinds {
			for ; v > 0; v-- {
				w.c.Class(k)
			}
		}
		if e.multi > 0 {
			w.c.Class("several at one node")
		}
		if e.repack > 0 {
			w.c.Class("repacked")
		}
	}
	if w.applied() >= 2 {
		w.c.Nontrivial(fmt.Sprint(w.applied(), aspectsYAML(w.as)))
	}
}
