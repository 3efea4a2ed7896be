package inject_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// details writes small packages which have much of what matters to a few kinds of join points: names declared
// together, parameters and results declared together or not named, and types under other names.
type details struct {
	t     *rapid.T
	names []string // declared at the top
	funcs []*detailFn
}

type detailFn struct {
	name      string
	args, ret []typ
}

func (d *details) n(k int) int { return int(rapid.Uint64().Draw(d.t, "d")*0x9E3779B97F4A7C15>>11) % k }
func (d *details) pick(l ...string) string {
	return l[d.n(len(l))]
}

var detailTypes = []struct {
	src string
	typ typ
}{
	{"int", typ{"", "int", false}}, {"*int", typ{"", "int", true}}, {"string", typ{"", "string", false}}, {"error", typ{"", "error", false}},
	{"bool", typ{"", "bool", false}}, {"lib.Client", typ{wLib, "Client", false}}, {"*lib.Client", typ{wLib, "Client", true}},
	{"lib.Store", typ{wLib, "Store", false}}, {"*lib.Store", typ{wLib, "Store", true}}, {"lib.Doer", typ{wLib, "Doer", false}},
	{"*deep.Client", typ{wDeep, "Client", true}}, {"deep.Client", typ{wDeep, "Client", false}}, {"odd.Thing", typ{wOdd, "Thing", false}}, {"*odd.Thing", typ{wOdd, "Thing", true}},
}

// fields writes parameters or results of the types.
func (d *details) fields(prefix string) (string, []typ) {
	var parts []string
	var ts []typ
	named := d.n(3) > 0
	id := 0
	for k := d.n(4); k > 0; k-- {
		t := detailTypes[d.n(len(detailTypes))]
		if d.n(3) == 0 {
			t = detailTypes[d.n(4)]
		}
		if !named {
			parts = append(parts, t.src)
			ts = append(ts, t.typ)
			continue
		}
		var names []string
		for m := 1 + d.n(4); m > 0; m-- {
			id++
			if d.n(8) == 0 {
				names = append(names, "_")
			} else {
				names = append(names, fmt.Sprint(prefix, id))
			}
			ts = append(ts, t.typ)
		}
		parts = append(parts, strings.Join(names, ", ")+" "+t.src)
	}
	return strings.Join(parts, ", "), ts
}

func (d *details) file(n int, imports bool) string {
	var b strings.Builder
	id := func(p string) string { return fmt.Sprintf("%s%d_%d", p, n, len(d.names)) }
	for k := 2 + d.n(5); k > 0; k-- {
		switch d.n(6) {
		case 0, 1: // values
			kw := d.pick("var", "var", "const")
			group := d.n(2) == 0
			specs := 1
			if group {
				specs = 1 + d.n(3)
				fmt.Fprintf(&b, "%s (\n", kw)
			}
			for ; specs > 0; specs-- {
				var names, values []string
				for m := 1 + d.n(4); m > 0; m-- {
					names = append(names, id("v"))
					d.names = append(d.names, names[len(names)-1])
					values = append(values, fmt.Sprint(len(d.names)))
				}
				spec := strings.Join(names, ", ")
				switch {
				case kw == "const" || d.n(2) == 0:
					if d.n(2) == 0 {
						spec += " int"
					}
					spec += " = " + strings.Join(values, ", ")
				default:
					t := detailTypes[d.n(5)]
					if imports {
						t = detailTypes[d.n(len(detailTypes))]
					}
					spec += " " + t.src
				}
				if !group {
					spec = kw + " " + spec
				}
				b.WriteString(spec + "\n")
			}
			if group {
				b.WriteString(")\n")
			}
		case 2, 3, 4: // functions
			if !imports {
				continue
			}
			f := &detailFn{name: id("f")}
			d.names = append(d.names, f.name)
			var args, ret string
			args, f.args = d.fields("p")
			ret, f.ret = d.fields("r")
			d.funcs = append(d.funcs, f)
			recv := ""
			if d.n(4) == 0 {
				recv = "(" + d.pick("", "t ", "_ ") + d.pick("", "*") + "local) "
			}
			fmt.Fprintf(&b, "func %s%s(%s) (%s) {\n", recv, f.name, args, ret)
			if d.n(2) == 0 {
				a, _ := d.fields("q")
				r, ts := d.fields("s")
				if len(ts) > 0 {
					r = "(" + r + ")"
				}
				fmt.Fprintf(&b, "\t_ = func(%s) %s { panic(1) }\n", a, r)
			}
			b.WriteString("\tpanic(0)\n}\n")
		case 5: // calls
			if !imports {
				continue
			}
			name := id("calls")
			d.names = append(d.names, name)
			fmt.Fprintf(&b, "func %s() {\n", name)
			for m := 1 + d.n(4); m > 0; m-- {
				t := d.pick("Same", "SamePtr", "Again", "*Same", "*Again", "lib.Alias", "*lib.Alias", "lib.Client", "*lib.Client", "lib.Store", "Other", "*Other", "Defined", "*deep.Client", "odd.Thing")
				v := fmt.Sprint("x", m)
				fmt.Fprintf(&b, "\tvar %s %s\n", v, t)
				switch {
				case strings.Contains(t, "Defined"):
					fmt.Fprintf(&b, "\t%s.Do(1)\n", v)
				case d.n(3) > 0 || strings.ContainsAny(t, "O") || strings.Contains(t, "Store") || strings.Contains(t, "deep") || strings.Contains(t, "odd"):
					fmt.Fprintf(&b, "\t%s.Do(%d)\n", v, m)
				default:
					fmt.Fprintf(&b, "\t%s.Peek(%d)\n", v, m)
				}
			}
			b.WriteString("}\n")
		}
	}
	return b.String()
}

func (d *details) program() *ilib.Prog {
	p := &ilib.Prog{Package: "detail", Files: map[string]string{}}
	for i := range 1 + d.n(3) {
		imports := d.n(4) > 0
		text := d.file(i, imports)
		if !imports {
			p.Files[fmt.Sprintf("f%d.go", i)] = "package detail\n\n" + text
			continue
		}
		// Only what is used is imported.
		head := "package detail\n\nimport (\n"
		for _, imp := range [][2]string{{"lib", wLib}, {"deep", wDeep}, {"odd", wOdd}} {
			if strings.Contains(text, imp[0]+".") {
				head += fmt.Sprintf("\t%s %q\n", imp[0], imp[1])
			}
		}
		p.Files[fmt.Sprintf("f%d.go", i)] = head + ")\n\n" + text
	}
	p.Files["types.go"] = `package detail

import (
	foo "example.com/w/lib"
)

type local struct{}

type (
	Same    = foo.Client
	SamePtr = *foo.Client
	Again   = Same
	Other   = foo.Store
	Defined struct{ foo.Doer }
)
`
	return p
}

func (d *details) point(path string) *jp {
	other := func() typ { return detailTypes[d.n(len(detailTypes))].typ }
	var f *detailFn
	if len(d.funcs) > 0 {
		f = d.funcs[d.n(len(d.funcs))]
	}
	switch k := d.n(10); {
	case k < 2 && len(d.names) > 0:
		return &jp{kind: "declaration-of", path: path, name: d.names[d.n(len(d.names))]}
	case k < 5 && f != nil:
		// The signature, or a similar one.
		args, ret := append([]typ(nil), f.args...), append([]typ(nil), f.ret...)
		which := &args
		if d.n(2) == 0 {
			which = &ret
		}
		switch l := *which; d.n(8) {
		case 0:
			if len(l) > 0 {
				i := d.n(len(l))
				*which = append(l[:i:i], l[i+1:]...)
			}
		case 1:
			if len(l) > 0 {
				l[d.n(len(l))] = other()
			}
		case 2:
			if len(l) > 1 {
				i := d.n(len(l) - 1)
				l[i], l[i+1] = l[i+1], l[i]
			}
		case 3:
			*which = append(l, other())
		case 4:
			if len(l) > 0 {
				i := d.n(len(l))
				l[i].ptr = !l[i].ptr
			}
		}
		return &jp{kind: "function", opts: []fopt{{kind: "signature", args: args, ret: ret}}}
	case k < 7:
		o := fopt{kind: "signature-contains"}
		for m := d.n(3); m > 0; m-- {
			o.args = append(o.args, other())
		}
		for m := d.n(3); m > 0; m-- {
			o.ret = append(o.ret, other())
		}
		if len(o.args)+len(o.ret) == 0 {
			o.args = append(o.args, other())
		}
		return &jp{kind: "function", opts: []fopt{o}}
	case k < 9:
		return &jp{kind: "method-call", typ: []typ{{wLib, "Client", false}, {wLib, "Client", false}, {wLib, "Store", false}, {wDeep, "Client", false}, {wOdd, "Thing", false}}[d.n(5)],
			name: d.pick("Do", "Do", "Peek"), match: d.pick("", "any", "pointer-only", "value-only")}
	}
	var segs []string
	for _, s := range strings.Split(path, "/") {
		switch d.n(6) {
		case 0:
			segs = append(segs, "**")
		case 1:
			segs = append(segs, "**", s)
		case 2:
			segs = append(segs, "*")
		case 3:
		default:
			segs = append(segs, s)
		}
	}
	for m := d.n(3); m > 0; m-- {
		segs = append(segs, d.pick("**", "**", "*"))
	}
	if len(segs) == 0 {
		segs = []string{"**"}
	}
	return &jp{kind: "package-filter", pat: strings.Join(segs, "/")}
}

func TestC09_Details(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "packages full of values declared together, functions whose parameters and results are declared together, apart or without names, and methods called on values of types under other names; join points on these and on near misses (signatures with one type more, less, changed or swapped), and patterns of import paths derived from the actual one; compared as for JoinPointsMatch; non-trivial: a join point had to match a node",
		Quick: 1200, Thorough: 6000,
	}, func(c *vh.Case) {
		d := &details{t: c.T}
		p := d.program()
		s := setting(c)
		var jps []*jp
		for k := 5 + d.n(6); k > 0; k-- {
			jps = append(jps, d.point(s.ImportPath))
		}
		matchProgram(c, p, s, jps)
	})
}

func TestC06_DetailsNotSuppressed(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "the packages and join points of the details test of C09, woven with the filters and without as for NoMatchIsSuppressed; non-trivial: something matched, and a filter excluded the package or a file for one of the aspects",
		Quick: 900, Thorough: 4500,
	}, func(c *vh.Case) {
		d := &details{t: c.T}
		p := d.program()
		s := setting(c)
		var jps []*jp
		for k := 2 + d.n(4); k > 0; k-- {
			jps = append(jps, d.point(s.ImportPath))
		}
		suppressedTest(c, p, s, jps, d.n(12) == 0)
	})
}
