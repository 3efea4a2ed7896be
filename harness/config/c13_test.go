package config_test

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/DataDog/orchestrion/internal/fingerprint"
	"github.com/DataDog/orchestrion/internal/injector/aspect"
	"github.com/DataDog/orchestrion/internal/injector/config"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"golang.org/x/tools/go/packages"
	"pgregory.net/rapid"
)

// loaded is the outcome of loading a configuration.
type loaded struct {
	Aspects []*aspect.Aspect
	Err     error
	Panic   any
}

// load reads the configuration of a package that has the given files.
func load(files map[string]string, validate bool) (res loaded) {
	dir, err := os.MkdirTemp("", "cfg")
	vh.Must(err)
	defer os.RemoveAll(dir)
	for name, text := range files {
		vh.Must(os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755))
		vh.Must(os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644))
	}
	defer func() {
		if p := recover(); p != nil {
			res = loaded{Panic: p}
		}
	}()
	find := func(_ context.Context, _ string, patterns ...string) ([]*packages.Package, error) {
		var out []*packages.Package
		for range patterns {
			out = append(out, &packages.Package{ID: "example.com/conf", PkgPath: "example.com/conf", Name: "conf", GoFiles: []string{filepath.Join(dir, "conf.go")}})
		}
		return out, nil
	}
	cfg, err := config.NewLoader(find, dir, validate).Load(context.Background())
	if err != nil {
		return loaded{Err: err}
	}
	return loaded{Aspects: cfg.Aspects()}
}

func print1(as []*aspect.Aspect) (res string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return fingerprint.Fingerprint(fingerprint.List[*aspect.Aspect](as))
}

func prints(c *vh.Case, as []*aspect.Aspect) string {
	var wg sync.WaitGroup
	var out [3]string
	var errs [3]error
	for i := range out {
		wg.Add(1)
		go func() { defer wg.Done(); out[i], errs[i] = print1(as) }()
	}
	wg.Wait()
	for i := range out {
		if errs[i] != nil {
			c.Violation("fingerprinting fails: %v", errs[i])
		}
		if out[i] != out[0] {
			c.Violation("one configuration has two fingerprints: %s and %s", out[0], out[i])
		}
	}
	return out[0]
}

func TestC13_Apart(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "a document and one that was edited, both well-formed, that mean something different",
		Quick: 5000,
	}, func(c *vh.Case) {
		g := &gen{t: c.T}
		g.odd = g.pct(35)
		a := g.document(2)
		b := clone(a).(obj)
		var what []string
		for i := g.n(3); i >= 0; i-- {
			what = append(what, g.edit(&b))
		}
		desc := map[string]any{"a": plain(a), "b": plain(b), "edits": what}
		c.Desc(desc)
		if !conforms(a) || !wellFormed(a) {
			vh.Infra("generated a document that is not valid: %s: %v", canon(a), schema.Validate(plain(a)))
		}
		if !conforms(b) || !wellFormed(b) {
			return
		}
		ta, tb := g.render(a), g.render(b)
		la, lb := load(map[string]string{"orchestrion.yml": ta}, false), load(map[string]string{"orchestrion.yml": tb}, false)
		if la.Aspects == nil || lb.Aspects == nil {
			c.Class("not loaded") // C16 and C15 judge that
			return
		}
		fa, fb := prints(c, la.Aspects), prints(c, lb.Aspects)
		switch {
		case meaning(a, true) != meaning(b, true):
			c.Nontrivial(canon(a) + canon(b))
			c.Class("apart")
			if fa == fb {
				c.Violation("configurations that differ (%s) have the same fingerprint", strings.Join(what, "; "))
			}
		case meaning(a, false) == meaning(b, false):
			c.Class("same")
			if fa != fb {
				c.Violation("configurations with the same meaning (%s) have different fingerprints", strings.Join(what, "; "))
			}
		default:
			c.Class("open")
		}
	})
}

// TestC13_Leaves looks at configurations with one join point or advice in which a single value differs.
func TestC13_Leaves(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "a configuration with one join point or advice of any kind, and the same with a single value of it replaced or left out, that mean something different",
		Quick: 5000, Thorough: 25000,
	}, func(c *vh.Case) {
		g := &gen{t: c.T}
		jp, adv := obj{{"test-main", true}}, obj{{"add-blank-import", "fmt"}}
		var part *obj
		if g.pct(60) {
			jp = g.joinPoint(g.n(2))
			part = &jp
		} else {
			adv = g.advice()
			part = &adv
		}
		doc := func() obj {
			return obj{{"meta", obj{{"name", "x"}, {"description", "y"}}}, {"aspects", list{obj{{"id", "x"}, {"join-point", jp}, {"advice", list{adv}}}}}}
		}
		a := clone(doc()).(obj)
		var all []slot
		slots(any(*part), func(any) {}, "", &all)
		s := all[1+g.n(len(all)-1)]
		was := canon(s.get())
		switch v := s.get().(type) {
		case bool:
			s.set(!v)
		case int:
			s.set(v + []int{1, -1, 1 << 32}[g.n(3)])
		case string:
			switch {
			case s.key == "match":
				s.set(g.pick("any", "pointer-only", "value-only", "functions-only", "methods-only"))
			case g.pct(30):
				s.set(v + g.pick("x", "1", "/v2", " "))
			case g.pct(30) && strings.HasPrefix(v, "*"):
				s.set(v[1:])
			case g.pct(30):
				s.set("*" + v)
			case g.pct(30) && v != "":
				s.set(v[:g.n(len(v))])
			case g.pct(50):
				s.set(g.typeName(true))
			default:
				s.set(g.pick("", "a", "b", "New", "F", "fmt", "net/http", "error", "any", "interface{}", "int", "default"))
			}
		case obj:
			if len(v) == 0 {
				return
			}
			k := g.n(len(v))
			s.set(append(append(obj{}, v[:k]...), v[k+1:]...))
		case list:
			if len(v) == 0 {
				return
			}
			k := g.n(len(v))
			if g.pct(50) {
				s.set(append(append(list{}, v[:k]...), v[k+1:]...))
			} else {
				s.set(append(append(list{}, v...), clone(v[k])))
			}
		}
		b := doc()
		what := fmt.Sprintf("%s: %s is replaced", s.key, was)
		c.Desc(map[string]any{"a": plain(a), "b": plain(b), "change": what})
		if !conforms(a) || !wellFormed(a) || !conforms(b) || !wellFormed(b) || meaning(a, true) == meaning(b, true) {
			return
		}
		la, lb := load(map[string]string{"orchestrion.yml": g.render(a)}, false), load(map[string]string{"orchestrion.yml": g.render(b)}, false)
		if la.Aspects == nil || lb.Aspects == nil {
			c.Class("not loaded")
			return
		}
		c.Nontrivial(canon(a) + canon(b))
		c.Class((*part)[0].K)
		if prints(c, la.Aspects) == prints(c, lb.Aspects) {
			c.Violation("configurations that differ (%s) have the same fingerprint", what)
		}
	})
}

func TestC13_Same(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "two texts of one configuration, in a different style or divided over several files",
		Quick: 1000,
	}, func(c *vh.Case) {
		g := &gen{t: c.T}
		g.odd = g.pct(20)
		a := g.document(4)
		b := clone(a).(obj)
		// spell out or leave out what is the default
		var all []slot
		slots(b, nil, "", &all)
		for _, s := range all {
			o, ok := s.get().(obj)
			if !ok || s.set == nil {
				continue
			}
			add := func(k string, v any) {
				if _, dup := o.get(k); !dup && g.pct(50) {
					o = append(append(obj{}, o...), kv{k, v})
				}
			}
			switch s.key {
			case "signature", "signature-contains":
				add("args", list{})
				add("returns", list{})
			case "method-call":
				add("match", "any")
			case "struct-literal":
				if o.str("field") == "" {
					add("match", "any")
				}
			case "prepend-statements":
				add("order", 0)
				add("namespace", "")
				add("imports", obj{})
			case "wrap-expression", "assign-value", "inject-declarations":
				add("imports", obj{})
				if s.key == "inject-declarations" {
					add("links", list{})
				}
			case "package-filter":
				add("root", false)
			case "aspects":
				add("tracer-internal", false)
			}
			s.set(o)
		}
		b = g.shuffleKeys(b).(obj)
		if meaning(a, false) != meaning(b, false) {
			vh.Infra("the reference tells the same documents apart: %s %s", canon(a), canon(b))
		}
		ta := map[string]string{"orchestrion.yml": g.render(a)}
		tb := map[string]string{}
		as, _ := b.get("aspects")
		l := as.(list)
		if k := g.n(len(l)); k > 0 && g.pct(60) {
			part := obj{b[0], {"aspects", l[:k]}}
			if b[0].K != "meta" {
				part[0] = b[1]
			}
			rest := obj{part[0], {"extends", list{"./part.yml"}}, {"aspects", l[k:]}}
			tb["part.yml"] = g.render(part)
			tb["orchestrion.yml"] = g.render(rest)
			c.Class("divided")
		} else {
			tb["orchestrion.yml"] = g.render(b)
		}
		c.Desc(map[string]any{"a": ta, "b": tb})
		la, lb := load(ta, g.pct(50)), load(tb, g.pct(50))
		if la.Aspects == nil || lb.Aspects == nil {
			c.Class("not loaded")
			return
		}
		c.Nontrivial(canon(a) + canon(b))
		if fa, fb := prints(c, la.Aspects), prints(c, lb.Aspects); fa != fb {
			c.Violation("two forms of one configuration have different fingerprints")
		}
	})
}

var _ = rapid.Just[int]

// TestC13_Boundaries looks at neighbouring texts: no way to divide a text over them has the fingerprint of another one.
func TestC13_Boundaries(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "two configurations that divide the same characters differently over neighbouring texts",
		Quick: 600,
	}, func(c *vh.Case) {
		g := &gen{t: c.T}
		k1, k2 := g.pick("a", "b", "k"), g.pick("x", "y", "z")
		sep := g.pick("", "\x03\x012\x02", "\x03\x03"+k1+"\x03\x012\x02\x01"+k2+"\x02\x010\x02", "\x03\x031\x02", ", ", "\n", "\x00", "\",\"", "\x03\x012\x02", "\x03\x011\x02")
		x, y, z := g.pick("p", "q", ""), g.pick("q", "", "1"), g.pick("r", "s")
		var a, b any
		kind := g.n(6)
		make2 := func(s, t string) obj {
			switch kind {
			case 0:
				return obj{{"configuration", obj{{k1, s}, {k2, t}}}}
			case 1:
				return obj{{"one-of", list{obj{{"import-path", "i" + s}}, obj{{"import-path", "i" + t}}}}}
			case 2:
				return obj{{"inject-declarations", obj{{"template", k1 + ".x(); " + k2 + ".y()"}, {"imports", obj{{k1, "i" + s}, {k2, "i" + t}}}}}}
			case 3:
				return obj{{"inject-declarations", obj{{"template", "x"}, {"links", list{"i" + s, "j" + t}}}}}
			case 4:
				return obj{{"append-args", obj{{"type", "any"}, {"values", list{obj{{"template", "i" + s}}, obj{{"template", "i" + t}}}}}}}
			}
			return obj{{"configuration", obj{{"k" + s, "v" + t}}}}
		}
		a, b = make2(x+sep+y, z), make2(x, y+sep+z)
		doc := func(v any) obj {
			o := v.(obj)
			as := obj{{"id", "x"}, {"join-point", obj{{"test-main", true}}}, {"advice", list{obj{{"add-blank-import", "fmt"}}}}}
			if k := o[0].K; k == "configuration" || k == "one-of" {
				as[1].V = o
			} else {
				as[2].V = list{o}
			}
			return obj{{"meta", obj{{"name", "x"}, {"description", "y"}}}, {"aspects", list{as}}}
		}
		da, db := doc(a), doc(b)
		ta, tb := g.render(da), g.render(db)
		c.Desc(map[string]any{"a": ta, "b": tb})
		la, lb := load(map[string]string{"orchestrion.yml": ta}, false), load(map[string]string{"orchestrion.yml": tb}, false)
		if la.Aspects == nil || lb.Aspects == nil {
			c.Class("not loaded")
			return
		}
		if canon(da) == canon(db) || strings.TrimSpace(canon(da)) == strings.TrimSpace(canon(db)) {
			return
		}
		if kind == 1 || kind == 3 || kind == 4 {
			if meaning(da, true) == meaning(db, true) {
				return
			}
		}
		c.Nontrivial(canon(da) + canon(db))
		if prints(c, la.Aspects) == prints(c, lb.Aspects) {
			c.Violation("configurations that divide their texts differently have the same fingerprint")
		}
	})
}
