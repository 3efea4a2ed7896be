package inject_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/injector/aspect"
	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

func set(list []string) map[string]bool {
	out := map[string]bool{}
	for _, s := range list {
		out[s] = true
	}
	return out
}

func TestC33_AddedPackagesAreDeclared(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages woven with random aspects that import and link packages in every way advice can; every package that the woven files import or refer to and the package did not import is announced by the aspects that were given, together and for the aspects that were applied alone; non-trivial: a package was added",
		Quick: 1000, Thorough: 4000,
	}, func(c *vh.Case) {
		w := weave(c, ilib.GenOpts{Files: 2, Funcs: 2, Depth: 1, Unformatted: true}, map[string]int{"wrap": 2, "append": 2, "field": 2, "decl": 2, "blank": 2}, nil)
		if w.bad {
			return
		}
		as := parseWeave(c, w.as)
		var applied []*aspect.Aspect
		for i, a := range as {
			if len(w.hits[i]) > 0 {
				applied = append(applied, a)
			}
		}
		imported := ilib.ImportsOf(w.files)
		added := map[string]bool{}
		for _, refs := range w.res.Refs {
			for p := range refs {
				added[p] = true
			}
		}
		for p := range ilib.ImportsOf(w.res.Files) {
			added[p] = true
		}
		delete(added, "unsafe")
		news := 0
		for _, list := range [][]*aspect.Aspect{as, applied} {
			declared := set(aspect.InjectedPaths(list))
			for _, p := range keysOf(added) {
				if _, ok := imported[p]; ok {
					continue
				}
				news++
				if !declared[p] {
					c.Violation("%s is added to the package, but the aspects announce only %v\n%s", p, keysOf(declared), aspectsYAML(w.as))
				}
			}
		}
		for i := range as {
			for _, a := range w.as[i].adv {
				c.Class(a.kind)
			}
		}
		if news > 0 {
			c.Nontrivial(fmt.Sprint(keysOf(added), aspectsYAML(w.as)))
		}
	})
}

func TestC33_OnlyImportedPackagesAreLeftOut(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages and random join points of every kind and nesting, each with advice that adds some of the packages its join point names; where a join point matches, the packages its aspect does not announce are imported by the package already; non-trivial: a join point matched and left a package out",
		Quick: 1400, Thorough: 5600,
	}, func(c *vh.Case) {
		p := drawProgram(c, ilib.GenOpts{Files: 2, Funcs: 2, Depth: 2, Shadow: shadowNames, Comments: markComments, CommentPct: 8, Unformatted: true, Indirect: true})
		s := setting(c)
		g := newJPGen(c.T, p, s.ImportPath)
		var jps []*jp
		for k := 4 + g.n(6); k > 0; k-- {
			jps = append(jps, g.point(3))
		}
		files := identify(p.Files)
		mc := &matchCase{Files: files, ImportPath: s.ImportPath, TestMain: s.TestMain}
		for _, j := range jps {
			mc.JoinPoints = append(mc.JoinPoints, j.yaml())
		}
		c.Desc(mc)
		as, recs := aspectsFor(c, jps)
		if res := ilib.Inject(files, as, s); res.Err != nil {
			c.Violation("weaving fails: %v", res.Err)
		}
		imported := ilib.ImportsOf(files)
		for i, a := range as {
			if len(recs[i].got) == 0 {
				continue
			}
			for _, path := range g.paths() {
				b, err := ilib.ParseAspects("aspects:\n  - id: B\n    join-point: " + jps[i].yaml() + "\n    advice: [{add-blank-import: " + path + "}]\n")
				vh.Must(err)
				if got := b[0].AddedImports(); len(got) == 1 && got[0] == path {
					continue
				} else if len(got) != 0 {
					c.Violation("advice that imports %q announces %q", path, got)
				}
				c.Class("left out")
				c.Nontrivial(fmt.Sprint(mc.JoinPoints))
				if _, ok := imported[path]; !ok && path != s.ImportPath && path != "unsafe" {
					c.Violation("%s\nmatches %s, where %q is not imported, but the aspect does not announce that it adds it", jps[i].yaml(), strings.Join(sorted(recs[i].got), " "), path)
				}
			}
			_ = a
		}
	})
}

// paths lists the packages join points may name.
func (g *jpGen) paths() []string {
	return append([]string{g.path}, wLib, "example.com/w/deep/lib", "example.com/w/odd.v2", wInst, wInst3, wHooks, "fmt", "context", "errors", "io", "strings", "net/http", "sync", "sort", "log", "os", "time", "unsafe")
}
