package inject_test

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/DataDog/orchestrion/internal/fingerprint"
	"github.com/DataDog/orchestrion/internal/injector/aspect"
	"github.com/DataDog/orchestrion/internal/injector/aspect/advice"
	actx "github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/aspect/join"
	"github.com/DataDog/orchestrion/internal/injector/aspect/may"
	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"github.com/dave/dst"
	"pgregory.net/rapid"
)

// recorder is advice that notes where it is applied and changes nothing.
type recorder struct {
	mu  *sync.Mutex
	got map[string]bool // file:path
}

func newRecorder() *recorder { return &recorder{&sync.Mutex{}, map[string]bool{}} }

func (r *recorder) AddedImports() []string { return nil }
func (r *recorder) Hash(h *fingerprint.Hasher) error {
	return h.Named("recorder")
}

func (r *recorder) Apply(ctx actx.AdviceContext) (bool, error) {
	p := ""
	for c := ctx.Chain(); c != nil && c.Parent() != nil; c = c.Parent() {
		s := "." + c.PropertyName()
		if c.Index() >= 0 {
			s += fmt.Sprintf("[%d]", c.Index())
		}
		p = s + p
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.got[fileOf(ctx.File())+":"+p] = true
	return false, nil
}

// fileOf reads the name of the file from the declaration identify put in it.
func fileOf(f *dst.File) string {
	for i := len(f.Decls) - 1; i >= 0; i-- {
		if gd, ok := f.Decls[i].(*dst.GenDecl); ok && len(gd.Specs) == 1 {
			if vs, ok := gd.Specs[0].(*dst.ValueSpec); ok && strings.HasPrefix(vs.Names[0].Name, "zzID_") {
				return strings.TrimPrefix(vs.Names[0].Name, "zzID_") + ".go"
			}
		}
	}
	return "?"
}

// identify adds to each file a declaration with its name.
func identify(files map[string]string) map[string]string {
	out := map[string]string{}
	for n, s := range files {
		out[n] = s + "\nvar zzID_" + strings.TrimSuffix(n, ".go") + " int\n"
	}
	return out
}

// always lifts the checks made before a package and a file are looked at.
type always struct{ join.Point }

func (always) PackageMayMatch(*may.PackageContext) may.MatchType { return may.Match }
func (always) FileMayMatch(*may.FileContext) may.MatchType       { return may.Match }

// aspectsFor decodes the join points and gives each a recorder.
func aspectsFor(c *vh.Case, jps []*jp) ([]*aspect.Aspect, []*recorder) {
	var b strings.Builder
	b.WriteString("aspects:\n")
	for i, j := range jps {
		fmt.Fprintf(&b, "  - id: A%d\n    join-point: %s\n    advice: [{assign-value: {template: x}}]\n", i, j.yaml())
	}
	as, err := ilib.ParseAspects(b.String())
	if err != nil {
		c.Violation("a documented join point is refused: %v\n%s", err, b.String())
	}
	recs := make([]*recorder, len(as))
	for i := range as {
		recs[i] = newRecorder()
		as[i].Advice = []advice.Advice{recs[i]}
	}
	return as, recs
}

type matchCase struct {
	Files      map[string]string
	ImportPath string
	TestMain   bool
	JoinPoints []string
}

var importPaths = []string{ilib.AppPath, ilib.AppPath, ilib.AppPath, "example.com/w/app/internal/x", "other.org/y/app", "example.com/wx/app", "example.com/w"}

var markComments = []string{"//verif:mark", "//verif:mark with args", "//verif:marker", "// verif:mark", "/*verif:mark*/", "//verif:mark\tx", "//verif:other k:v"}

func drawProgram(c *vh.Case, o ilib.GenOpts) *ilib.Prog {
	return ilib.Generate(c.T, o)
}

// setting draws where a program lives and how it is woven.
func setting(c *vh.Case) ilib.Setup {
	return ilib.Setup{
		ImportPath: rapid.SampledFrom(importPaths).Draw(c.T, "path"),
		TestMain:   rapid.IntRange(0, 5).Draw(c.T, "tm") == 0,
		Config:     map[string]string{"httpmode": rapid.SampledFrom([]string{"wrap", "report"}).Draw(c.T, "mode")},
	}
}

func envs(c *vh.Case, files map[string]string, p *ilib.Prog, s ilib.Setup) map[string]*env {
	chk, err := ilib.Check(s.ImportPath, files)
	if err != nil {
		vh.Infra("generated program does not compile: %v\n%s", err, (&ilib.Prog{Files: files}).Text())
	}
	out := map[string]*env{}
	for n, f := range chk.Files {
		out[n] = &env{path: s.ImportPath, pkg: p.Package, testMain: s.TestMain, config: s.Config, root: "example.com/w", chk: chk, file: f, src: files[n]}
	}
	return out
}

func inWorld() {
	ilib.World()
	vh.Must(os.Chdir(ilib.WorldDir))
}

func TestC09_JoinPointsMatch(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "a random type-checked package (imports under aliases, twice, dot, shadowed; methods, generics, closures, literals, grouped parameters), random join points of every kind and nesting read from YAML; weaving is run with an advice that only records the nodes it is given, and the set is compared with a matcher over go/ast and go/types; non-trivial: at least one node had to match by a join point that does not match everywhere",
		Quick: 1800, Thorough: 7200,
	}, func(c *vh.Case) {
		matchTest(c, func(g *jpGen) []*jp {
			var jps []*jp
			for k := 6 + g.n(6); k > 0; k-- {
				jps = append(jps, g.point(2))
			}
			return jps
		}, ilib.GenOpts{Files: 2, Funcs: 2, Depth: 2, Shadow: shadowNames, Comments: markComments, CommentPct: 8, Unformatted: true, Indirect: true})
	})
}

func TestC10_Directives(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages with directive comments, lookalikes and other comments above declarations, specs and statements of every kind; join points directive, alone and combined with others; the nodes woven are compared with those the documentation of the directive join point names; non-trivial: at least one node had to match",
		Quick: 1200, Thorough: 4800,
	}, func(c *vh.Case) {
		matchTest(c, func(g *jpGen) []*jp {
			var jps []*jp
			for k := 2 + g.n(3); k > 0; k-- {
				d := &jp{kind: "directive", name: g.pick([]string{"verif:mark", "verif:mark", "verif:other", "verif:ma"})}
				if g.n(2) == 0 {
					d = &jp{kind: "all-of", kids: []*jp{d, g.point(1)}}
				}
				jps = append(jps, d)
			}
			return jps
		}, ilib.GenOpts{Files: 2, Funcs: 2, Depth: 2, Comments: markComments, CommentPct: 40, TrailingPct: 10, Unformatted: true})
	})
}

func matchTest(c *vh.Case, points func(*jpGen) []*jp, o ilib.GenOpts) {
	p := drawProgram(c, o)
	s := setting(c)
	matchProgram(c, p, s, points(newJPGen(c.T, p, s.ImportPath)))
}

func matchProgram(c *vh.Case, p *ilib.Prog, s ilib.Setup, jps []*jp) {
	files := identify(p.Files)
	mc := &matchCase{Files: files, ImportPath: s.ImportPath, TestMain: s.TestMain}
	for _, j := range jps {
		mc.JoinPoints = append(mc.JoinPoints, j.yaml())
	}
	c.Desc(mc)
	as, recs := aspectsFor(c, jps)
	for _, a := range as {
		a.JoinPoint = always{a.JoinPoint}
	}
	res := ilib.Inject(files, as, s)
	if res.Err != nil {
		c.Violation("weaving fails: %v", res.Err)
	}
	es := envs(c, files, p, s)
	for n, e := range es {
		root := tree(e.file, nil, "", -1, e.chk.Info)
		root.each(func(t *node) {
			ig := e.ignored(t)
			for i, j := range jps {
				want := e.matches(j, t).and(ig.not())
				got := recs[i].got[n+":"+t.path]
				if want == yes && !got {
					c.Violation("%s\ndoes not match %T at %s", j.yaml(), t.n, e.chk.Fset.PositionFor(t.n.Pos(), false))
				}
				if want == no && got {
					c.Violation("%s\nmatches %T at %s", j.yaml(), t.n, e.chk.Fset.PositionFor(t.n.Pos(), false))
				}
				if want == yes {
					c.Class(j.kind)
					if t.n != e.file {
						switch j.kind {
						case "not", "import-path", "test-main", "package-name", "package-filter", "configuration":
						default:
							c.Nontrivial(fmt.Sprint(mc.JoinPoints))
						}
					}
				}
				delete(recs[i].got, n+":"+t.path)
			}
		})
	}
	for i, r := range recs {
		for k := range r.got {
			c.Violation("%s\nmatches something that is not in the source: %s", jps[i].yaml(), k)
		}
	}
}

var ignoreComments = []string{"//orchestrion:ignore", "//orchestrion:ignore because", "//dd:ignore", "//orchestrion:ignored", "// orchestrion:ignore", "/*orchestrion:ignore*/", "//verif:mark", "//orchestrion:other"}

func TestC05_Ignore(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages with ignore directives (and lookalikes) above the package clause, declarations, specs, fields and statements of every kind; aspects that match every node; the nodes reached must be exactly those not inside of something that carries the directive; non-trivial: some nodes were excluded and some were not",
		Quick: 1400, Thorough: 5600,
	}, func(c *vh.Case) {
		p := drawProgram(c, ilib.GenOpts{Files: 2, Funcs: 2, Depth: 2, Shadow: shadowNames, Comments: ignoreComments, CommentPct: 15, TrailingPct: 6, Unformatted: true})
		if rapid.IntRange(0, 9).Draw(c.T, "whole") == 0 {
			n := rapid.SampledFrom(p.Names()).Draw(c.T, "file")
			i := strings.Index(p.Files[n], "package "+p.Package)
			p.Files[n] = p.Files[n][:i] + rapid.SampledFrom(ignoreComments).Draw(c.T, "c") + "\n" + p.Files[n][i:]
		}
		s := setting(c)
		files := identify(p.Files)
		jps := []*jp{{kind: "not", kids: []*jp{{kind: "import-path", name: "nowhere"}}}}
		c.Desc(&matchCase{Files: files, ImportPath: s.ImportPath})
		as, recs := aspectsFor(c, jps)
		res := ilib.Inject(files, as, s)
		if res.Err != nil {
			c.Violation("weaving fails: %v", res.Err)
		}
		excluded, reached := 0, 0
		for n, e := range envs(c, files, p, s) {
			root := tree(e.file, nil, "", -1, e.chk.Info)
			root.each(func(t *node) {
				ig := e.ignored(t)
				got := recs[0].got[n+":"+t.path]
				pos := e.chk.Fset.PositionFor(t.n.Pos(), false)
				if ig == yes && got {
					c.Violation("%T at %s is inside of something that is to be ignored, but aspects are applied to it", t.n, pos)
				}
				if ig == no && !got {
					c.Violation("%T at %s is not ignored, but aspects are not applied to it", t.n, pos)
				}
				switch ig {
				case yes:
					excluded++
				case no:
					reached++
				}
			})
		}
		if excluded > 0 && reached > 0 {
			c.Nontrivial(fmt.Sprint(excluded, reached))
		}
	})
}

func TestC06_NoMatchIsSuppressed(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages of several files (some of them large) and random join points; the nodes woven with the package and file filters are compared with the nodes woven when every join point claims that it may match; non-trivial: something matched, and a filter excluded the package or a file for one of the aspects",
		Quick: 1400, Thorough: 5600,
	}, func(c *vh.Case) {
		p := drawProgram(c, ilib.GenOpts{Files: 3, Funcs: 2, Depth: 2, Shadow: shadowNames, Comments: markComments, CommentPct: 8, Unformatted: true, Indirect: true})
		s := setting(c)
		g := newJPGen(c.T, p, s.ImportPath)
		var jps []*jp
		for k := 1 + g.n(4); k > 0; k-- {
			jps = append(jps, g.point(3))
		}
		suppressedTest(c, p, s, jps, g.n(12) == 0)
	})
}

func suppressedTest(c *vh.Case, p *ilib.Prog, s ilib.Setup, jps []*jp, large bool) {
	files := identify(p.Files)
	mc := &matchCase{Files: files, ImportPath: s.ImportPath, TestMain: s.TestMain}
	for _, j := range jps {
		mc.JoinPoints = append(mc.JoinPoints, j.yaml())
	}
	c.Desc(mc)
	woven := map[string]string{}
	for n, src := range files {
		woven[n] = src
	}
	if large {
		n := p.Names()[len(files)/2]
		woven[n] += "// " + strings.Repeat("x", 600<<10) + "\n"
	}
	as, recs := aspectsFor(c, jps)
	res := ilib.Inject(woven, as, s)
	as2, recs2 := aspectsFor(c, jps)
	for _, a := range as2 {
		a.JoinPoint = always{a.JoinPoint}
	}
	res2 := ilib.Inject(woven, as2, s)
	if res.Err != nil || res2.Err != nil {
		c.Violation("weaving fails: %v / %v", res.Err, res2.Err)
	}
	imported := ilib.ImportsOf(files)
	hits, filtered := 0, false
	for i := range recs {
		hits += len(recs2[i].got)
		for _, k := range sorted(recs2[i].got) {
			if !recs[i].got[k] {
				if key := indirect(jps[i], imported, s.ImportPath); key != "" && vh.Known("C06", key) {
					continue
				}
				c.Violation("%s\nmatches %s, but the package or the file is skipped", jps[i].yaml(), k)
			}
		}
		for k := range recs[i].got {
			if !recs2[i].got[k] {
				c.Violation("%s\nmatches %s only when filters are used", jps[i].yaml(), k)
			}
		}
		ctx := &may.PackageContext{ImportPath: s.ImportPath, ImportMap: imported, TestMain: s.TestMain}
		if as[i].JoinPoint.PackageMayMatch(ctx) == may.NeverMatch {
			c.Class("package filtered")
			filtered = true
		}
		for _, src := range files {
			if as[i].JoinPoint.FileMayMatch(&may.FileContext{FileContent: []byte(src), PackageName: p.Package}) == may.NeverMatch {
				c.Class("file filtered")
				filtered = true
			}
		}
	}
	if hits > 0 && filtered {
		c.Nontrivial(fmt.Sprint(mc.JoinPoints))
	}
}

// indirect names the recorded finding that a join point may run into: the type
// of a method call's receiver is from a package that is not directly imported.
func indirect(j *jp, imported map[string]string, self string) string {
	if j.kind == "method-call" {
		if _, ok := imported[j.typ.path]; !ok && j.typ.path != self {
			return "method-call-indirect"
		}
	}
	for _, k := range j.kids {
		if r := indirect(k, imported, self); r != "" {
			return r
		}
	}
	return ""
}

func sorted(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
