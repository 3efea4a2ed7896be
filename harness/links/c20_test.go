package links_test

import (
	"encoding/json"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// draw makes a number of packages that import each other in the order of their numbers. Injected imports
// respect the order (there are no cycles), links do not.
func draw(g *gen, dir, bin string) *sim {
	s := &sim{dir: dir, bin: bin, archive: map[string]string{}, target: -1}
	n := 3 + g.n(7)
	dense := 15 + g.n(35)
	for i := range n {
		p := &pkg{Path: fmt.Sprintf("%s/p%d", mod, i)}
		if i == 0 {
			p.Path, p.Main = mod+"/cmd", true
		}
		for j := i + 1; j < n; j++ {
			if g.pct(dense) {
				p.Imports = append(p.Imports, j)
			}
		}
		s.pkgs = append(s.pkgs, p)
	}
	inject, link := g.n(50), g.n(50)
	for i, p := range s.pkgs {
		if !g.pct(60) {
			continue
		}
		for j := i + 1; j < n; j++ {
			if g.pct(inject) {
				p.Inject = append(p.Inject, j)
			}
		}
		p.LinksFirst, p.Split = g.pct(40), g.pct(30)
		for j := 1; j < n; j++ {
			if j != i && g.pct(link) {
				p.Links = append(p.Links, j)
			}
		}
	}
	return s
}

// common checks what holds for all commands.
func (s *sim) common(c *vh.Case, what string, st *step, err error) bool {
	if err != nil {
		return false
	}
	if st.Problem != "" {
		c.Violation("%s: %s", what, st.Problem)
	}
	for p, a := range st.Before {
		if st.After[p] != a {
			c.Violation("%s: the go command chose %q for %s, after interception it is %q", what, a, p, st.After[p])
		}
	}
	seen := map[string]bool{}
	for _, p := range st.Synth {
		if seen[p] {
			c.Violation("%s: the generated sources import %s twice", what, p)
		}
		seen[p] = true
	}
	// What was added for the linker comes with all that it needs (the compiler needs nothing but what is
	// imported by the package).
	for p, a := range st.After {
		if !strings.HasPrefix(what, "linking") {
			break
		}
		if _, found := st.Before[p]; found {
			continue
		}
		h, err := readStub(a)
		if err != nil {
			c.Violation("%s: the archive of %s can not be read: %v", what, p, err)
		}
		for q := range h.Imports {
			if _, found := st.After[q]; !found {
				c.Violation("%s: %s was added to the import configuration, but not %s, which it imports", what, p, q)
			}
		}
	}
	return true
}

// TestC20_Builds simulates ordinary builds and those of tests.
func TestC20_Builds(t *testing.T) {
	root, err := os.MkdirTemp("", "links")
	vh.Must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	vh.Must(err)
	defer os.Chdir("/")
	bin := setup(root)

	vh.Run(t, vh.Opts{
		Rule:  "simulated builds of random graphs of 3 to 9 packages with random injected imports and link-time dependencies, of an executable, or of the tests of some package of either kind; commands are intercepted by the actual weaver, stand-ins for compiler and linker check that all is there, matches, and is reachable; non-trivial: something injected was not there before",
		Quick: 400, Thorough: 5000,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		dir, err := os.MkdirTemp(root, "case")
		vh.Must(err)
		defer os.RemoveAll(dir)
		s := draw(g, dir, bin)
		if g.pct(60) {
			s.target = 1 + g.n(len(s.pkgs)-1)
			s.tests = g.pick("in", "in", "ext", "both")
		}
		var ext []int // what the external tests import besides
		if s.tests == "ext" || s.tests == "both" {
			for i := 1; i < len(s.pkgs); i++ {
				if i != s.target && g.pct(30) {
					ext = append(ext, i)
				}
			}
		}
		var in []int // what the other ones import besides
		if s.augmented() {
			for i := s.target + 1; i < len(s.pkgs); i++ {
				if !slices.Contains(s.pkgs[s.target].Imports, i) && g.pct(20) {
					in = append(in, i)
				}
			}
		}
		text, err := json.Marshal(s.pkgs)
		vh.Must(err)
		c.Desc(map[string]any{"packages": json.RawMessage(text), "target": s.target, "tests": s.tests, "internal tests import": in, "external tests import": ext})
		s.module()
		s.can()
		c.Class("tests: " + s.tests)

		added := 0
		build := func(i int, test bool) error {
			p := s.pkgs[i]
			deps := map[string]string{}
			files := []string{filepath.Join(s.src(i), "p.go"), filepath.Join(s.src(i), "q.go")}
			imports := p.Imports
			if test && i == s.target {
				imports = slices.Concat(imports, in)
				var im strings.Builder
				for _, j := range in {
					fmt.Fprintf(&im, "import _ %q\n", s.pkgs[j].Path)
				}
				f := filepath.Join(s.src(i), "in_test.go")
				write(f, fmt.Sprintf("package p%d\n\n%s", i, im.String()))
				files = append(files, f)
			}
			for _, j := range imports {
				deps[s.pkgs[j].Path] = s.path(s.id(j, test))
			}
			pflag := p.Path
			if p.Main {
				pflag = "main"
			}
			st, err := s.compile(s.id(i, test), pflag, files, deps)
			if s.common(c, "compiling "+s.id(i, test), st, err) {
				added += len(st.After) - len(st.Before)
				if !p.Main && len(st.Synth) > 0 {
					c.Violation("compiling %s: files are generated", s.id(i, test))
				}
				if p.Main {
					s.synth(c, p.Path, st)
				}
			}
			return err
		}
		// Nothing but the executable needs others to be complete already.
		for i := len(s.pkgs) - 1; i >= 0; i-- {
			if i == 0 && s.target >= 0 {
				break
			}
			if err := build(i, false); err != nil {
				c.Violation("compiling %s fails: %v", s.pkgs[i].Path, err)
			}
		}
		if s.target < 0 {
			deps := map[string]string{}
			for _, j := range s.closure(0)[1:] {
				deps[s.pkgs[j].Path] = s.path(s.pkgs[j].Path)
			}
			st, err := s.link(s.pkgs[0].Path, deps)
			if err != nil {
				c.Violation("linking fails: %v", err)
			}
			s.common(c, "linking", st, err)
			added += len(st.After) - len(st.Before)
			if added > 0 {
				c.Nontrivial(string(text))
			}
			return
		}

		// Failures are fine only where something injected depends on the package that is tested, whose
		// archive is another one.
		conflict := func() bool {
			if !s.augmented() {
				return false
			}
			full := func(from int) map[int]bool { // injected imports included
				seen := map[int]bool{}
				var visit func(int)
				visit = func(i int) {
					if !seen[i] {
						seen[i] = true
						for _, j := range slices.Concat(s.pkgs[i].Imports, s.pkgs[i].Inject) {
							visit(j)
						}
					}
				}
				visit(from)
				return seen
			}
			for _, p := range s.pkgs {
				for _, j := range p.Inject {
					if full(j)[s.target] {
						return true
					}
				}
			}
			return false
		}
		failed := func(what string, err error) {
			if err == nil {
				return
			}
			if !conflict() {
				c.Violation("%s fails: %v", what, err)
			}
			c.Class("conflict is reported")
		}
		P := s.pkgs[s.target].Path
		for i := len(s.pkgs) - 1; i >= 1; i-- {
			if s.id(i, true) != s.id(i, false) {
				if err := build(i, true); err != nil {
					failed("compiling "+s.id(i, true), err)
					return
				}
			}
		}
		// The external tests, and the executable.
		roots := []int{s.target}
		mainDeps := map[string]string{P: s.path(s.id(s.target, true))}
		mainImports := fmt.Sprintf("import _ %q\n", P)
		if s.tests == "ext" || s.tests == "both" {
			deps := map[string]string{P: s.path(s.id(s.target, true))}
			im := fmt.Sprintf("import _ %q\n", P)
			for _, j := range ext {
				deps[s.pkgs[j].Path] = s.path(s.id(j, true))
				im += fmt.Sprintf("import _ %q\n", s.pkgs[j].Path)
			}
			f := filepath.Join(s.src(s.target), "ext_test.go")
			write(f, fmt.Sprintf("package p%d_test\n\n%s", s.target, im))
			id := fmt.Sprintf("%s_test [%s.test]", P, P)
			st, err := s.compile(id, P+"_test", []string{f}, deps)
			if err != nil {
				failed("compiling the external tests", err)
				return
			}
			s.common(c, "compiling the external tests", st, err)
			mainDeps[P+"_test"] = s.path(id)
			mainImports += fmt.Sprintf("import _ %q\n", P+"_test")
			roots = append(roots, ext...)
		}
		f := filepath.Join(dir, "work", "b001", "_testmain.go")
		write(f, "package main\n\n"+mainImports+"\nfunc main() {}\n")
		id := P + ".test"
		st, err := s.compile(id, "main", []string{f}, mainDeps)
		if err != nil {
			failed("compiling the test executable", err)
			return
		}
		s.common(c, "compiling the test executable", st, err)
		s.synth(c, id, st)
		added += len(st.After) - len(st.Before)

		deps := maps.Clone(mainDeps)
		for _, j := range s.closure(append(roots, in...)...) {
			deps[s.pkgs[j].Path] = s.path(s.id(j, true))
		}
		st, err = s.link(id, deps)
		if err != nil {
			failed("linking the test executable", err)
			return
		}
		s.common(c, "linking the test executable", st, err)
		added += len(st.After) - len(st.Before)
		if added > 0 {
			c.Nontrivial(string(text))
			c.Class(fmt.Sprintf("%s tests linked, conflict possible: %v", s.tests, conflict()))
		}
	})
}

// synth checks that nothing but what is recorded is imported by what is generated.
func (s *sim) synth(c *vh.Case, id string, st *step) {
	rec := map[string]bool{}
	for _, a := range append(slices.Collect(maps.Values(st.After)), s.path(id)) {
		for _, d := range recorded(a) {
			rec[d] = true
		}
	}
	for _, p := range st.Synth {
		if !rec[p] {
			c.Violation("compiling %s: the generated sources import %s, which nothing depends on at link time", id, p)
		}
		if _, found := st.Before[p]; found {
			c.Violation("compiling %s: the generated sources import %s, which is imported anyway", id, p)
		}
	}
}
