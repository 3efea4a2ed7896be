package resolve_test

import (
	"context"
	"encoding/json"
	"fmt"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/pkgs"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// TestC23_Closure is about what is listed for actual modules.
func TestC23_Closure(t *testing.T) {
	root, err := os.MkdirTemp("", "closure")
	vh.Must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	vh.Must(err)
	w := newWorld(root)

	std := map[string][]string{}
	for _, p := range []string{"errors", "unsafe"} {
		out, err := exec.Command(w.real, "list", "-deps", p).Output()
		vh.Must(err)
		for _, d := range strings.Fields(string(out)) {
			if d != "unsafe" {
				std[p] = append(std[p], d)
			}
		}
	}

	vh.Run(t, vh.Opts{
		Rule:  "modules of up to 8 packages, internal and broken ones among them, with tests of either kind in one, and with sources that depend on an overlay or tag among the build flags; requests for some of the packages, as built for the tests of some, in any order; the answers are compared to the closure of what was generated; non-trivial: the package has dependencies and is affected by tests or breakage",
		Quick: 120, Thorough: 4000,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		dir, err := os.MkdirTemp(root, "case")
		vh.Must(err)
		defer os.RemoveAll(dir)
		const mod = "example.com/m"
		w.set(plan{Record: filepath.Join(dir, "..", "record-"+filepath.Base(dir))})

		write := func(name, text string) {
			name = filepath.Join(dir, name)
			vh.Must(os.MkdirAll(filepath.Dir(name), 0o755))
			vh.Must(os.WriteFile(name, []byte(text), 0o644))
		}
		write("go.mod", "module "+mod+"\n\ngo 1.24\n")

		type pkg struct {
			dir     string
			imports []int
			std     []string
			broken  string
		}
		n := 2 + g.n(7)
		ps := make([]*pkg, n)
		for i := range ps {
			p := &pkg{}
			switch g.n(6) {
			case 0:
				p.dir = fmt.Sprintf("internal/p%d", i)
			case 1:
				p.dir = fmt.Sprintf("sub/p%d", i)
			case 2:
				p.dir = fmt.Sprintf("sub/internal/p%d", i)
			default:
				p.dir = fmt.Sprintf("p%d", i)
			}
			if g.pct(20) {
				p.std = append(p.std, g.pick("errors", "unsafe"))
			}
			ps[i] = p
		}
		// may tells whether the internal packages may be imported.
		may := func(from, to *pkg) bool {
			return !strings.HasPrefix(to.dir, "sub/internal/") || strings.HasPrefix(from.dir, "sub/")
		}
		for i, p := range ps {
			for j := i + 1; j < n; j++ {
				if may(p, ps[j]) && g.pct(45) {
					p.imports = append(p.imports, j)
				}
			}
		}
		target := n/2 + g.n(n-n/2)
		tests := g.pick("in", "in", "in", "ext", "both", "none")
		brokenTests := ""
		if g.pct(25) {
			i := g.n(n)
			ps[i].broken = g.pick("type", "syntax", "missing", "no module", "cycle", "empty", "excluded", "internal", "main")
			if (ps[i].broken == "empty" || ps[i].broken == "excluded") && i == target {
				ps[i].broken = "type" // go has nothing against packages of tests only
			}
		} else if g.pct(15) {
			brokenTests = g.pick("type", "syntax", "missing")
		}
		breakage := func(kind, path string) (imports, body string) {
			switch kind {
			case "type":
				return "", "var _ int = \"\"\n"
			case "syntax":
				return "", "func (\n"
			case "missing":
				return "import _ \"" + mod + "/nowhere\"\n", ""
			case "no module":
				return "import _ \"example.com/other/module\"\n", ""
			case "internal":
				return "import _ \"cmd/internal/obj\"\n", ""
			}
			return "", ""
		}
		path := func(i int) string { return mod + "/" + ps[i].dir }
		overlay := map[string]string{}
		replace := func(name, by string) {
			if g.pct(50) {
				name = filepath.Join(dir, name)
			}
			if by != "" && g.pct(50) {
				by = filepath.Join(dir, by)
			}
			overlay[name] = by
		}
		var how []string
		for i, p := range ps {
			var imports, body strings.Builder
			for _, s := range p.std {
				fmt.Fprintf(&imports, "import _ %q\n", s)
			}
			for _, j := range p.imports {
				fmt.Fprintf(&imports, "import p%d %q\n", j, path(j))
				fmt.Fprintf(&body, "var V%d = p%d.V\n", j, j)
			}
			im, b := breakage(p.broken, path(i))
			switch p.broken {
			case "cycle":
				im = fmt.Sprintf("import _ %q\n", path(i))
				for k := range i { // a longer one, if possible
					if slices.Contains(ps[k].imports, i) && may(p, ps[k]) {
						im = fmt.Sprintf("import _ %q\n", path(k))
					}
				}
			case "empty":
				write(p.dir+"/README", "")
				continue
			case "excluded":
				b = ""
				write(p.dir+"/p.go", "//go:build never\n\npackage p\n")
				continue
			case "main":
				write("cmd/x/main.go", "package main\n\nfunc main() {}\n")
				im = fmt.Sprintf("import _ %q\n", mod+"/cmd/x")
			}
			text := fmt.Sprintf("package p%d\n\n%s%s\nvar V = %d\n\n%s%s", i, im, imports.String(), i, body.String(), b)
			// What it consists of may depend on build flags.
			switch way := g.pick("", "", "", "", "overlaid", "added", "removed", "tagged"); way {
			case "overlaid":
				how = append(how, path(i)+" "+way)
				write(p.dir+"/p.go", fmt.Sprintf("package p%d\n\nimport _ \"fmt\"\n\nvar V = 0\n", i))
				write("elsewhere/"+fmt.Sprint(i), text)
				replace(p.dir+"/p.go", "elsewhere/"+fmt.Sprint(i))
			case "added":
				how = append(how, path(i)+" "+way)
				write(p.dir+"/doc.go", fmt.Sprintf("// Package p%d is here.\npackage p%d\n", i, i))
				write("elsewhere/"+fmt.Sprint(i), text)
				replace(p.dir+"/p.go", "elsewhere/"+fmt.Sprint(i))
			case "removed":
				how = append(how, path(i)+" "+way)
				write(p.dir+"/p.go", text)
				write(p.dir+"/q.go", fmt.Sprintf("package p%d\n\nimport _ \"fmt\"\n\nvar V = 0\n", i))
				replace(p.dir+"/q.go", "")
			case "tagged":
				how = append(how, path(i)+" "+way)
				write(p.dir+"/p.go", "//go:build verifx\n\n"+text)
				write(p.dir+"/q.go", fmt.Sprintf("//go:build !verifx\n\npackage p%d\n\nimport _ \"fmt\"\n\nvar V = 0\n", i))
			default:
				write(p.dir+"/p.go", text)
			}
		}
		im, b := breakage(brokenTests, "")
		if tests == "in" || tests == "both" {
			write(ps[target].dir+"/in_test.go", fmt.Sprintf("package p%d\n\n%s\nimport \"testing\"\n\nvar InTest = V\n\nfunc TestV(*testing.T) {}\n%s", target, im, b))
		}
		if tests == "ext" || tests == "both" {
			write(ps[target].dir+"/ext_test.go", fmt.Sprintf("package p%d_test\n\n%s\nimport \"testing\"\n\nfunc TestX(*testing.T) {}\n%s", target, im, b))
		}

		manifest, err := json.Marshal(map[string]any{"Replace": overlay})
		vh.Must(err)
		write("conf/overlay.json", string(manifest))

		closure := func(from int) (l []int) {
			seen := map[int]bool{}
			var visit func(int)
			visit = func(i int) {
				if seen[i] {
					return
				}
				seen[i] = true
				l = append(l, i)
				for _, j := range ps[i].imports {
					visit(j)
				}
			}
			visit(from)
			return l
		}
		isBroken := func(from int) bool {
			return slices.ContainsFunc(closure(from), func(i int) bool { return ps[i].broken != "" })
		}

		srv, cl := server()
		defer srv.Shutdown()
		defer cl.Close()
		ordinary := map[int]pkgs.ResolveResponse{}
		var log []string
		for range 1 + g.n(4) {
			r := g.n(n)
			forTest := g.n(7) - 1
			testPath := ""
			switch {
			case forTest < 0:
			case forTest == 4:
				testPath = mod + "/unknown"
			default:
				forTest = target
				testPath = path(target)
				if g.pct(60) && r > target {
					r = g.n(target + 1) // something that may depend on it
				}
			}
			log = append(log, fmt.Sprintf("%s for tests of %q", path(r), testPath))
			var desc []string
			for i, p := range ps {
				desc = append(desc, fmt.Sprintf("%s: %v %s", path(i), p.imports, p.broken))
			}
			c.Desc(map[string]any{"packages": desc, "tests": fmt.Sprintf("%s: %s", path(target), tests), "broken tests": brokenTests, "by flags": how, "requests": log})
			resp, err := client.Request(context.Background(), cl, pkgs.ResolveRequest{Dir: dir, Pattern: path(r), TestVariantFor: testPath, Env: w.base})
			cl := closure(r)
			if isBroken(r) {
				if err == nil {
					c.Violation("no error is reported for %s", log[len(log)-1])
				}
				if len(cl) > 1 {
					c.Nontrivial(fmt.Sprint(desc, log))
				}
				c.Class("broken package")
				continue
			}
			reaches := map[int]bool{} // the packages that depend on the one that is tested, and itself
			if testPath == path(target) {
				for _, i := range cl {
					if slices.Contains(closure(i), target) {
						reaches[i] = true
					}
				}
			}
			if len(reaches) > 0 && brokenTests != "" && tests != "none" {
				if r == target && brokenTests == "type" {
					c.Class("type error in tests of the package itself") // they are not compiled to know
					continue
				}
				if err == nil {
					c.Violation("no error is reported for %s, the tests of which are broken", log[len(log)-1])
				}
				c.Class("broken tests")
				c.Nontrivial(fmt.Sprint(desc, log))
				continue
			}
			if err != nil {
				c.Violation("an error is reported for %s: %v", log[len(log)-1], err)
			}
			want := map[string]string{} // which tests they are built for
			for _, i := range cl {
				want[path(i)] = ""
				for _, s := range ps[i].std {
					for _, d := range std[s] {
						want[d] = ""
					}
				}
			}
			augmented := tests == "in" || tests == "both"
			switch {
			case len(reaches) == 0:
			case r == target:
				if augmented {
					want[path(r)] = testPath
				}
			default:
				delete(want, testPath)
				if augmented {
					for i := range reaches {
						if i != target {
							want[path(i)] = testPath
						}
					}
				}
				c.Nontrivial(fmt.Sprint(desc, log))
				c.Class("test variant " + tests)
			}
			have := map[string]string{}
			for p, a := range resp {
				have[p] = a.ForTest
				if _, err := os.Stat(a.ExportFile); err != nil {
					c.Violation("the archive of %s in the answer about %s is %q: %v", p, log[len(log)-1], a.ExportFile, err)
				}
			}
			if !maps.Equal(have, want) {
				text, _ := json.Marshal(want)
				c.Violation("the answer about %s is %v, expected (by what tests they are built for) %s", log[len(log)-1], resp, text)
			}
			if testPath == "" {
				ordinary[r] = resp
			} else if o, found := ordinary[r]; found {
				for p, a := range resp {
					same := o[p].ExportFile == a.ExportFile
					if r != target && same != (a.ForTest == "") {
						c.Violation("the archive of %s is %s for %s, it is %s without tests", p, a.ExportFile, log[len(log)-1], o[p].ExportFile)
					}
				}
			}
		}
	})
}
