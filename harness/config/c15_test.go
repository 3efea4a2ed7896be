package config_test

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/injector/config"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"golang.org/x/tools/go/packages"
)

const (
	toolName = "github.com/DataDog/orchestrion"
	modPath  = "example.com/m"
)

// world is a module (and modules next to it) whose packages have configuration. All paths are
// relative to its directory; the main module is in m/.
type world struct {
	files map[string]string // what is written
	dirs  []string          // the directories that may be packages
	pkgs  map[string]string // directory to import path
	bare  map[string]bool   // directories without Go files (other than maybe the tool file)
	tool  map[string][]string
	yml   map[string]*yfile
	bad   map[string]string // files that cannot be loaded, and why
	badV  map[string]string // the same with validation only
	fault map[string]error  // directories that the package loader fails for
	pure  bool              // no faults, for use with the real package loader
}

type yfile struct {
	ids     []string
	extends []string
	targets []string // what the extends clauses resolve to
}

func (w *world) parts(g *gen) {
	c := 2 + g.n(5)
	all := []string{"m", "m/a", "m/a/b", "m/c", "dep", "dep/x", "m/c/d", "other", "other/a", "m/c/a", "dep/m", "m/b"}
	w.dirs = append(w.dirs, all[:1]...)
	rest := slices.Clone(all[1:])
	for len(w.dirs) < c {
		k := g.n(len(rest))
		w.dirs = append(w.dirs, rest[k])
		rest = slices.Delete(rest, k, k+1)
	}
	for _, d := range w.dirs {
		switch {
		case d == "m" || strings.HasPrefix(d, "m/"):
			w.pkgs[d] = modPath + d[1:]
		default:
			w.pkgs[d] = "example.com/" + d
		}
	}
}

func (w *world) generate(g *gen) {
	w.parts(g)
	rate := 0
	if !w.pure && g.pct(40) {
		rate = 8
	}
	importable := []string{toolName}
	for _, d := range w.dirs {
		importable = append(importable, w.pkgs[d])
	}
	if rate > 0 && g.pct(30) {
		importable = append(importable, "example.com/nowhere")
	}

	// Where the documents are.
	var ymls []string
	for _, d := range w.dirs {
		if g.pct(75) {
			ymls = append(ymls, d+"/orchestrion.yml")
		}
		if g.pct(35) {
			ymls = append(ymls, d+"/"+g.pick("extra.yml", "more.yaml", "ümlaut.yml", "with space.yml", "Extra.yml"))
		}
		if g.pct(20) {
			ymls = append(ymls, d+"/conf.d/"+g.pick("one.yml", "two.yml"))
		}
	}
	slices.Sort(ymls)
	ymls = slices.Compact(ymls)

	for _, d := range w.dirs {
		hasTool := g.pct(65)
		goFile := !hasTool && d != "m" || g.pct(70)
		if rate > 0 && g.pct(rate) {
			goFile = false
		}
		if w.pure && d == "m" && !hasTool {
			goFile = true
		}
		if goFile {
			w.files[d+"/code.go"] = "package code\n"
		} else {
			w.bare[d] = true
		}
		if hasTool {
			var imps []string
			for range g.n(4) {
				imps = append(imps, importable[g.n(len(importable))])
			}
			if w.pure {
				sort.Strings(imps)
				imps = slices.Compact(imps)
			}
			w.tool[d] = imps
			text, bad := w.toolText(g, imps, rate)
			w.files[d+"/"+config.FilenameOrchestrionToolGo] = text
			if bad != "" {
				w.bad[d+"/"+config.FilenameOrchestrionToolGo] = bad
			}
		}
		if !w.pure && g.pct(rate/2) {
			w.fault[d] = []error{errors.New("loader failure"), &fs.PathError{Op: "chdir", Path: "/nowhere", Err: fs.ErrNotExist}}[g.n(2)]
		}
	}
	for _, f := range ymls {
		y := &yfile{}
		w.yml[f] = y
		for i := range g.n(4) {
			y.ids = append(y.ids, fmt.Sprintf("%s#%d", f, i))
		}
		extends := g.n(4)
		if extends == 0 && len(y.ids) == 0 { // the schema wants either
			y.ids = append(y.ids, f+"#0")
		}
		for range extends {
			var to string
			switch k := g.n(100); {
			case k < 55:
				to = ymls[g.n(len(ymls))]
			case k < 85:
				to = w.dirs[g.n(len(w.dirs))]
			case rate > 0 && k < 90:
				to = path.Dir(f) + "/" + g.pick("missing.yml", "missing", "orchestrion.yml/x.yml")
			case rate > 0 && k < 93:
				to = path.Dir(f) + "/conf.d"
			default:
				to = f
			}
			rel, err := filepath.Rel(path.Dir(f), to)
			vh.Must(err)
			if !strings.HasPrefix(rel, "../") && rel != ".." {
				rel = "./" + rel
			}
			switch g.n(8) {
			case 0:
				rel += "/"
				if strings.Contains(path.Base(to), ".y") { // a file
					rel = strings.TrimSuffix(rel, "/")
				}
			case 1:
				rel = "./../" + path.Base(path.Dir(f)) + "/" + rel
			case 2:
				rel = strings.Replace(rel, "/", "//", 1)
			}
			if rel == ".." || rel == "./." {
				rel += "/"
			}
			if rel == "././" || rel == "../" { // the schema wants something after the slash
				rel += "."
			}
			y.extends = append(y.extends, rel)
			y.targets = append(y.targets, path.Clean(to))
		}
		text, bad, badV := w.ymlText(g, f, y, rate)
		w.files[f] = text
		if bad != "" {
			w.bad[f] = bad
		}
		if badV != "" {
			w.badV[f] = badV
		}
	}
}

func (w *world) toolText(g *gen, imps []string, rate int) (text, bad string) {
	var sb strings.Builder
	if g.pct(30) {
		sb.WriteString("// import _ \"example.com/comment\"\n\n")
	}
	sb.WriteString("//go:build tools\n\npackage tools\n\n")
	spec := func(p string) string {
		name := g.pick("_ ", "_ ", "_ ", "", "x"+fmt.Sprint(g.n(100))+" ", ". ")
		q := `"` + p + `"`
		if g.pct(15) {
			q = "`" + p + "`"
		}
		s := name + q
		if g.pct(30) {
			s += " // integration"
		}
		return s
	}
	for i := 0; i < len(imps); {
		if g.pct(50) {
			sb.WriteString("import " + spec(imps[i]) + "\n")
			i++
			continue
		}
		sb.WriteString("import (\n")
		for n := 1 + g.n(3); n > 0 && i < len(imps); n-- {
			if g.pct(20) {
				sb.WriteString("\t// _ \"example.com/inside\"\n")
			}
			sb.WriteString("\t" + spec(imps[i]) + "\n")
			i++
		}
		sb.WriteString(")\n")
	}
	if len(imps) == 0 && g.pct(30) {
		sb.WriteString("import ()\n")
	}
	if !w.pure && g.pct(15) {
		sb.WriteString("\nfunc broken( {\n") // only imports are of interest
	}
	text = sb.String()
	if g.pct(rate) {
		switch g.n(3) {
		case 0:
			return strings.Replace(text, "package tools", "pack tools", 1), "no package clause"
		case 1:
			return strings.Replace(text, "package tools\n", "package tools\nimport _ \"unfinished\n", 1), "syntax error"
		default:
			return "", "empty"
		}
	}
	return text, ""
}

func (w *world) ymlText(g *gen, f string, y *yfile, rate int) (text, bad, badV string) {
	var d obj
	meta := obj{{"name", "n"}, {"description", "d"}}
	if !g.pct(rate) || w.pure {
		d = append(d, kv{"meta", meta})
	} else {
		badV = "meta is missing"
	}
	if len(y.extends) > 0 {
		var l list
		for _, e := range y.extends {
			l = append(l, e)
		}
		d = append(d, kv{"extends", l})
	}
	if len(y.ids) > 0 {
		var l list
		for _, id := range y.ids {
			a := obj{{"id", id}, {"join-point", obj{{"package-name", "p"}}}, {"advice", list{obj{{"add-blank-import", "unsafe"}}}}}
			if g.pct(rate/2) && badV == "" {
				a = append(a, kv{g.pick("comment", "Id", "joinpoint"), "x"})
				badV = "unknown key in aspect"
			}
			l = append(l, a)
		}
		d = append(d, kv{"aspects", l})
	}
	if g.pct(rate/2) && badV == "" {
		d = append(d, kv{g.pick("extend", "aspect", "version"), list{"./x.yml"}})
		badV = "unknown key"
	}
	if g.pct(rate) {
		bad = "malformed"
		switch g.n(5) {
		case 0:
			return "meta: {name: [\n", bad, badV
		case 1:
			d = append(d[:len(d):len(d)], kv{"aspects", "text"})
			for i := range d[:len(d)-1] {
				if d[i].K == "aspects" {
					d[i].V = "text"
					d = d[:len(d)-1]
					break
				}
			}
		case 2:
			return "- a\n- b\n", bad, badV
		case 3:
			return "aspects:\n  - id: x\n    join-point: {package-name: p}\n    advice: [{no-such-advice: x}]\n", bad, badV
		default:
			return "aspects: [null]\nmeta: {name: n, description: d}\n", bad, badV
		}
	}
	return g.render(d), bad, badV
}

// model is the reference meaning of a configuration.
type model struct {
	w        *world
	validate bool
	seen     map[string]bool
	ids      []string
	bad      []string // what must be reported, any of them
	files    []string // documents with something in them
}

func (m *model) pkg(path string) {
	if path == toolName {
		if !m.seen[toolName] {
			m.seen[toolName] = true
			m.ids = append(m.ids, "built.WithOrchestrion", "built.WithOrchestrionVersion")
		}
		return
	}
	for d, p := range m.w.pkgs {
		if p == path {
			m.dir(d)
			return
		}
	}
	m.bad = append(m.bad, path)
}

func (m *model) dir(d string) {
	if m.w.fault[d] != nil {
		m.bad = append(m.bad, "fault:"+d)
		return
	}
	m.loaded(d)
}

func (m *model) loaded(d string) {
	_, hasTool := m.w.files[d+"/"+config.FilenameOrchestrionToolGo]
	if _, known := m.w.pkgs[d]; !known || m.w.bare[d] && !hasTool {
		m.bad = append(m.bad, "bare:"+d)
		return
	}
	tool := d + "/" + config.FilenameOrchestrionToolGo
	if hasTool && !m.seen[tool] {
		m.seen[tool] = true
		if m.w.bad[tool] != "" {
			m.bad = append(m.bad, tool)
		} else {
			for _, imp := range m.w.tool[d] {
				m.pkg(imp)
			}
		}
	}
	if f := d + "/orchestrion.yml"; m.w.yml[f] != nil {
		m.file(f)
	}
}

func (m *model) file(f string) {
	if m.seen[f] {
		return
	}
	m.seen[f] = true
	if m.w.bad[f] != "" || m.validate && m.w.badV[f] != "" {
		m.bad = append(m.bad, f)
		return
	}
	y := m.w.yml[f]
	for _, to := range y.targets {
		switch {
		case m.w.yml[to] != nil:
			m.file(to)
		case m.w.isDir(to):
			m.dir(to)
		default:
			m.bad = append(m.bad, to)
		}
	}
	m.ids = append(m.ids, y.ids...)
}

func (w *world) isDir(d string) bool {
	for f := range w.files {
		if strings.HasPrefix(f, d+"/") && w.yml[d] == nil {
			return true
		}
	}
	return false
}

// find stands for the go command.
func (w *world) find(root string, calls *int) config.PackageLoader {
	return func(_ context.Context, from string, patterns ...string) ([]*packages.Package, error) {
		*calls++
		if len(patterns) == 0 {
			patterns = []string{from}
		}
		var out []*packages.Package
		for _, p := range patterns {
			dir := ""
			if filepath.IsAbs(p) {
				rel, err := filepath.Rel(root, p)
				vh.Must(err)
				dir = rel
			} else {
				for d, ip := range w.pkgs {
					if ip == p {
						dir = d
					}
				}
			}
			if err := w.fault[dir]; err != nil {
				return nil, fmt.Errorf("listing fault:%s: %w", dir, err)
			}
			pkg := &packages.Package{ID: p, PkgPath: p}
			if ip, ok := w.pkgs[dir]; ok {
				pkg.ID, pkg.PkgPath = ip, ip
			}
			if _, ok := w.files[dir+"/code.go"]; ok {
				pkg.GoFiles = []string{filepath.Join(root, dir, "code.go")}
			}
			if _, ok := w.files[dir+"/"+config.FilenameOrchestrionToolGo]; ok {
				pkg.IgnoredFiles = []string{filepath.Join(root, dir, config.FilenameOrchestrionToolGo)}
			}
			if dir == "" && p != toolName {
				pkg.Errors = []packages.Error{{Kind: packages.ListError, Msg: "cannot find package " + p}}
			} else if len(pkg.GoFiles)+len(pkg.IgnoredFiles) == 0 && p != toolName {
				pkg.Errors = []packages.Error{{Kind: packages.ListError, Msg: "no Go files in " + p}}
			}
			out = append(out, pkg)
		}
		return out, nil
	}
}

func (w *world) describe() string {
	var names []string
	for f := range w.files {
		names = append(names, f)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, f := range names {
		fmt.Fprintf(&sb, "--- %s\n%s", f, w.files[f])
	}
	for d, e := range w.fault {
		fmt.Fprintf(&sb, "--- loading the package in %s fails: %v\n", d, e)
	}
	return sb.String()
}

func (w *world) write(root string) {
	for f, text := range w.files {
		vh.Must(os.MkdirAll(filepath.Dir(filepath.Join(root, f)), 0o755))
		vh.Must(os.WriteFile(filepath.Join(root, f), []byte(text), 0o644))
	}
}

func newWorld(g *gen, pure bool) *world {
	w := &world{files: map[string]string{}, pkgs: map[string]string{}, bare: map[string]bool{}, tool: map[string][]string{}, yml: map[string]*yfile{}, bad: map[string]string{}, badV: map[string]string{}, fault: map[string]error{}, pure: pure}
	w.generate(g)
	return w
}

// check loads the configuration of the package in dir and compares it to the model.
func (w *world) check(c *vh.Case, root, dir string, validate bool, find config.PackageLoader) {
	m := &model{w: w, validate: validate, seen: map[string]bool{}}
	m.dir(dir)

	cfg, err := func() (cfg config.Config, err error) {
		defer func() {
			if p := recover(); p != nil {
				c.Violation("loading crashes: %v", p)
			}
		}()
		return config.NewLoader(find, filepath.Join(root, dir), validate).Load(context.Background())
	}()
	if len(m.bad) > 0 {
		c.Class("to be rejected")
		if err == nil {
			c.Violation("loading succeeds in spite of %q", m.bad)
		}
		named := false
		for _, b := range m.bad {
			if d, ok := strings.CutPrefix(b, "bare:"); ok {
				named = named || strings.Contains(err.Error(), d) || strings.Contains(err.Error(), w.pkgs[d]) && w.pkgs[d] != ""
				continue
			}
			named = named || strings.Contains(err.Error(), b)
		}
		if !named {
			c.Violation("none of %q is named by the error: %v", m.bad, err)
		}
		return
	}
	if err != nil {
		c.Violation("loading fails: %v", err)
	}
	var got []string
	for _, a := range cfg.Aspects() {
		got = append(got, a.ID)
	}
	if !slices.Equal(got, m.ids) {
		c.Violation("aspects are\n  %q, expected\n  %q", got, m.ids)
	}
	var seen []string
	err = config.Visit(cfg, func(f config.File, _ string) error {
		for _, a := range f.OwnAspects() {
			seen = append(seen, a.ID)
		}
		return nil
	})
	if err != nil {
		c.Violation("visiting fails: %v", err)
	}
	sort.Strings(seen)
	want := slices.Clone(m.ids)
	sort.Strings(want)
	if !slices.Equal(seen, want) {
		c.Violation("visiting finds\n  %q, expected\n  %q", seen, want)
	}
	c.Class("loaded")
}

func TestC15_Graphs(t *testing.T) {
	wd, err := os.Getwd()
	vh.Must(err)
	defer func() { vh.Must(os.Chdir(wd)) }()
	vh.Run(t, vh.Opts{
		Rule:  "2 to 7 packages in several modules, each with or without Go files, a tool file (imports in all spellings, of each other, the tool and packages that do not exist) and documents that extend documents and directories (sharing, cycles, themselves, missing ones), some malformed, with unknown keys or with failures of the go command, loaded with and without validation from changing working directories; the aspects are those of a reference loader, in order; errors name what is wrong; non-trivial: at least 2 files have been reached",
		Quick: 6000, Thorough: 60000,
	}, func(c *vh.Case) {
		g := &gen{t: c.T}
		w := newWorld(g, false)
		root, err := os.MkdirTemp("", "cfg")
		vh.Must(err)
		defer os.RemoveAll(root)
		defer func() { vh.Must(os.Chdir(wd)) }()
		w.write(root)
		validate := g.pct(50)
		dir := "m"
		if g.pct(30) {
			dir = w.dirs[g.n(len(w.dirs))]
		}
		from := filepath.Join(root, w.dirs[g.n(len(w.dirs))])
		vh.Must(os.MkdirAll(from, 0o755))
		vh.Must(os.Chdir(from))
		desc := w.describe()
		c.Desc(fmt.Sprintf("loading %s, validation %v, from %s\n%s", dir, validate, strings.TrimPrefix(from, root), desc))
		m := &model{w: w, validate: validate, seen: map[string]bool{}}
		m.dir(dir)
		if len(m.seen) >= 2 {
			c.Nontrivial(desc)
		}
		calls := 0
		w.check(c, root, dir, validate, w.find(root, &calls))

		// Whether a package has any configuration.
		pd := w.dirs[g.n(len(w.dirs))]
		if w.fault[pd] != nil {
			return
		}
		find := w.find(root, &calls)
		pkgs, err := find(context.Background(), root, filepath.Join(root, pd))
		vh.Must(err)
		m = &model{w: w, validate: validate, seen: map[string]bool{}}
		m.loaded(pd)
		y := w.yml[pd+"/orchestrion.yml"]
		if m.bad != nil || y != nil && len(y.ids) == 0 {
			return
		}
		has, err := config.HasConfig(context.Background(), find, pkgs[0], validate)
		if err != nil || has != (len(m.ids) > 0 || y != nil) {
			c.Violation("HasConfig of %s is %v (%v), it has %q", pd, has, err, m.ids)
		}
	})
}

func TestC15_GoCommand(t *testing.T) {
	wd, err := os.Getwd()
	vh.Must(err)
	defer func() { vh.Must(os.Chdir(wd)) }()
	vh.Run(t, vh.Opts{
		Rule:  "the same without mistakes, in real modules loaded with the go command; non-trivial: at least 2 files have been reached",
		Quick: 300, Thorough: 3000,
	}, func(c *vh.Case) {
		g := &gen{t: c.T}
		w := newWorld(g, true)
		root, err := os.MkdirTemp("", "cfg")
		vh.Must(err)
		defer os.RemoveAll(root)
		defer func() { vh.Must(os.Chdir(wd)) }()
		w.files["m/go.mod"] = "module " + modPath + "\n\ngo 1.23\n\nrequire (\n\texample.com/dep v0.0.0\n\texample.com/other v0.0.0\n\t" + toolName + " v1.0.0\n)\n\nreplace (\n\texample.com/dep => ../dep\n\texample.com/other => ../other\n\t" + toolName + " => ../tool\n)\n"
		w.files["dep/go.mod"] = "module example.com/dep\n\ngo 1.23\n"
		w.files["other/go.mod"] = "module example.com/other\n\ngo 1.23\n"
		w.files["tool/go.mod"] = "module " + toolName + "\n\ngo 1.23\n"
		w.files["tool/tool.go"] = "package main\n"
		w.write(root)
		desc := w.describe()
		c.Desc(desc)
		m := &model{w: w, seen: map[string]bool{}}
		m.dir("m")
		if len(m.seen) >= 2 {
			c.Nontrivial(desc)
		}
		vh.Must(os.Chdir(root))
		if out, err := exec.Command("go", "version").CombinedOutput(); err != nil {
			vh.Infra("go version: %v\n%s", err, out)
		}
		w.check(c, root, "m", true, nil)
	})
}
