package pin_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"golang.org/x/mod/semver"
	"pgregory.net/rapid"
)

type gen struct{ t *rapid.T }

func (g *gen) n(k int) int {
	return int((rapid.Uint32().Draw(g.t, "n") * 2654435761 >> 8) % uint32(k))
}
func (g *gen) pct(p int) bool          { return g.n(100) < p }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }

// app is a module that is going to be pinned.
type app struct {
	Files   map[string]string
	Lists   map[string][]string
	Imports []string // by the tool file
	Keep    []string // texts in the tool file that have to stay
	Package string
	HasTool bool
	Require map[string]string
	Go      string
	Chain   string
	Replace string // the tracer's replacement, if any
	Mode    os.FileMode
}

func (a *app) tool(g *gen) {
	var sb strings.Builder
	marks := 0
	mark := func(keep bool) string {
		marks++
		m := fmt.Sprintf("mark%d.", marks)
		if keep {
			a.Keep = append(a.Keep, m)
		}
		return m
	}
	if g.pct(40) {
		sb.WriteString("// " + mark(true) + " license\n")
		if g.pct(50) {
			sb.WriteString("// " + mark(true) + " second line\n")
		}
		sb.WriteString("\n")
	}
	sb.WriteString("//go:build tools\n")
	if g.pct(20) {
		sb.WriteString("// +build tools\n")
	}
	if !g.pct(10) {
		sb.WriteString("\n")
	}
	gogen := g.pick("", "", "//go:generate go run github.com/DataDog/orchestrion pin", "//go:generate go run github.com/DataDog/orchestrion pin -generate", "//go:generate go run github.com/DataDog/orchestrion pin -generate -prune=false", "//go:generate go run github.com/DataDog/orchestrion pin -validate")
	where := g.n(3)
	if gogen != "" && where == 0 {
		sb.WriteString(gogen + "\n\n")
	}
	if g.pct(20) {
		sb.WriteString("//go:generate echo " + mark(true) + "\n\n")
	}
	if g.pct(20) {
		sb.WriteString("// Package " + mark(true) + "\n")
	}
	sb.WriteString("package " + a.Package + "\n\n")
	if gogen != "" && where == 1 {
		sb.WriteString(gogen + "\n\n")
	}
	if g.pct(20) {
		sb.WriteString("// " + mark(true) + " after the package clause\n\n")
	}
	spec := func(p, ind string) {
		// Comments on the line of an import or above it go with it.
		_, given := providing[p]
		keep := (given || p == toolMod)
		_ = keep
		if g.pct(25) {
			sb.WriteString(ind + "// " + a.mark2(p, &marks) + " above\n")
		}
		name := g.pick("_ ", "_ ", "_ ", "_ ", fmt.Sprintf("x%d ", len(sb.String())))
		if ind == "" {
			name = "import " + name
		}
		q := strconv.Quote(p)
		if g.pct(10) {
			q = "`" + p + "`"
		}
		sb.WriteString(ind + name + q)
		switch g.n(6) {
		case 0:
			sb.WriteString(" // integration")
		case 1:
			sb.WriteString(" // note") // belongs to the tool
		}
		sb.WriteString("\n")
	}
	for i := 0; i < len(a.Imports); {
		if g.pct(40) {
			spec(a.Imports[i], "")
			i++
			if g.pct(50) {
				sb.WriteString("\n")
			}
			continue
		}
		if g.pct(20) {
			sb.WriteString("// " + mark(true) + " above imports\n")
		}
		sb.WriteString("import (\n")
		for n := 1 + g.n(4); n > 0 && i < len(a.Imports); n-- {
			spec(a.Imports[i], "\t")
			i++
			if g.pct(30) {
				sb.WriteString("\n")
			}
		}
		sb.WriteString(")\n\n")
	}
	if len(a.Imports) == 0 && g.pct(20) {
		sb.WriteString("import ()\n\n")
	}
	if g.pct(30) {
		sb.WriteString("// " + mark(true) + " a declaration\nvar _ = " + strconv.Quote(mark(true)) + "\n\n")
	}
	if g.pct(20) {
		sb.WriteString("func " + g.pick("init", "helper") + "() {\n\t// " + mark(true) + "\n\tprintln(" + strconv.Quote(mark(true)) + ")\n}\n\n")
	}
	if gogen != "" && where == 2 {
		sb.WriteString(gogen + "\n\n")
		if g.pct(60) {
			sb.WriteString("const after = 1\n")
		}
	}
	if g.pct(20) {
		sb.WriteString("// " + mark(true) + " at the end\n")
	}
	a.Files["orchestrion.tool.go"] = sb.String()
}

// mark2 is the text of a comment that goes with the import of path.
func (a *app) mark2(path string, marks *int) string {
	*marks++
	return fmt.Sprintf("mark%d@%s.", *marks, path)
}

func newApp(g *gen) *app {
	a := &app{Files: map[string]string{}, Lists: map[string][]string{}, Require: map[string]string{}, Package: g.pick("tools", "tools", "app"), Mode: 0o644}
	a.Files["local/local.go"] = "package local\n"
	a.Files["local/orchestrion.yml"] = goodYML
	a.Files["util/util.go"] = "package util\n"

	// What is published of the tracer: always what is shipped.
	var published []string
	for _, v := range v2Versions {
		if v == shipped || g.pct(70) {
			published = append(published, v)
		}
	}
	a.Lists[v2Mod], a.Lists[allMod] = published, published

	a.HasTool = g.pct(80)
	if a.HasTool {
		for _, p := range []string{toolMod, instrMod, v1Mod, v2Mod, allMod} {
			if g.pct(35) {
				a.Imports = append(a.Imports, p)
			}
		}
		var others []string
		for p := range providing {
			if strings.HasPrefix(p, "example.com/") {
				others = append(others, p)
			}
		}
		sort.Strings(others)
		for range g.n(5) {
			a.Imports = append(a.Imports, others[g.n(len(others))])
		}
		if g.pct(80) { // most have no repetitions
			slices.Sort(a.Imports)
			a.Imports = slices.Compact(a.Imports)
		}
		for i := range a.Imports {
			j := g.n(i + 1)
			a.Imports[i], a.Imports[j] = a.Imports[j], a.Imports[i]
		}
		a.tool(g)
	}

	// What the module requires.
	main := ""
	if g.pct(60) {
		a.Require[v2Mod] = published[g.n(len(published))]
		if g.pct(70) {
			main += "import _ \"" + v2Mod + "\"\n"
		}
		if g.pct(15) {
			a.Replace = g.pick("./fake", v2Mod+" "+a.Require[v2Mod])
		}
	}
	if slices.Contains(a.Imports, v1Mod) || g.pct(20) {
		a.Require[v1Mod] = v1Versions[g.n(len(v1Versions))]
		if g.pct(50) {
			main += "import _ \"" + v1Mod + "\"\n"
		}
	}
	if g.pct(50) {
		a.Require[toolMod] = toolVersions[g.n(len(toolVersions))]
	}
	if slices.Contains(a.Imports, instrMod) {
		a.Require[instrMod] = "v1.5.0"
	}
	for _, p := range a.Imports {
		switch {
		case strings.HasPrefix(p, "example.com/integ"):
			a.Require["example.com/integ"] = "v1.0.0"
		case p == "example.com/plain":
			a.Require["example.com/plain"] = "v1.2.3"
		}
	}
	if slices.Contains(a.Imports, allMod) && g.pct(60) {
		a.Require[allMod] = published[g.n(len(published))]
		if v, ok := a.Require[v2Mod]; ok && semver.Compare(v, a.Require[allMod]) < 0 {
			a.Require[v2Mod] = a.Require[allMod]
		}
	}
	if a.Replace != "" && a.Replace != "./fake" {
		a.Replace = v2Mod + " " + a.Require[v2Mod]
	}
	if a.Replace == "./fake" {
		a.Files["fake/go.mod"] = "module " + v2Mod + "\n\ngo 1.21\n"
		a.Files["fake/ddtrace.go"] = "package ddtrace\n"
		a.Files["fake/orchestrion.yml"] = goodYML
	}
	a.Go = g.pick("1.18", "1.21.0", "1.22", "1.23.0", "1.24.0", "1.26.0")
	if semver.Compare("v"+a.Go, "v1.21") >= 0 && g.pct(30) {
		a.Chain = g.pick("go1.26.1", "go1.26.10")
	}
	a.Files["main.go"] = "package main\n\n" + main + "\nfunc main() {}\n"

	var sb strings.Builder
	sb.WriteString("module example.com/app\n\ngo " + a.Go + "\n\n")
	if a.Chain != "" {
		sb.WriteString("toolchain " + a.Chain + "\n\n")
	}
	var paths []string
	for p := range a.Require {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sb.WriteString("require " + p + " " + a.Require[p] + "\n\n")
	}
	if a.Replace != "" {
		sb.WriteString("replace " + v2Mod + " => " + a.Replace + "\n")
	}
	a.Files["go.mod"] = sb.String()
	if g.pct(20) {
		a.Mode = 0o664
	}
	return a
}

type option struct {
	noGenerate, noPrune, validate bool
}

func (o option) args() []string {
	l := []string{"pin"}
	if o.noGenerate {
		l = append(l, "--generate=false")
	}
	if o.noPrune {
		l = append(l, "--prune=false")
	}
	if o.validate {
		l = append(l, "--validate")
	}
	return l
}

func snapshot(dir string) map[string]string {
	m := map[string]string{}
	vh.Must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			text, err := os.ReadFile(p)
			vh.Must(err)
			info, err := d.Info()
			vh.Must(err)
			m[rel] = info.Mode().String() + "\n" + string(text)
		}
		return err
	}))
	return m
}

func pinIt(dir string, env []string, o option) (string, error) {
	cmd := exec.Command(os.Getenv("VERIF_ORCHESTRION"), o.args()...)
	cmd.Dir, cmd.Env = dir, env
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	return out.String(), err
}

type modfile struct {
	Go        string
	Toolchain string
	Require   []struct{ Path, Version string }
	Replace   []struct {
		Old, New struct{ Path, Version string }
	}
}

func readMod(dir string, env []string) (modfile, error) {
	out, err := goCmd(dir, env, "mod", "edit", "-json")
	if err != nil {
		return modfile{}, err
	}
	var m modfile
	vh.Must(json.Unmarshal([]byte(out), &m))
	return m, nil
}

func (m *modfile) version(path string) string {
	for _, r := range m.Require {
		if r.Path == path {
			return r.Version
		}
	}
	return ""
}

func (a *app) write(dir string) {
	for f, text := range a.Files {
		vh.Must(os.MkdirAll(filepath.Dir(filepath.Join(dir, f)), 0o755))
		vh.Must(os.WriteFile(filepath.Join(dir, f), []byte(text), 0o644))
	}
	if a.HasTool {
		vh.Must(os.Chmod(filepath.Join(dir, "orchestrion.tool.go"), a.Mode))
	}
}

func compareV(a, b string) int { return semver.Compare(a, b) }

// effective is the version (or directory) of the tracer that builds use.
func effective(dir string, env []string) (string, error) {
	out, err := goCmd(dir, env, "list", "-mod=mod", "-m", "-json", v2Mod)
	if err != nil {
		return "", err
	}
	var m struct {
		Version string
		Replace *struct{ Path, Version string }
	}
	vh.Must(json.Unmarshal([]byte(out), &m))
	if m.Replace != nil {
		if m.Replace.Version == "" {
			return m.Replace.Path, nil
		}
		return m.Replace.Version, nil
	}
	return m.Version, nil
}

func (a *app) latest() string {
	best, pre := "", ""
	for _, v := range a.Lists[v2Mod] {
		if semver.Prerelease(v) != "" {
			if pre == "" || semver.Compare(v, pre) > 0 {
				pre = v
			}
		} else if best == "" || semver.Compare(v, best) > 0 {
			best = v
		}
	}
	if best == "" {
		return pre
	}
	return best
}

// outcome is what pinning with certain options led to.
type outcome struct {
	tool     string // messages about the tool file
	versions string // messages about the versions
}

func (a *app) check(o option) (res outcome) {
	dir, err := os.MkdirTemp("", "pin")
	vh.Must(err)
	if os.Getenv("VERIF_KEEP") == "" {
		defer os.RemoveAll(dir)
	} else {
		fmt.Println("KEPT", dir)
	}
	fail := func(format string, args ...any) { // the first is kept
		if res.tool == "" {
			res.tool = fmt.Sprintf("pin with %+v: ", o) + fmt.Sprintf(format, args...)
		}
	}
	failV := func(format string, args ...any) {
		if res.versions == "" {
			res.versions = fmt.Sprintf("pin with %+v: ", o) + fmt.Sprintf(format, args...)
		}
	}
	env := proxy(dir, a.Lists)
	at := filepath.Join(dir, "app")
	vh.Must(os.MkdirAll(at, 0o755))
	a.write(at)
	before, err := effective(at, env)
	if _, required := a.Require[v2Mod]; err != nil && required {
		vh.Infra("%v", err)
	}

	out, err := pinIt(at, env, o)
	if err != nil {
		fail("%v\n%s", err, out)
		failV("%v\n%s", err, out)
		return res
	}
	after := snapshot(at)

	// The tool file.
	text, ok := after["orchestrion.tool.go"]
	if !ok {
		fail("there is no tool file")
		return res
	}
	mode, text, _ := strings.Cut(text, "\n")
	wantMode := os.FileMode(0o644)
	if a.HasTool {
		wantMode = a.Mode
	}
	if mode != wantMode.String() {
		fail("the tool file's mode is %s, it should be %s", mode, wantMode)
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "orchestrion.tool.go", text, parser.ParseComments)
	if err != nil {
		fail("the tool file is not valid: %v\n%s", err, text)
		return res
	}
	wantPkg := "tools"
	if a.HasTool {
		wantPkg = a.Package
	}
	if file.Name.Name != wantPkg {
		fail("the tool file's package is %s instead of %s", file.Name.Name, wantPkg)
	}
	tagged := false
	for _, cg := range file.Comments {
		for _, c := range cg.List {
			if cg.Pos() < file.Package && constraint.IsGoBuild(c.Text) {
				if x, err := constraint.Parse(c.Text); err == nil && x.Eval(func(tag string) bool { return tag == "tools" }) && !x.Eval(func(string) bool { return false }) {
					tagged = true
				}
			}
		}
	}
	if !tagged {
		fail("the tool file has lost its build constraint:\n%s", text)
	}
	var got []string
	for _, s := range file.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		got = append(got, p)
		trailing := s.Comment.Text()
		integ := p == toolMod
		if pr, ok := providing[p]; ok {
			integ = pr[0] && !o.validate || pr[1]
		}
		if p == toolMod {
			continue
		}
		if has := strings.TrimSpace(trailing) == "integration"; has != integ && !duplicate(a.Imports, p) {
			fail("the import of %s has the comment %q, providing integrations: %v\n%s\n%s", p, trailing, integ, text, out)
		}
	}
	want := []string{toolMod, allMod}
	var removed []string
	for _, p := range a.Imports {
		pr := providing[p]
		switch {
		case p == toolMod || p == allMod:
			if duplicate(a.Imports, p) && count(want, p) < count(a.Imports, p) {
				want = append(want, p)
			}
		case p == instrMod || p == v1Mod:
			removed = append(removed, p)
		case pr[1] || pr[0] && !o.validate || o.noPrune:
			want = append(want, p)
		default:
			removed = append(removed, p)
		}
		if p != instrMod && p != v1Mod && p != toolMod && !(pr[1] || pr[0] && !o.validate) && !strings.Contains(out, strconv.Quote(p)) {
			fail("the useless import of %s is not reported: %s", p, out)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if !slices.Equal(got, want) {
		fail("the tool file imports\n  %q, expected\n  %q\n%s\n%s", got, want, text, out)
	}
	orig := a.Files["orchestrion.tool.go"]
	for _, f := range strings.FieldsFunc(orig, func(r rune) bool { return r == ' ' || r == '\n' || r == '"' }) {
		if !strings.HasPrefix(f, "mark") {
			continue
		}
		gone := false
		for _, p := range removed {
			gone = gone || strings.HasSuffix(f, "@"+p+".")
		}
		if n := strings.Count(text, f); n != 1 && !gone {
			fail("%q occurs %d times in the tool file:\n%s", f, n, text)
		}
	}
	for _, decl := range []string{"func init()", "func helper()", "const after = 1"} {
		if strings.Contains(orig, decl) && !strings.Contains(text, decl) {
			fail("%q is gone:\n%s", decl, text)
		}
	}
	directive := ""
	if !o.noGenerate {
		directive = "//go:generate go run github.com/DataDog/orchestrion pin -generate"
		if o.noPrune {
			directive += " -prune=false"
		}
		if o.validate {
			directive += " -validate"
		}
	}
	found := 0
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "//go:generate go run github.com/DataDog/orchestrion pin") {
			found++
			if l != directive {
				fail("the tool file has the directive %q, expected %q\n%s", l, directive, text)
			}
		}
	}
	if found == 0 && directive != "" || found > 1 {
		fail("the tool file has the directive %q %d times\n%s", directive, found, text)
	}

	// The module file.
	mod, err := readMod(at, env)
	if err != nil {
		fail("go.mod: %v", err)
		return res
	}
	wantTool := "v1.12.0"
	if v := a.Require[toolMod]; v != "" && semver.Compare(v, wantTool) > 0 {
		wantTool = v
	}
	if v := mod.version(toolMod); v != wantTool {
		fail("the tool is required in version %s, expected %s", v, wantTool)
		failV("the tool is required in version %s, expected %s", v, wantTool)
	}
	wantGo := a.Go
	if semver.Compare("v"+a.Go, "v1.23.0") < 0 {
		wantGo = "1.23.0"
	}
	if mod.Go != wantGo {
		fail("go.mod is for go %s, expected %s", mod.Go, wantGo)
	}
	if mod.Toolchain != a.Chain {
		fail("go.mod is for toolchain %q, expected %q", mod.Toolchain, a.Chain)
	}
	if diff, err := goCmd(at, env, "mod", "tidy", "-diff"); err != nil {
		fail("the module is not tidy: %v\n%s", err, diff)
	}
	if _, err := goCmd(at, env, "list", "-deps", "./..."); err != nil && wantTool == "v1.12.0" {
		fail("the module cannot be loaded: %v", err)
	}
	allowed := map[string]bool{"orchestrion.tool.go": true, "go.sum": true}
	for f := range a.Files {
		allowed[f] = true
		if f != "go.mod" && f != "orchestrion.tool.go" && !strings.HasSuffix(after[f], "\n"+a.Files[f]) {
			fail("%s was changed", f)
		}
	}
	for f := range after {
		if !allowed[f] {
			fail("there is a new file %s", f)
		}
	}

	// The versions of the tracer.
	used, err := effective(at, env)
	if err != nil {
		failV("%v", err)
		return res
	}
	old, had := a.Require[v2Mod]
	var wantV string
	switch {
	case !had:
		wantV = maxV(a.latest(), shipped, a.Require[allMod])
	case semver.Compare(old, "v2.1.0") < 0:
		wantV = maxV(a.latest(), shipped, old)
	default:
		wantV = maxV(shipped, old)
	}
	if v := mod.version(allMod); v != wantV {
		failV("the integrations are required in version %s, expected %s (the tracer was required in version %q)", v, wantV, old)
	}
	if v := mod.version(v2Mod); v != wantV {
		failV("the tracer is required in version %s, expected %s (it was %q)", v, wantV, old)
	}
	switch {
	case a.Replace == "./fake":
		if used != "./fake" {
			failV("the tracer's replacement by a directory is gone: %s is used", used)
		}
	case used == wantV:
	case had && old != shipped && used == old && vh.Known("C28", "replaced-by-current"):
	default:
		failV("the tracer is used in version %s, expected %s (it was %q)", used, wantV, before)
	}
	if v := a.Require[v1Mod]; v != "" && mod.version(v1Mod) != "" && semver.Compare(mod.version(v1Mod), maxV(v, "v1.74.0")) < 0 {
		failV("the old tracer is required in version %s, it was %s", mod.version(v1Mod), v)
	}

	// Once more.
	for i := 0; ; i++ {
		out, err = pinIt(at, env, o)
		if err != nil {
			fail("pinning again: %v\n%s", err, out)
			return res
		}
		again := snapshot(at)
		if i == 0 && withoutReplacement(again["go.mod"]) == withoutReplacement(after["go.mod"]) && again["go.mod"] != after["go.mod"] && mod.version(v2Mod) != shipped && vh.Known("C27", "second-pin-replaces") {
			after["go.mod"], after["go.sum"] = again["go.mod"], again["go.sum"] // the sums are those of the replacement
			continue // but no more than this
		}
		for f := range again {
			if again[f] != after[f] {
				fail("pinning again changes %s\n--- after pinning\n%s--- after pinning again\n%s", f, after[f], again[f])
			}
		}
		if len(again) != len(after) {
			fail("pinning again removes files")
		}
		return res
	}
}

func withoutReplacement(text string) string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if !strings.HasPrefix(l, "replace "+v2Mod+" =>") && l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func duplicate(l []string, p string) bool { return count(l, p) > 1 }
func count(l []string, p string) (n int) {
	for _, q := range l {
		if q == p {
			n++
		}
	}
	return n
}

func maxV(l ...string) string {
	best := ""
	for _, v := range l {
		if v != "" && (best == "" || semver.Compare(v, best) > 0) {
			best = v
		}
	}
	return best
}

func (a *app) describe() string {
	var names []string
	for f := range a.Files {
		if f == "go.mod" || f == "main.go" || f == "orchestrion.tool.go" {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, f := range names {
		fmt.Fprintf(&sb, "--- %s\n%s", f, a.Files[f])
	}
	fmt.Fprintf(&sb, "--- published: %v\n", a.Lists[v2Mod])
	return sb.String()
}

func runPin(c *vh.Case, n int) []outcome {
	g := &gen{t: c.T}
	a := newApp(g)
	all := []option{{}, {noGenerate: true}, {noPrune: true}, {validate: true}, {true, true, false}, {true, false, true}, {false, true, true}, {true, true, true}}
	for i := range all {
		j := g.n(i + 1)
		all[i], all[j] = all[j], all[i]
	}
	all = all[:n]
	c.Desc(fmt.Sprintf("options %+v\n%s", all, a.describe()))
	c.Nontrivial(a.describe())
	c.Class(fmt.Sprintf("tool file %v", a.HasTool))
	outs := make([]outcome, len(all))
	var wg sync.WaitGroup
	for i, o := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = a.check(o)
		}()
	}
	wg.Wait()
	return outs
}

func TestC27_Pin(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "random modules (with or without tool file in many layouts, with comments and declarations, importing packages with and without integrations, legacy packages, required versions, go and toolchain directives, replacements) pinned with 4 of the 8 combinations of options against a local module proxy of stand-ins, twice each; non-trivial: all of them",
		Quick: 48, Thorough: 700,
	}, func(c *vh.Case) {
		for _, o := range runPin(c, 4) {
			if o.tool != "" {
				c.Violation("%s", o.tool)
			}
		}
	})
}

func TestC28_Integrations(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "the same modules and varying published versions of the tracer; the version that is used after pinning is the newest candidate or what it was before; non-trivial: all of them",
		Quick: 48, Thorough: 700,
	}, func(c *vh.Case) {
		for _, o := range runPin(c, 2) {
			if o.versions != "" {
				c.Violation("%s", o.versions)
			}
		}
	})
}
