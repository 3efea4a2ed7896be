// Package links_test simulates builds by the go command with the real weaver in between, and stand-ins for
// the compiler and linker that check what these check: whether what is imported can be found, and whether
// everything that is linked was compiled against the archives it is linked with.
package links_test

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/DataDog/orchestrion/internal/goflags"
	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/toolexec/aspect"
	"github.com/DataDog/orchestrion/internal/toolexec/aspect/linkdeps"
	"github.com/DataDog/orchestrion/internal/toolexec/proxy"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"github.com/blakesmith/ar"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"
)

type gen struct{ t *rapid.T }

func (g *gen) n(k int) int {
	return int((rapid.Uint32().Draw(g.t, "n") * 2654435761 >> 8) % uint32(k))
}
func (g *gen) pct(p int) bool          { return g.n(100) < p }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }

const mod = "example.com/m"

// pkg is a package as it is written, and what is injected into it.
type pkg struct {
	Path    string
	Imports []int // written
	Inject  []int `json:",omitempty"` // injected imports
	Links   []int `json:",omitempty"` // injected link-time dependencies
	Main    bool  `json:",omitempty"`

	LinksFirst bool // whether these are injected before the imports
	Split      bool // whether these are injected into another file
}

// stub is what the stand-in for the compiler leaves in an archive.
type stub struct {
	Imports map[string]string // what it was compiled against
	Relocs  []string          // other packages it refers to symbols of
}

type sim struct {
	dir     string
	pkgs    []*pkg
	target  int    // of tests
	tests   string // "in", "ext", "both", or none
	serial  *int
	archive map[string]string // by path, and "path [test]" for test variants
	plan    plan
	bin     string
}

type plan struct {
	Record string
	Real   string
	Canned map[string]string
}

var serial int

func setup(root string) string {
	real, err := exec.LookPath("go")
	vh.Must(err)
	bin := filepath.Join(root, "bin")
	vh.Must(os.MkdirAll(bin, 0o755))
	vh.Must(os.Symlink(os.Getenv("VERIF_HELPER"), filepath.Join(bin, "go")))
	vh.Must(os.Setenv("PATH", bin+":"+os.Getenv("PATH")))
	zerolog.SetGlobalLevel(zerolog.Disabled)
	goflags.SetFlags(context.Background(), "", []string{"build"})
	vh.Must(os.Setenv("REAL_GO", real))
	text, err := json.Marshal(plan{Record: "/dev/null", Real: real})
	vh.Must(err)
	vh.Must(os.WriteFile(filepath.Join(bin, "go.plan"), text, 0o644))
	srv, err := jobserver.New(context.Background(), &jobserver.Options{})
	vh.Must(err)
	vh.Must(os.Setenv(client.EnvVarJobserverURL, srv.ClientURL()))
	vh.Must(os.Setenv("GOFLAGS", "-mod=mod"))
	return bin
}

func write(name, text string) {
	vh.Must(os.MkdirAll(filepath.Dir(name), 0o755))
	vh.Must(os.WriteFile(name, []byte(text), 0o644))
}

// module writes the module and its configuration.
func (s *sim) module() {
	mdir := filepath.Join(s.dir, "mod")
	write(filepath.Join(mdir, "go.mod"), "module "+mod+"\n\ngo 1.24\n")
	write(filepath.Join(mdir, "orchestrion.tool.go"), "//go:build tools\n\npackage tools\n")
	var yml strings.Builder
	yml.WriteString("meta:\n  name: x\n  description: y\naspects:\n")
	n := 0
	for i, p := range s.pkgs {
		var imports, text strings.Builder
		for _, j := range p.Imports {
			fmt.Fprintf(&imports, "import p%d %q\n", j, s.pkgs[j].Path)
			fmt.Fprintf(&text, "var _ = p%d.V\n", j)
		}
		name := fmt.Sprintf("p%d", i)
		if p.Main {
			name = "main"
			text.WriteString("\nfunc main() {}\n")
		}
		write(filepath.Join(s.src(i), "p.go"), fmt.Sprintf("package %s\n\n%s\nvar V = 1\n\nfunc F() {}\n\n%s", name, imports.String(), text.String()))
		write(filepath.Join(s.src(i), "q.go"), fmt.Sprintf("package %s\n\nfunc G() {}\n", name))
		if len(p.Inject)+len(p.Links) == 0 {
			continue
		}
		n++
		head := func(id, fun string) {
			fmt.Fprintf(&yml, "  - id: %s%d\n    join-point:\n      all-of:\n        - import-path: %s\n        - function-body:\n            function:\n              - name: %s\n    advice:\n", id, i, p.Path, fun)
		}
		imported := func() {
			if len(p.Inject) == 0 {
				return
			}
			yml.WriteString("      - prepend-statements:\n          imports:\n")
			for _, j := range p.Inject {
				fmt.Fprintf(&yml, "            q%d: %s\n", j, s.pkgs[j].Path)
			}
			yml.WriteString("          template: |-\n")
			for _, j := range p.Inject {
				fmt.Fprintf(&yml, "            _ = q%d.V\n", j)
			}
		}
		linked := func() {
			if len(p.Links) == 0 {
				return
			}
			yml.WriteString("      - inject-declarations:\n          links:\n")
			for _, j := range p.Links {
				fmt.Fprintf(&yml, "            - %s\n", s.pkgs[j].Path)
			}
			yml.WriteString("          template: |-\n")
			for _, j := range p.Links {
				fmt.Fprintf(&yml, "            //go:linkname __f%d %s.F\n            func __f%d()\n", j, s.pkgs[j].Path, j)
			}
		}
		switch {
		case p.Split && len(p.Inject) > 0 && len(p.Links) > 0:
			head("a", "F")
			imported()
			head("b", "G")
			linked()
		case p.LinksFirst:
			head("a", "F")
			linked()
			imported()
		default:
			head("a", "F")
			imported()
			linked()
		}
	}
	if n == 0 {
		yml.Reset()
		yml.WriteString("meta:\n  name: x\n  description: y\naspects: []\n")
	}
	write(filepath.Join(mdir, "orchestrion.yml"), yml.String())
	vh.Must(os.Chdir(mdir))
}

func (s *sim) src(i int) string {
	return filepath.Join(s.dir, "mod", strings.TrimPrefix(s.pkgs[i].Path, mod+"/"))
}

// closure is what a package depends on as it is written, itself included.
func (s *sim) closure(from ...int) []int {
	seen := map[int]bool{}
	var visit func(int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for _, j := range s.pkgs[i].Imports {
			visit(j)
		}
	}
	for _, i := range from {
		visit(i)
	}
	return slices.Sorted(maps.Keys(seen))
}

func (s *sim) augmented() bool { return s.tests == "in" || s.tests == "both" }

// variant tells whether there is a variant of a package for the tests.
func (s *sim) variant(i int) bool {
	return s.augmented() && slices.Contains(s.closure(i), s.target)
}

// id is how a package is called when it is built, for the tests or not.
func (s *sim) id(i int, test bool) string {
	if test && s.variant(i) {
		return fmt.Sprintf("%s [%s.test]", s.pkgs[i].Path, s.pkgs[s.target].Path)
	}
	return s.pkgs[i].Path
}

// can makes the answers to go list.
func (s *sim) can() {
	s.plan = plan{Record: "/dev/null", Real: os.Getenv("REAL_GO"), Canned: map[string]string{}}
	entry := func(sb *strings.Builder, i int, test bool, root bool) {
		p := s.pkgs[i]
		m := map[string]any{"ImportPath": s.id(i, test), "Name": fmt.Sprintf("p%d", i), "Dir": s.src(i), "GoFiles": []string{"p.go", "q.go"}, "CompiledGoFiles": []string{"p.go", "q.go"}, "DepOnly": !root, "Export": s.path(s.id(i, test))}
		if s.id(i, test) != p.Path {
			m["ForTest"] = s.pkgs[s.target].Path
		}
		imports, as := []string{}, map[string]string{}
		for _, j := range p.Imports {
			id := s.id(j, test)
			imports = append(imports, id)
			if id != s.pkgs[j].Path {
				as[s.pkgs[j].Path] = id
			}
		}
		m["Imports"], m["ImportMap"] = imports, as
		b, err := json.Marshal(m)
		vh.Must(err)
		sb.Write(b)
		sb.WriteString("\n")
	}
	for i, p := range s.pkgs {
		var sb strings.Builder
		for _, j := range s.closure(i) {
			entry(&sb, j, false, j == i)
		}
		s.plan.Canned[p.Path] = sb.String()
		if i != s.target {
			continue
		}
		// Everything there is, with its variants; the test executable would be there, too.
		sb.Reset()
		for j := range s.pkgs {
			entry(&sb, j, false, j == i)
			if s.id(j, true) != s.id(j, false) {
				entry(&sb, j, true, true)
			}
		}
		s.plan.Canned["test:"+p.Path] = sb.String()
	}
	text, err := json.Marshal(s.plan)
	vh.Must(err)
	vh.Must(os.WriteFile(filepath.Join(s.bin, "go.plan"), text, 0o644))
}

// path is where the archive of a package is put.
func (s *sim) path(id string) string {
	return filepath.Join(s.dir, "cache", strings.NewReplacer("/", "_", " ", "_").Replace(id)+".a")
}

type failure struct{ error }

// importcfg parses an import configuration.
func importcfg(file string) map[string]string {
	text, err := os.ReadFile(file)
	vh.Must(err)
	m := map[string]string{}
	for _, l := range strings.Split(string(text), "\n") {
		if l, ok := strings.CutPrefix(strings.TrimSpace(l), "packagefile "); ok {
			k, v, _ := strings.Cut(l, "=")
			m[k] = v
		}
	}
	return m
}

func format(m map[string]string) string {
	var sb strings.Builder
	for _, k := range slices.Sorted(maps.Keys(m)) {
		fmt.Fprintf(&sb, "packagefile %s=%s\n", k, m[k])
	}
	return sb.String()
}

// step is what a command is given.
type step struct {
	Before  map[string]string // import configuration
	After   map[string]string
	Imports map[string]bool // by the sources of the package itself
	Synth   []string        // by generated sources
	Problem string
}

// compile does what go does to compile a package, the files of which are given along with what they may
// import; it returns an error if the interception failed.
func (s *sim) compile(id, pflag string, files []string, deps map[string]string) (*step, error) {
	serial++
	work := filepath.Join(s.dir, "work")
	b := filepath.Join(work, fmt.Sprintf("b%03d", serial))
	vh.Must(os.MkdirAll(b, 0o755))
	cfg := filepath.Join(b, "importcfg")
	original := "# import config\n" + format(deps)
	write(cfg, original)
	out := filepath.Join(b, "_pkg_.a")
	args := append([]string{"/go/tool/compile", "-o", out, "-trimpath", b + "=>", "-p", pflag, "-lang=go1.24", "-complete",
		"-buildid", fmt.Sprintf("id%d/id%d", serial, serial), "-goversion", "go1.26.10", "-c=4", "-nolocalimports", "-importcfg", cfg, "-pack"}, files...)
	vh.Must(os.Setenv("TOOLEXEC_IMPORTPATH", id))
	ctx := context.Background()
	cmd, err := proxy.ParseCommand(ctx, id, slices.Clone(args))
	if err != nil {
		return nil, failure{err}
	}
	w := aspect.Weaver{ImportPath: id}
	if err = proxy.ProcessCommand(ctx, cmd, w.OnCompile); err == nil {
		err = proxy.ProcessCommand(ctx, cmd, w.OnCompileMain)
	}
	if err != nil {
		_ = cmd.Close(ctx, err)
		return nil, failure{err}
	}

	// The compiler.
	st := &step{Before: deps, After: importcfg(cfg), Imports: map[string]bool{}}
	have := stub{Imports: map[string]string{}}
	got := cmd.Args()
	own := map[string]bool{} // packages of which the files are
	for _, f := range got[len(args)-len(files):] {
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			st.Problem = fmt.Sprintf("%s can not be parsed: %v", f, err)
			break
		}
		own[file.Name.Name] = true
		generated := filepath.Base(f) != "_testmain.go" && !slices.Contains([]string{"p.go", "q.go", "in_test.go", "ext_test.go"}, filepath.Base(f))
		for _, im := range file.Imports {
			path, err := strconv.Unquote(im.Path.Value)
			vh.Must(err)
			if path == "unsafe" {
				continue
			}
			if generated {
				st.Synth = append(st.Synth, path)
			} else {
				st.Imports[path] = true
			}
			arch, found := st.After[path]
			if !found && st.Problem == "" {
				st.Problem = fmt.Sprintf("could not import %s: it is not in the import configuration %v", path, st.After)
			}
			have.Imports[path] = arch
		}
		for _, g := range file.Comments {
			for _, c := range g.List {
				if f := strings.Fields(c.Text); len(f) == 3 && f[0] == "//go:linkname" {
					have.Relocs = append(have.Relocs, strings.TrimSuffix(f[2], ".F"))
				}
			}
		}
	}
	if len(own) > 1 && st.Problem == "" {
		st.Problem = fmt.Sprintf("the files belong to different packages: %v", own)
	}
	if backup, err := os.ReadFile(cfg + ".original"); !maps.Equal(st.Before, st.After) && (err != nil || string(backup) != original) && st.Problem == "" {
		st.Problem = fmt.Sprintf("the import configuration was changed, but the original is not kept: %q (%v)", backup, err)
	}
	if st.Problem != "" {
		_ = cmd.Close(ctx, fmt.Errorf("%s", st.Problem))
		return st, nil
	}
	text, err := json.Marshal(have)
	vh.Must(err)
	var buf bytes.Buffer
	aw := ar.NewWriter(&buf)
	vh.Must(aw.WriteGlobalHeader())
	vh.Must(aw.WriteHeader(&ar.Header{Name: "stub", Mode: 0o644, Size: int64(len(text))}))
	_, err = aw.Write(text)
	vh.Must(err)
	vh.Must(os.WriteFile(out, buf.Bytes(), 0o644))
	if err := cmd.Close(ctx, nil); err != nil {
		return nil, failure{err}
	}
	data, err := os.ReadFile(out)
	vh.Must(err)
	vh.Must(os.MkdirAll(filepath.Join(s.dir, "cache"), 0o755))
	vh.Must(os.WriteFile(s.path(id), data, 0o644))
	return st, nil
}

func readStub(file string) (st stub, err error) {
	f, err := os.Open(file)
	if err != nil {
		return st, err
	}
	defer f.Close()
	rd := ar.NewReader(f)
	for {
		h, err := rd.Next()
		if err != nil {
			return st, err
		}
		if h.Name == "stub" {
			data, err := io.ReadAll(rd)
			if err != nil {
				return st, err
			}
			return st, json.Unmarshal(data, &st)
		}
	}
}

// link does what go does to link an executable the package of which is given; it returns the problem that
// the linker has with it, or an error if the interception failed.
func (s *sim) link(id string, deps map[string]string) (*step, error) {
	serial++
	work := filepath.Join(s.dir, "work")
	b := filepath.Join(work, fmt.Sprintf("b%03d", serial))
	cfg := filepath.Join(b, "importcfg.link")
	main := s.path(id)
	deps = maps.Clone(deps)
	deps[id] = main
	original := format(deps) + "modinfo \"some information\"\n"
	write(cfg, original)
	vh.Must(os.MkdirAll(filepath.Join(b, "exe"), 0o755))
	args := []string{"/go/tool/link", "-o", filepath.Join(b, "exe", "a.out"), "-importcfg", cfg, "-buildmode=exe", "-buildid=x", "-extld=gcc", main}
	vh.Must(os.Setenv("TOOLEXEC_IMPORTPATH", id))
	ctx := context.Background()
	cmd, err := proxy.ParseCommand(ctx, id, slices.Clone(args))
	if err != nil {
		return nil, failure{err}
	}
	err = proxy.ProcessCommand(ctx, cmd, aspect.Weaver{ImportPath: id}.OnLink)
	if err == nil {
		err = cmd.Close(ctx, nil)
	}
	if err != nil {
		return nil, failure{err}
	}
	st := &step{Before: deps, After: importcfg(cfg)}
	if !slices.Equal(cmd.Args(), args) {
		st.Problem = fmt.Sprintf("the linker is run with %q, expected %q", cmd.Args(), args)
		return st, nil
	}
	if backup, err := os.ReadFile(cfg + ".original"); !maps.Equal(st.Before, st.After) && (err != nil || string(backup) != original) {
		st.Problem = fmt.Sprintf("the import configuration was changed, but the original is not kept: %q (%v)", backup, err)
		return st, nil
	}
	if text, err := os.ReadFile(cfg); err != nil || !strings.Contains(string(text), "modinfo \"some information\"\n") {
		st.Problem = fmt.Sprintf("the import configuration lost its other lines: %q", text)
		return st, nil
	}

	// The linker.
	loaded := map[string]bool{}
	var relocs [][2]string
	var load func(path, arch, from string)
	load = func(path, arch, from string) {
		if loaded[path] || st.Problem != "" {
			return
		}
		loaded[path] = true
		h, err := readStub(arch)
		if err != nil {
			st.Problem = fmt.Sprintf("the archive of %s needed by %s can not be read: %v", path, from, err)
			return
		}
		for _, im := range slices.Sorted(maps.Keys(h.Imports)) {
			a, found := st.After[im]
			if !found {
				st.Problem = fmt.Sprintf("%s needed by %s is not in the import configuration", im, path)
				return
			}
			if a != h.Imports[im] {
				st.Problem = fmt.Sprintf("fingerprint mismatch: %s is linked with %s as %s, but was compiled against %s", path, im, filepath.Base(a), filepath.Base(h.Imports[im]))
				return
			}
			load(im, a, path)
		}
		for _, r := range h.Relocs {
			relocs = append(relocs, [2]string{path, r})
		}
	}
	load(id, main, "the executable")
	for _, r := range relocs {
		if !loaded[r[1]] && st.Problem == "" {
			st.Problem = fmt.Sprintf("relocation target %s.F of %s is not defined, the package is not linked", r[1], r[0])
		}
	}
	return st, nil
}

// recorded is what link-time dependencies are recorded in an archive.
func recorded(file string) []string {
	l, err := linkdeps.FromArchive(context.Background(), file)
	vh.Must(err)
	return l.Dependencies()
}
