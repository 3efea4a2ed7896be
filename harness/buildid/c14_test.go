// Package buildid_test computes the version text of generated builds.
package buildid_test

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/DataDog/orchestrion/internal/goflags"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/toolexec"
	"github.com/DataDog/orchestrion/internal/toolexec/proxy"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"
)

// unit is a package that may be injected, directly or not.
type unit struct {
	Mod     int    // module: 0 is the main one
	Imports []int  // other units (larger index)
	Direct  string // how the configuration names it: "", "import", "link", "template type"
	Embeds  bool
	Extra   bool // a second Go file
	Asm     bool // an assembly file
	Tagged  bool // a file that needs a build tag
	Nested  bool // embedded files in a directory
}

type world struct {
	Mods   int // 1: only the main module
	Units  []unit
	Work   bool // the modules are joined by a go.work file, instead of replacements
	Sub    bool // the build starts in a sub-directory
	Extend bool // part of the configuration is in an extended file
}

func modPath(i int) string {
	if i == 0 {
		return "example.com/app"
	}
	return fmt.Sprintf("example.com/mod%d", i)
}

func modDir(i int) string {
	if i == 0 {
		return "app"
	}
	return fmt.Sprintf("mod%d", i)
}

func (w *world) path(i int) string { return fmt.Sprintf("%s/u%d", modPath(w.Units[i].Mod), i) }
func (w *world) dir(i int) string  { return fmt.Sprintf("%s/u%d", modDir(w.Units[i].Mod), i) }

// injectable are the units that weaving can bring into a build.
func (w *world) injectable() []int {
	seen := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for _, k := range w.Units[i].Imports {
			visit(k)
		}
	}
	for i, u := range w.Units {
		if u.Direct != "" {
			visit(i)
		}
	}
	var out []int
	for i := range seen {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

func (w *world) files() map[string]string {
	fs := map[string]string{}
	uses := make([]map[int]bool, w.Mods) // modules a module needs
	for i := range uses {
		uses[i] = map[int]bool{}
	}
	for i, u := range w.Units {
		var b strings.Builder
		fmt.Fprintf(&b, "package u%d\n\nimport (\n\t_ \"os\"\n", i)
		if u.Embeds {
			b.WriteString("\t_ \"embed\"\n")
		}
		for _, k := range u.Imports {
			fmt.Fprintf(&b, "\t_ %q\n", w.path(k))
			uses[u.Mod][w.Units[k].Mod] = true
		}
		b.WriteString(")\n\ntype T struct{}\n\nfunc F() { println(\"one\") }\n")
		if u.Embeds {
			pat := "data.txt"
			if u.Nested {
				pat = "data"
			}
			fmt.Fprintf(&b, "\n//go:embed %s\nvar data string\n", pat)
			if u.Nested {
				s := b.String()
				b.Reset()
				b.WriteString(strings.Replace(strings.Replace(s, "var data string", "var data embed.FS", 1), "_ \"embed\"", "\"embed\"", 1))
				fs[w.dir(i)+"/data/a.txt"] = "embedded a"
				fs[w.dir(i)+"/data/deep/b.txt"] = "embedded b"
			} else {
				fs[w.dir(i)+"/data.txt"] = "embedded"
			}
		}
		if u.Extra {
			fs[w.dir(i)+"/extra.go"] = fmt.Sprintf("package u%d\n\nfunc Extra() int { return 1 }\n", i)
		}
		if u.Asm {
			fs[w.dir(i)+"/asm_amd64.s"] = "// one\n"
		}
		if u.Tagged {
			fs[w.dir(i)+"/tagged.go"] = fmt.Sprintf("//go:build sometag\n\npackage u%d\n\nfunc Tagged() int { return 1 }\n", i)
		}
		fs[w.dir(i)+"/u.go"] = b.String()
	}
	for i := range w.Units {
		uses[0][w.Units[i].Mod] = true
	}
	for m := 0; m < w.Mods; m++ {
		mod := "module " + modPath(m) + "\n\ngo 1.24\n"
		for k := 1; k < w.Mods; k++ {
			if m == 0 || uses[m][k] && k != m {
				mod += fmt.Sprintf("\nrequire %s v0.0.0\n", modPath(k))
			}
		}
		for k := 1; m == 0 && k < w.Mods; k++ {
			mod += fmt.Sprintf("\nreplace %s => ../%s\n", modPath(k), modDir(k))
		}
		fs[modDir(m)+"/go.mod"] = mod
	}
	if w.Work {
		text := "go 1.24\n"
		for m := 0; m < w.Mods; m++ {
			text += "\nuse ./" + modDir(m) + "\n"
		}
		fs["go.work"] = text
	}
	head := "meta:\n  name: x\n  description: y\n"
	fs["app/main.go"] = "package main\n\nfunc main() {}\n"
	fs["app/sub/sub.go"] = "package sub\n"
	fs["app/orchestrion.tool.go"] = "//go:build tools\n\npackage tools\n"
	var asp [2]string
	for i, u := range w.Units {
		t := fmt.Sprintf("  - id: a%d\n    join-point:\n      function-body:\n        directive: z:a%d\n    advice:\n", i, i)
		switch u.Direct {
		case "import":
			t += fmt.Sprintf("      - prepend-statements:\n          imports:\n            x: %s\n          template: x.F()\n", w.path(i))
		case "link":
			t += fmt.Sprintf("      - inject-declarations:\n          links:\n            - %s\n          template: |-\n            //go:linkname __x %s.F\n            func __x()\n", w.path(i), w.path(i))
		case "type":
			t = fmt.Sprintf("  - id: a%d\n    join-point:\n      struct-definition: example.com/app/sub.S\n    advice:\n      - add-struct-field:\n          name: X\n          type: %s.T\n", i, w.path(i))
		default:
			continue
		}
		asp[i%2] += t
	}
	asp[0] += "  - id: plain\n    join-point:\n      function-body:\n        directive: z:plain\n    advice:\n      - prepend-statements:\n          template: println(1)\n"
	if w.Extend && asp[1] != "" {
		fs["app/orchestrion.yml"] = head + "extends:\n  - conf/more.yml\naspects:\n" + asp[0]
		fs["app/conf/more.yml"] = head + "aspects:\n" + asp[1]
	} else {
		fs["app/orchestrion.yml"] = head + "aspects:\n" + asp[0] + asp[1]
	}
	return fs
}

func write(dir string, files map[string]string) {
	for name, text := range files {
		path := filepath.Join(dir, name)
		vh.Must(os.MkdirAll(filepath.Dir(path), 0o755))
		vh.Must(os.WriteFile(path, []byte(text), 0o644))
	}
}

var tool = func() string {
	out, err := exec.Command("go", "tool", "-n", "compile").Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}()

// version is what one build would get; every call is a new build.
func version(dir string) (string, error) {
	vh.Must(os.Chdir(dir))
	os.Unsetenv(client.EnvVarJobserverURL)
	ctx := context.Background()
	cmd, err := proxy.ParseCommand(ctx, "", []string{tool, "-V=full"})
	vh.Must(err)
	return toolexec.ComputeVersion(ctx, cmd)
}

// TestC14_BuildIdentity changes one input of weaving, and compares the version texts before and after.
func TestC14_BuildIdentity(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	goflags.SetFlags(context.Background(), "", []string{"build"}) // there is no go command among the parents of this process
	vh.Must(os.Setenv("GOPROXY", "off"))
	root, err := os.MkdirTemp("", "c14")
	vh.Must(err)
	defer os.RemoveAll(root)
	round := 0
	vh.Run(t, vh.Opts{
		Rule:  "something that influences weaving was changed: the configuration, or a package that may be injected",
		Quick: 150, Thorough: 700,
	}, func(c *vh.Case) {
		w := &world{Mods: rapid.IntRange(1, 3).Draw(c.T, "modules"), Extend: rapid.Bool().Draw(c.T, "extend"), Sub: rapid.IntRange(0, 3).Draw(c.T, "sub") == 0}
		w.Work = rapid.IntRange(0, 2).Draw(c.T, "workspace") == 0
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "units"); i < n; i++ {
			u := unit{Mod: rapid.IntRange(0, w.Mods-1).Draw(c.T, "module"), Direct: rapid.SampledFrom([]string{"", "", "import", "link", "type"}).Draw(c.T, "direct"),
				Embeds: rapid.IntRange(0, 2).Draw(c.T, "embed") == 0, Extra: rapid.Bool().Draw(c.T, "extra"), Asm: rapid.IntRange(0, 3).Draw(c.T, "asm") == 0,
				Nested: rapid.Bool().Draw(c.T, "nested"), Tagged: rapid.IntRange(0, 2).Draw(c.T, "tagged") == 0}
			for k := i + 1; k < n; k++ {
				if rapid.IntRange(0, 1).Draw(c.T, "import") == 0 {
					u.Imports = append(u.Imports, k)
				}
			}
			w.Units = append(w.Units, u)
		}
		// Imports only go from a module to itself or to later ones, except to the main module's.
		for i := range w.Units {
			var ok []int
			for _, k := range w.Units[i].Imports {
				if from, to := w.Units[i].Mod, w.Units[k].Mod; from == 0 || to >= from {
					ok = append(ok, k)
				}
			}
			w.Units[i].Imports = ok
		}
		round++
		dir := filepath.Join(root, fmt.Sprint(round))
		defer os.RemoveAll(dir)
		defer os.Chdir(root)
		write(dir, w.files())
		cwd := filepath.Join(dir, "app")
		if w.Sub {
			cwd = filepath.Join(cwd, "sub")
		}
		inj := w.injectable()
		has := func(f func(unit) bool) []int {
			var out []int
			for _, i := range inj {
				if f(w.Units[i]) {
					out = append(out, i)
				}
			}
			return out
		}
		type change struct {
			what  string
			apply func()
			must  bool // the version must change
		}
		edit := func(name, from, to string) func() {
			return func() {
				path := filepath.Join(dir, name)
				data, err := os.ReadFile(path)
				vh.Must(err)
				text := strings.Replace(string(data), from, to, 1)
				if text == string(data) {
					vh.Infra("%s does not contain %q:\n%s", name, from, data)
				}
				vh.Must(os.WriteFile(path, []byte(text), 0o644))
			}
		}
		touch := func() {
			vh.Must(filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
				if err != nil || i.IsDir() {
					return err
				}
				return os.Chtimes(p, time.Now(), time.Now())
			}))
		}
		changes := []change{
			{"nothing", func() {}, false},
			{"time stamps", touch, false},
			{"a template", edit("app/orchestrion.yml", "println(1)", "println(2)"), true},
			{"a join point", edit("app/orchestrion.yml", "z:plain", "z:plane"), true},
		}
		if w.Extend {
			if _, err := os.Stat(filepath.Join(dir, "app/conf/more.yml")); err == nil {
				changes = append(changes, change{"an extended file", edit("app/conf/more.yml", "z:a", "z:b"), true})
				if strings.Contains(w.files()["app/conf/more.yml"], "z:a") == false {
					changes = changes[:len(changes)-1]
				}
			}
		}
		add := func(what string, is []int, f func(i int) change) {
			for _, i := range is {
				ch := f(i)
				ch.what = fmt.Sprintf("%s of %s", what, w.path(i))
				changes = append(changes, ch)
			}
		}
		every := func(unit) bool { return true }
		add("source code", has(every), func(i int) change { return change{apply: edit(w.dir(i)+"/u.go", `"one"`, `"two"`), must: true} })
		add("comment", has(every), func(i int) change {
			return change{apply: edit(w.dir(i)+"/u.go", `type T`, "// T is.\ntype T"), must: true}
		})
		add("new file", has(every), func(i int) change {
			return change{apply: func() { write(dir, map[string]string{w.dir(i) + "/new.go": fmt.Sprintf("package u%d\n", i)}) }, must: true}
		})
		add("renamed file", has(func(u unit) bool { return u.Extra }), func(i int) change {
			return change{apply: func() {
				vh.Must(os.Rename(filepath.Join(dir, w.dir(i), "extra.go"), filepath.Join(dir, w.dir(i), "zextra.go")))
			}, must: true}
		})
		add("second file", has(func(u unit) bool { return u.Extra }), func(i int) change {
			return change{apply: edit(w.dir(i)+"/extra.go", "return 1", "return 2"), must: true}
		})
		add("removed file", has(func(u unit) bool { return u.Extra }), func(i int) change {
			return change{apply: func() { vh.Must(os.Remove(filepath.Join(dir, w.dir(i), "extra.go"))) }, must: true}
		})
		add("assembly", has(func(u unit) bool { return u.Asm }), func(i int) change {
			return change{apply: edit(w.dir(i)+"/asm_amd64.s", "one", "two"), must: true}
		})
		add("embedded file", has(func(u unit) bool { return u.Embeds && !u.Nested }), func(i int) change {
			return change{apply: edit(w.dir(i)+"/data.txt", "embedded", "other"), must: true}
		})
		add("nested embedded file", has(func(u unit) bool { return u.Embeds && u.Nested }), func(i int) change {
			return change{apply: edit(w.dir(i)+"/data/deep/b.txt", "embedded", "other"), must: true}
		})
		add("new embedded file", has(func(u unit) bool { return u.Embeds && u.Nested }), func(i int) change {
			return change{apply: func() { write(dir, map[string]string{w.dir(i) + "/data/deep/c.txt": "embedded"}) }, must: true}
		})
		add("build tags with a file", has(func(u unit) bool { return u.Tagged }), func(i int) change {
			return change{apply: func() { vh.Must(os.Setenv("GOFLAGS", "-tags=sometag")) }, must: true}
		})
		// Two files of injectable packages swap their contents.
		if two := has(func(u unit) bool { return u.Embeds && !u.Nested }); len(two) >= 2 {
			changes = append(changes, change{"contents moved from " + w.path(two[0]) + " to " + w.path(two[1]), func() {
				write(dir, map[string]string{w.dir(two[0]) + "/data.txt": "second", w.dir(two[1]) + "/data.txt": "first"})
			}, true})
			write(dir, map[string]string{w.dir(two[0]) + "/data.txt": "first embedded", w.dir(two[1]) + "/data.txt": "second embedded"})
			write(dir, map[string]string{w.dir(two[0]) + "/data.txt": "first", w.dir(two[1]) + "/data.txt": "second"})
			for k := range changes {
				if strings.HasPrefix(changes[k].what, "embedded file of ") {
					i := strings.TrimPrefix(changes[k].what, "embedded file of ")
					for _, j := range two[:2] {
						if w.path(j) == i {
							changes[k].apply = func() { write(dir, map[string]string{w.dir(j) + "/data.txt": "third"}) }
						}
					}
				}
			}
		}
		ch := changes[int(rapid.Uint32().Draw(c.T, "change")*2654435761>>12)%len(changes)]
		c.Desc(map[string]any{"world": w, "change": ch.what})
		kind, _, _ := strings.Cut(ch.what, " of ")
		c.Class(kind)

		vh.Must(os.Setenv("GOFLAGS", ""))
		v0, err := version(cwd)
		if err != nil {
			c.Violation("computing the version: %v", err)
		}
		plain, err := exec.Command(tool, "-V=full").Output()
		vh.Must(err)
		suffix, ok := strings.CutPrefix(v0, strings.TrimSpace(string(plain)))
		if f := strings.Fields(v0); len(f) != 3 || f[0] != "compile" || f[1] != "version" || !ok || len(suffix) < 10 || strings.ContainsAny(v0, "\n\t") {
			c.Violation("the go command cannot read the version %q", v0)
		}
		if again, err := version(cwd); err != nil || again != v0 {
			c.Violation("the version of the same build is %q and then %q (%v)", v0, again, err)
		}
		ch.apply()
		v1, err := version(cwd)
		vh.Must(os.Setenv("GOFLAGS", ""))
		if err != nil {
			c.Violation("computing the version after the change of %s: %v", ch.what, err)
		}
		if ch.must && v1 == v0 {
			c.Violation("the version stays %q after a change of %s", v0, ch.what)
		}
		if !ch.must && v1 != v0 {
			c.Violation("the version changes from %q to %q though nothing changed (%s)", v0, v1, ch.what)
		}
		if ch.must {
			c.Nontrivial(fmt.Sprintf("%+v %s", w, ch.what))
		}
	})
}
