package cmdline_test

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/goflags"
	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/toolexec/aspect/linkdeps"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"github.com/blakesmith/ar"
	"github.com/rs/zerolog"
)

// sameEnv compares the environment a tool gets with the one it was started in.
func sameEnv(c *vh.Case, rec record, env []string) {
	have := rec.environ()
	for k, v := range envMap(env) {
		if w, ok := have[k]; !ok || w != v {
			c.Violation("the variable %s is %q (%v), expected %q", k, w, ok, v)
		}
		delete(have, k)
	}
	for k := range have {
		if !strings.HasPrefix(k, "DD_") && !strings.HasPrefix(k, "_DD_") && !strings.HasPrefix(k, "ORCHESTRION_") && k != "PWD" {
			c.Violation("the variable %s is added: %q", k, have[k])
		}
	}
}

// TestC26_Tools is about the tools nothing is ever changed about.
func TestC26_Tools(t *testing.T) {
	root, err := os.MkdirTemp("", "tools")
	vh.Must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	vh.Must(err)
	bin := os.Getenv("VERIF_ORCHESTRION")

	vh.Run(t, vh.Opts{
		Rule:  "tools with all kinds of names other than compile and link, in all kinds of directories, with random arguments, environment, input, output, and ends (statuses and signals), also missing and broken ones; non-trivial: the tool exists",
		Quick: 325, Thorough: 5000,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		dir, err := os.MkdirTemp(root, "case")
		vh.Must(err)
		defer os.RemoveAll(dir)

		name := g.pick("asm", "cgo", "pack", "cover", "vet", "buildid", "nm", "test2json", "covdata", "compiler", "linker", "link2", "compile-x", "Compile", "LINK", "asm.exe", "my tool", "x-compile", "co", "é", "-V", "preprofile", "fix", "objdump")
		tool := filepath.Join(dir, g.pick("tool", "a b", "compile", "link", "compile.d", `q"x`, "it's"), name)
		broken := ""
		if g.pct(8) {
			broken = g.pick("missing", "not executable", "directory", "garbage")
		}
		var args []string
		for range g.n(8) {
			args = append(args, g.pick("-V=full", "-V", "-o", "x.a", "-p", "main", "-h", "--help", "--", "-C=/", "-C", "/", "--log-level=DEBUG", "-importcfg", "importcfg", "@args", "", "-", "help", "./a.go", "compile", "link", "toolexec", "--generate-bash-completion", g.text(), g.text(), g.text()))
		}
		p := g.plan(dir)
		switch broken {
		case "":
			standIn(tool, p)
		case "not executable", "garbage":
			vh.Must(os.MkdirAll(filepath.Dir(tool), 0o755))
			mode := os.FileMode(0o644)
			if broken == "garbage" {
				mode = 0o755
			}
			vh.Must(os.WriteFile(tool, []byte("\x00garbage"), mode))
		case "directory":
			vh.Must(os.MkdirAll(tool, 0o755))
		}
		work := filepath.Join(dir, "work")
		vh.Must(os.MkdirAll(work, 0o755))
		switch g.n(4) {
		case 0:
			vh.Must(os.WriteFile(filepath.Join(work, "go.mod"), []byte("module example.com/m\n"), 0o644))
		case 1:
			vh.Must(os.WriteFile(filepath.Join(work, "go.mod"), []byte("garbage"), 0o644))
			vh.Must(os.WriteFile(filepath.Join(work, "orchestrion.yml"), []byte("garbage"), 0o644))
		}
		stdin := g.bytes()
		env := append(baseEnv(""), g.environ()...)
		if g.pct(70) {
			env = append(env, "TOOLEXEC_IMPORTPATH="+g.pick("main", "runtime", "example.com/m", "example.com/m [example.com/m.test]", "", "github.com/DataDog/orchestrion", g.text()))
		}
		c.Desc(map[string]any{"tool": strings.TrimPrefix(tool, dir), "args": fmt.Sprintf("%q", args), "environ": fmt.Sprintf("%q", env[len(baseEnv("")):]), "broken": broken, "exit": p.Exit, "signal": p.Signal})
		c.Class(broken)

		r := run(bin, append([]string{"toolexec", tool}, args...), work, env, stdin)
		recs := records(p)
		if broken != "" {
			if r.Exit == 0 {
				c.Violation("the exit status is 0 although the tool could not be run")
			}
			return
		}
		c.Nontrivial(fmt.Sprintf("%s %q %d %d", name, args, p.Exit, p.Signal))
		if len(recs) != 1 {
			c.Violation("the tool was run %d times; exit status %d, error output %s", len(recs), r.Exit, short(r.Stderr))
		}
		rec := recs[0]
		if !slices.Equal(rec.args(), append([]string{tool}, args...)) {
			c.Violation("the tool is run as %q, expected %q", rec.args(), append([]string{tool}, args...))
		}
		if rec.Dir != work {
			c.Violation("the tool is run in %q, expected %q", rec.Dir, work)
		}
		sameEnv(c, rec, env)
		if !bytes.Equal(rec.Stdin, stdin) {
			c.Violation("the input is %s, expected %s", short(rec.Stdin), short(stdin))
		}
		if msg := ended(p, r); msg != "" {
			c.Violation("%s", msg)
		}
	})
}

func archive(path string, entries ...string) {
	var buf bytes.Buffer
	w := ar.NewWriter(&buf)
	vh.Must(w.WriteGlobalHeader())
	for i := 0; i < len(entries); i += 2 {
		vh.Must(w.WriteHeader(&ar.Header{Name: entries[i], Mode: 0o644, Size: int64(len(entries[i+1]))}))
		_, err := w.Write([]byte(entries[i+1]))
		vh.Must(err)
	}
	vh.Must(os.MkdirAll(filepath.Dir(path), 0o755))
	vh.Must(os.WriteFile(path, buf.Bytes(), 0o644))
}

// TestC26_Compile is about the compiler and linker: nothing changes when no aspect applies, and errors of
// any kind are never hidden.
func TestC26_Compile(t *testing.T) {
	root, err := os.MkdirTemp("", "compile")
	vh.Must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	vh.Must(err)
	bin := os.Getenv("VERIF_ORCHESTRION")

	zerolog.SetGlobalLevel(zerolog.Disabled)
	vh.Must(os.Chdir(root)) // no module around
	goflags.SetFlags(context.Background(), "", []string{"build"})
	srv, err := jobserver.New(context.Background(), nil)
	vh.Must(err)
	defer srv.Shutdown()

	vh.Run(t, vh.Opts{
		Rule:  "compile and link commands as the go command issues them with random flags, source files and environments, in a module with an aspect that applies or not, run by stand-ins that write random output and end with random statuses and signals, with an injected fault in some (missing or garbled files of all kinds, blocked outputs), half of them repeated; non-trivial: the tool was run or a fault was injected",
		Quick: 260, Thorough: 4000,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		dir, err := os.MkdirTemp(root, "case")
		vh.Must(err)
		defer os.RemoveAll(dir)

		// The module.
		mod := filepath.Join(dir, "mod")
		write := func(name, text string) {
			vh.Must(os.MkdirAll(filepath.Dir(name), 0o755))
			vh.Must(os.WriteFile(name, []byte(text), 0o644))
		}
		write(filepath.Join(mod, "go.mod"), "module example.com/m\n\ngo 1.24\n")
		write(filepath.Join(mod, "orchestrion.tool.go"), "//go:build tools\n\npackage tools\n")
		hits := g.pct(40)
		what := "Nowhere"
		if hits {
			what = "Hit"
		}
		yml := "meta:\n  name: m\n  description: m\naspects:\n  - id: hit\n    join-point:\n      function-body:\n        function:\n          - name: " + what + "\n    advice:\n      - prepend-statements:\n          template: println(42)\n"

		// The command.
		link := g.pct(25)
		name := "compile"
		if link {
			name, hits = "link", false
		}
		tool := filepath.Join(dir, "tool dir", name+g.pick("", "", ".exe"))
		path := g.pick("example.com/m", "example.com/m/sub", "main", "example.com/m.test", "example.com/m [example.com/m.test]", "command-line-arguments")
		pflag := strings.Fields(path)[0]
		if g.pct(30) && !link || pflag == "command-line-arguments" {
			pflag = "main"
		}
		// stage makes the files and arguments of one command.
		var files []string
		for i := range 1 + g.n(4) {
			files = append(files, fmt.Sprintf("%s%d.go", g.pick("a", "b c", "z_x"), i))
		}
		woven := g.n(len(files))
		deps := g.n(4)
		depKind := linkdeps.DependencyKind(g.n(2))
		fault := "none"
		if g.pct(45) {
			l := []string{"no importcfg", "garbled archive", "missing archive", "garbled configuration"}
			switch {
			case link:
				l = append(l, "missing input", "unknown flag")
			case hits:
				l = append(l, "blocked source directory", "blocked source file", "blocked output", "unknown flag")
			default:
				l = append(l, "blocked output", "unknown flag", "blocked metadata")
			}
			fault = g.pick(l...)
			if fault == "garbled configuration" && link {
				fault = "none"
			}
		}
		if fault == "blocked metadata" && pflag == "main" {
			fault = "none" // programs have none
		}
		if fault == "garbled configuration" {
			yml = g.pick("aspects: 12\n", ": : :", "\x00", strings.Replace(yml, "function-body", "function-bodies", 1))
		}
		write(filepath.Join(mod, "orchestrion.yml"), yml)
		extra := []string{}
		for range g.n(4) {
			if link {
				extra = append(extra, g.pick("-s", "-w", "-buildmode=exe", "-extld=gcc", "-X=main.x=a b", "-race=false", "-buildid=x/y"))
			} else {
				extra = append(extra, g.pick("-c=4", "-shared", "-nolocalimports", "-complete", "-N", "-l", "-m=2", "-race=false", "-D=", "-goversion=go1.24", "-symabis=x", "-std=false", "-dwarf=true"))
			}
		}
		lang := g.pick("", "-lang=go1.22", "-lang=go1.24")
		if lang != "" && !link {
			extra = append(extra, lang)
		}
		buildID := fmt.Sprintf("%s/%d", filepath.Base(dir), g.n(1000))
		asmhdr := !link && g.pct(20)
		p := g.plan(dir)
		p.Signal = 0
		p.Output = append([]byte("!<arch>\n"), g.bytes()...)
		if len(p.Output)%2 == 1 {
			p.Output = append(p.Output, 0)
		}
		if g.pct(8) {
			p.Signal = 9
		}
		standIn(tool, p)

		// The second time, most of what was in the way is not anymore.
		stage := func(work string, fault string) (args []string, out string) {
			b := filepath.Join(work, "b001")
			vh.Must(os.MkdirAll(b, 0o755))
			var cfg strings.Builder
			cfg.WriteString("# import config\n")
			for i := range deps {
				a := filepath.Join(work, "deps", fmt.Sprintf("d%d.a", i))
				fmt.Fprintf(&cfg, "packagefile example.com/dep%d=%s\n", i, a)
				switch {
				case i == 0 && fault == "missing archive":
				case i == 0 && fault == "garbled archive":
					archive(a, "link.deps", g.pick("garbage", "#link.deps@v9\nx\n", "#link.deps@v2\nnonsense fmt\n"))
				case i == 0:
					// Something that is there already, for the directive to be carried along without being resolved.
					var l linkdeps.LinkDeps
					l.Add("example.com/dep0", depKind)
					if !link && pflag != "main" {
						l.Add("example.com/elsewhere", depKind) // is only carried along
					}
					var buf bytes.Buffer
					vh.Must(l.Write(&buf))
					archive(a, "__.PKGDEF", "x", "link.deps", buf.String())
				default:
					archive(a, "__.PKGDEF", "x")
				}
			}
			ic := filepath.Join(b, "importcfg")
			if fault != "no importcfg" {
				write(ic, cfg.String())
			}
			if link {
				out = filepath.Join(b, "exe", "a.out")
				vh.Must(os.MkdirAll(filepath.Dir(out), 0o755))
				in := filepath.Join(b, "_pkg_.a")
				if fault != "missing input" {
					archive(in, "__.PKGDEF", "x")
				}
				args = slices.Concat([]string{"-o", out, "-importcfg", ic}, extra)
				if fault == "unknown flag" {
					args = append(args, "-no-such-flag")
				}
				return append(args, in), out
			}
			out = filepath.Join(b, "_pkg_.a")
			args = slices.Concat([]string{"-o", out, "-trimpath", work + "=>", "-p", pflag, "-buildid", buildID, "-importcfg", ic, "-pack"}, extra)
			if asmhdr {
				args = append(args, "-asmhdr", filepath.Join(b, "go_asm.h"))
				write(filepath.Join(b, "go_asm.h"), "// header\n")
			}
			if fault == "unknown flag" {
				args = append(args, "-no-such-flag")
			}
			for i, f := range files {
				pkg := "main"
				if pflag != "main" {
					pkg = "p"
				}
				body := fmt.Sprintf("package %s\n\nfunc F%d() {}\n", pkg, i)
				if i == woven {
					body = fmt.Sprintf("package %s\n\nfunc Hit() {}\n", pkg)
				}
				f = filepath.Join(mod, "src", f)
				write(f, body)
				args = append(args, f)
			}
			switch fault {
			case "blocked source directory", "blocked metadata":
				write(filepath.Join(b, "orchestrion"), "in the way")
			case "blocked source file":
				vh.Must(os.MkdirAll(filepath.Join(b, "orchestrion", "src", pflag, filepath.Base(files[woven]), "x"), 0o755))
			case "blocked output":
				vh.Must(os.MkdirAll(filepath.Join(out, "x"), 0o755))
			}
			return args, out
		}
		if (fault == "garbled archive" || fault == "missing archive" || fault == "blocked metadata") && deps == 0 {
			deps = 1
		}
		if fault == "blocked output" {
			// The stand-in does not fail where the tool would.
			p.Output = nil
			vh.Must(os.Remove(tool))
			standIn(tool, p)
		}
		stdin := g.bytes()
		env := append(baseEnv(""), g.environ()...)
		env = append(env, "TOOLEXEC_IMPORTPATH="+path, "DD_ORCHESTRION_IS_GOMOD_VERSION=true")
		env = append(env, "ORCHESTRION_JOBSERVER_URL="+srv.ClientURL())
		again := g.pct(40) && !link
		c.Desc(map[string]any{"tool": name, "path": path, "p": pflag, "extra": fmt.Sprintf("%q", extra), "files": files, "hits": hits, "fault": fault, "exit": p.Exit, "signal": p.Signal, "again": again})
		c.Class(fault)

		args, out := stage(filepath.Join(dir, "work"), fault)
		r := run(bin, append([]string{"toolexec", tool}, args...), mod, env, stdin)
		recs := records(p)
		c.Nontrivial(fmt.Sprintf("%s %s %s %q %d %d %v", name, fault, path, extra, p.Exit, p.Signal, hits))

		if len(recs) > 1 {
			c.Violation("the tool was run %d times", len(recs))
		}
		if r.Exit == 0 && (len(recs) == 0 || p.Exit != 0 || p.Signal != 0) {
			c.Violation("the exit status is 0, but the tool was run %d times, and it ends with status %d (signal %d)", len(recs), p.Exit, p.Signal)
		}
		switch fault {
		case "none":
		case "garbled archive", "missing archive", "no importcfg", "garbled configuration", "blocked source directory", "blocked source file", "blocked metadata":
			if r.Exit == 0 {
				c.Violation("the exit status is 0 in spite of the fault %q", fault)
			}
			if again {
				// Whoever needs the same package gets to know about the error, or may build it.
				c.Class("again after " + fault)
				had := len(recs)
				args, out := stage(filepath.Join(dir, "work2"), "none")
				r := run(bin, append([]string{"toolexec", tool}, args...), mod, env, stdin)
				if r.Stuck {
					c.Violation("the same package is never compiled nor does it fail after the fault %q", fault)
				}
				if r.Exit == 0 && len(records(p)) == had {
					text, err := os.ReadFile(out)
					c.Violation("the exit status is 0 when the same package is compiled again after the fault %q, but the compiler is not run, and the output is %s (%v)", fault, short(text), err)
				}
			}
			return
		default:
			return // the tool decides about these
		}
		if len(recs) == 0 {
			c.Violation("the tool was not run; exit status %d, error output %s", r.Exit, short(r.Stderr))
		}
		rec := recs[0]
		if got := rec.args()[1:]; !hits && !slices.Equal(got, args) {
			c.Violation("the tool is run with %q, expected %q", got, args)
		} else if hits {
			want := slices.Clone(args)
			i := len(args) - len(files) + woven
			if len(got) != len(want) || got[i] == want[i] || filepath.Base(got[i]) != filepath.Base(want[i]) {
				c.Violation("the tool is run with %q, expected %q with another %s", got, args, files[woven])
			}
			text, err := os.ReadFile(got[i])
			if err != nil || !strings.Contains(string(text), "println(42)") {
				c.Violation("%s is %q (%v)", got[i], text, err)
			}
			want[i] = got[i]
			if !slices.Equal(got, want) {
				c.Violation("the tool is run with %q, expected %q", got, want)
			}
		}
		if rec.Dir != mod {
			c.Violation("the tool is run in %q, expected %q", rec.Dir, mod)
		}
		sameEnv(c, rec, env)
		if !bytes.Equal(rec.Stdin, stdin) {
			c.Violation("the input is %s, expected %s", short(rec.Stdin), short(stdin))
		}
		if msg := ended(p, r); msg != "" {
			c.Violation("%s", msg)
		}
		if p.Exit != 0 || p.Signal != 0 {
			if again {
				c.Class("again after failure")
				args, _ := stage(filepath.Join(dir, "work2"), "none")
				r := run(bin, append([]string{"toolexec", tool}, args...), mod, env, stdin)
				if r.Exit == 0 {
					c.Violation("the exit status is 0 when the same package that failed is compiled again")
				}
			}
			return
		}
		have, err := os.ReadFile(out)
		if err != nil || !bytes.HasPrefix(have, p.Output) || link && len(have) != len(p.Output) {
			c.Violation("the output is %s (%v), expected %s", short(have), err, short(p.Output))
		}
		if again {
			c.Class("again")
			args, out := stage(filepath.Join(dir, "work2"), "none")
			r := run(bin, append([]string{"toolexec", tool}, args...), mod, env, stdin)
			if r.Exit != 0 {
				c.Violation("the exit status is %d when the same package is compiled again; error output %s", r.Exit, short(r.Stderr))
			}
			if two, err := os.ReadFile(out); err != nil || !bytes.Equal(have, two) {
				c.Violation("the output is %s (%v) when the same package is compiled again, the first time it was %s", short(two), err, short(have))
			}
		}
	})
}
