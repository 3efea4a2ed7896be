package cmdline_test

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// builds are the commands that must get the hook; others in may get it.
var (
	builds = []string{"build", "install", "run", "test", "list", "get"}
	may    = []string{"clean", "vet", "generate"}
)

// chdir does what go does about -C: it has to be the first flag, before or after the command.
func chdir(args []string, dir string) ([]string, string) {
	used := 0
	if len(args) > 0 {
		switch args[0] {
		case "build", "install", "run", "test", "list", "get", "clean", "vet", "generate", "env", "version", "fmt", "tool", "doc", "fix", "bug":
			used = 1
		case "mod", "work":
			used = 1
			if len(args) > 1 && slices.Contains([]string{"tidy", "download", "edit", "vendor", "init", "sync", "use"}, args[1]) {
				used = 2
			}
		}
	}
	if used >= len(args) {
		return args, dir
	}
	f, v, has := strings.Cut(args[used], "=")
	if f != "-C" && f != "--C" {
		return args, dir
	}
	end := used + 1
	if !has {
		if end >= len(args) {
			return args, dir
		}
		v = args[end]
		end++
	}
	if !filepath.IsAbs(v) {
		v = filepath.Join(dir, v)
	}
	return slices.Concat(args[:used], args[end:]), v
}

// split does what go does to the -toolexec argument.
func split(s string) ([]string, error) {
	var f []string
	space := func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
	for {
		for len(s) > 0 && space(s[0]) {
			s = s[1:]
		}
		if len(s) == 0 {
			return f, nil
		}
		if s[0] == '"' || s[0] == '\'' {
			q := s[0]
			i := strings.IndexByte(s[1:], q)
			if i < 0 {
				return nil, fmt.Errorf("unterminated %c string", q)
			}
			f = append(f, s[1:1+i])
			s = s[i+2:]
			continue
		}
		i := 0
		for i < len(s) && !space(s[i]) {
			i++
		}
		f = append(f, s[:i])
		s = s[i:]
	}
}

func TestC25_Forward(t *testing.T) {
	root, err := os.MkdirTemp("", "forward")
	vh.Must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	vh.Must(err)

	vh.Run(t, vh.Opts{
		Rule:  "go commands with random arguments (with blanks, quotes, nothing, control and invalid characters), -C flags in every form and place to directories of all kinds, environments and standard input, through a tool in a directory with such a name, forwarded to a recording stand-in of go that writes random output and ends with a random status or signal; non-trivial: all of them",
		Quick: 455, Thorough: 6000,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		dir, err := os.MkdirTemp(root, "case")
		vh.Must(err)
		defer os.RemoveAll(dir)

		// The tool.
		name := g.pick("bin", "bin", "a b", "it's", `"quoted"`, `back\slash`, "é", "tab\there", "new\nline", "日本", "$X", "x=y", "%q", "\x80", `both"and'`, `'`, `a "b" c`)
		bin := filepath.Join(dir, "tool", name, g.pick("orchestrion", "orchestrion", "orch estrion", "o'n", "build"))
		vh.Must(os.MkdirAll(filepath.Dir(bin), 0o755))
		vh.Must(os.Link(link(root), bin))

		// The directories.
		dirs := map[string]string{ // by how they are named, relative to work
			"sub":       "sub",
			"./sub/x/":  "sub/x",
			"..":        "..",
			"with it's": "with it's",
			"-dash":     "-dash",
			"a=b":       "a=b",
		}
		work := filepath.Join(dir, "work")
		var names []string
		for n, d := range dirs {
			vh.Must(os.MkdirAll(filepath.Join(work, d), 0o755))
			names = append(names, n)
		}
		slices.Sort(names)
		vh.Must(os.Symlink("sub", filepath.Join(work, "link")))
		names = append(names, "link", filepath.Join(work, "sub"), filepath.Join(work, "link", "x"))
		target := names[g.n(len(names))]
		missing := g.pct(6)
		if missing {
			target = "nowhere"
		}

		// The arguments.
		var args []string
		switch g.n(10) {
		case 0:
			args = []string{g.pick("mod", "work"), g.pick("tidy", "edit", "sync")}
		case 1:
			args = []string{g.pick("env", "version", "fmt", "doc", "tool", "vet", "clean", "help", "h", "-h", "--help", "bug", "completion", "frobnicate", "-v", "toolexec", "go")}
		case 2:
			args = nil
		default:
			args = []string{builds[g.n(len(builds))]}
		}
		words := len(args)
		for range g.n(6) {
			args = append(args, g.pick("-v", "-x", "-a", "-race", "-tags=a,b", "-o", "out", "-ldflags", `-X 'a=b c'`, "./...", "example.com/x@latest", "-run=^Test A$", "--", "-args", "-toolexec=other tool", "-toolexec", "-h", "--help", "help", "-", "", "-log-level=debug", "--generate-bash-completion", g.text(), g.text()))
		}
		if g.pct(10) {
			args = append(args, "-v", "-C=later") // not the first flag
		}
		cflag := ""
		at := 0
		if g.pct(50) {
			cflag = g.pick("-C", "-C=", "--C", "--C=")
			if g.pct(60) {
				at = words
			}
			f := []string{cflag, target}
			if strings.HasSuffix(cflag, "=") {
				f = []string{cflag + target}
			}
			args = slices.Insert(args, at, f...)
		}
		wantArgs, wantDir := chdir(args, work)
		missing = missing && wantDir != work
		if d, err := filepath.EvalSymlinks(wantDir); err == nil {
			wantDir = d
		}

		// What go is going to do.
		p := g.plan(dir)
		var sig syscall.Signal
		if g.pct(12) {
			sig = []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[g.n(2)]
			p.Wait = true
		}
		goDir := filepath.Join(dir, "go")
		standIn(filepath.Join(goDir, "go"), p)
		stdin := g.bytes()
		tmp := filepath.Join(dir, "tmp")
		vh.Must(os.MkdirAll(tmp, 0o755))
		env := append(baseEnv(goDir), g.environ()...)
		env = append(env, "TMPDIR="+tmp)
		// Whether another command pins its directory or that it starts in is not specified.
		checked := g.pct(70) || wantDir != work && at > 0 && !slices.Contains(builds, args[0])
		if checked {
			env = append(env, "DD_ORCHESTRION_IS_GOMOD_VERSION=true")
		} else {
			// The module the command is about is pinned, another one is not (it must not be touched).
			vh.Must(os.WriteFile(filepath.Join(work, "go.mod"), []byte("module example.com/unpinned\n"), 0o644))
			if !missing {
				vh.Must(os.WriteFile(filepath.Join(wantDir, "go.mod"), []byte("module example.com/pinned\n"), 0o644))
				vh.Must(os.WriteFile(filepath.Join(wantDir, "orchestrion.tool.go"), []byte("//go:build tools\n\npackage tools\n"), 0o644))
			}
		}
		if g.pct(50) {
			env = append(env, "PWD="+work)
		}
		c.Desc(map[string]any{"args": args, "quoted": fmt.Sprintf("%q", args), "tool": strings.TrimPrefix(bin, dir), "environ": fmt.Sprintf("%q", env[len(baseEnv(goDir)):]), "plan": fmt.Sprintf("exit %d signal %d", p.Exit, p.Signal), "interrupted": sig.String(), "pinned": checked})
		c.Nontrivial(fmt.Sprintf("%q %q", args, name))
		c.Class(fmt.Sprintf("-C %q after command: %v", cflag, at > 0))

		r := interrupt(bin, append([]string{"go"}, args...), work, env, stdin, p, sig)

		if !checked && wantDir != work {
			if _, err := os.Stat(filepath.Join(work, "orchestrion.tool.go")); err == nil {
				c.Violation("the module in the current directory was pinned, not the one the command is about")
			}
		}
		if left, err := os.ReadDir(tmp); err != nil || len(left) > 0 {
			c.Violation("files are left in the temporary directory: %v (%v)", left, err)
		}
		recs := records(p)
		if len(recs) == 0 {
			unquotable := strings.Contains(bin, "'") && strings.Contains(bin, `"`)
			if r.Exit != 0 && (missing || unquotable) {
				return // it said so
			}
			c.Violation("go was not run; exit status %d, output %s, error output %s", r.Exit, short(r.Stdout), short(r.Stderr))
		}
		if len(recs) > 1 {
			c.Violation("go was run %d times, the second time with %q", len(recs), recs[1].args())
		}
		rec := recs[0]
		got, gotDir := chdir(rec.args()[1:], rec.Dir)
		if d, err := filepath.EvalSymlinks(gotDir); err == nil {
			gotDir = d
		}
		if gotDir != wantDir && !missing {
			c.Violation("go runs in %q, expected %q", gotDir, wantDir)
		}
		if missing && gotDir == work {
			c.Violation("go runs in the current directory, although another one was requested")
		}

		// The hook.
		cmd := ""
		if len(wantArgs) > 0 {
			cmd = wantArgs[0]
		}
		if !slices.Equal(got, wantArgs) {
			hook, rest := "", []string(nil)
			switch {
			case len(got) > 2 && got[1] == "-toolexec":
				hook, rest = got[2], slices.Concat(got[:1], got[3:])
			case len(got) > 1 && strings.HasPrefix(got[1], "-toolexec="):
				hook, rest = got[1][len("-toolexec="):], slices.Concat(got[:1], got[2:])
			}
			if !slices.Equal(rest, wantArgs) || !slices.Contains(builds, cmd) && !slices.Contains(may, cmd) {
				c.Violation("go is run with %q, expected %q", got, wantArgs)
			}
			f, err := split(hook)
			if err != nil || !slices.Equal(f, []string{bin, "toolexec"}) {
				c.Violation("the hook %q is understood as %q (%v), expected %q", hook, f, err, []string{bin, "toolexec"})
			}
		} else if slices.Contains(builds, cmd) {
			c.Violation("go is run without the hook: %q", got)
		}

		// The environment, input, output and status.
		have := rec.environ()
		for k, v := range envMap(env) {
			if k == "PWD" {
				continue
			}
			if w, ok := have[k]; !ok || w != v {
				c.Violation("the variable %s is %q (%v), expected %q", k, w, ok, v)
			}
			delete(have, k)
		}
		for k := range have {
			if !strings.HasPrefix(k, "DD_") && !strings.HasPrefix(k, "_DD_") && !strings.HasPrefix(k, "ORCHESTRION_") && k != "PWD" {
				c.Violation("the variable %s is added: %q", k, have[k])
			}
		}
		if !bytes.Equal(rec.Stdin, stdin) {
			c.Violation("the input is %s, expected %s", short(rec.Stdin), short(stdin))
		}
		if msg := ended(p, r); msg != "" {
			c.Violation("%s", msg)
		}
		if sig != 0 {
			c.Class(fmt.Sprintf("interrupted, build: %v", slices.Contains(builds, cmd)))
			if _, err := os.Stat(p.Record + ".signal"); err != nil {
				c.Violation("go is not told that the tool got signal %v", sig)
			}
		}
	})
}

// link is the tool in the given directory, so that it can be linked to from there.
func link(root string) string {
	p := filepath.Join(root, "orchestrion")
	if _, err := os.Stat(p); err != nil {
		text, err := os.ReadFile(os.Getenv("VERIF_ORCHESTRION"))
		vh.Must(err)
		vh.Must(os.WriteFile(p, text, 0o755))
	}
	return p
}
