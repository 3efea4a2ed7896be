package cmdline_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// severity of what is written to log files.
var severity = map[string]int{"trace": 0, "debug": 1, "info": 2, "warn": 3, "error": 4, "fatal": 5, "panic": 6}

// console finds the messages among what is written to the standard error.
var console = regexp.MustCompile(`(?m)^(\x1b\[\d+m)?\d{4}-\d\d-\d\dT[^ ]*Z?(\x1b\[0m)? (\x1b\[\d+m)*(TRC|DBG|INF|WRN|ERR|FTL|PNC)`)

// logged has the complete JSON lines of a text.
func logged(text []byte) (levels []string, err error) {
	for _, l := range bytes.Split(text, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var m struct{ Level string }
		if err := json.Unmarshal(l, &m); err != nil {
			return levels, fmt.Errorf("%s: %w", short(l), err)
		}
		levels = append(levels, m.Level)
	}
	return levels, nil
}

// TestC34_Diagnostics is about settings that only concern what is reported about a build.
func TestC34_Diagnostics(t *testing.T) {
	root, err := os.MkdirTemp("", "diagnostics")
	vh.Must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	vh.Must(err)
	bin := os.Getenv("VERIF_ORCHESTRION")

	vh.Run(t, vh.Opts{
		Rule:  "go commands and tools run with and without log levels, log files (absolute and relative, with tokens, in new directories, with contents) and profiles, as flags and in the environment; the stand-ins must be run alike and end alike, and messages must be where they belong; non-trivial: something is set",
		Quick: 220, Thorough: 4000,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		dir, err := os.MkdirTemp(root, "case")
		vh.Must(err)
		defer os.RemoveAll(dir)
		work := filepath.Join(dir, "work")
		vh.Must(os.MkdirAll(filepath.Join(work, "sub"), 0o755))

		// The command.
		p := g.plan(dir)
		p.Signal = 0
		stdin := g.bytes()
		tmp := filepath.Join(dir, "tmp")
		vh.Must(os.MkdirAll(tmp, 0o755))
		var args, env []string
		goMode := g.pct(60)
		if goMode {
			goDir := filepath.Join(dir, "go")
			standIn(filepath.Join(goDir, "go"), p)
			args = []string{"go"}
			if g.pct(30) {
				args = append(args, "-C", "sub")
			}
			args = append(args, g.pick("build", "test", "run", "env", "install", "list"), "./...")
			env = append(baseEnv(goDir), "DD_ORCHESTRION_IS_GOMOD_VERSION=true")
		} else {
			tool := filepath.Join(dir, "tool", g.pick("asm", "cgo", "pack", "vet"))
			standIn(tool, p)
			args = []string{"toolexec", tool, "-o", g.text()}
			env = append(baseEnv(""), "TOOLEXEC_IMPORTPATH=example.com/m")
		}
		env = append(env, "TMPDIR="+tmp)

		// The settings.
		level, levelSet := "", g.pct(75)
		if levelSet {
			level = g.pick("NONE", "OFF", "ERROR", "WARN", "INFO", "DEBUG", "TRACE", "TRACE", "TRACE", "DISABLED")
			if g.pct(20) {
				level = strings.ToLower(level)
			}
		}
		at, existing := "", ""
		if g.pct(60) {
			at = g.pick("build.log", "$PID.log", "${PID}.log", "x-$PID-${PID}", "a b.log", "it's-é.log", "log=1", "100%d.log")
			at = filepath.Join(g.pick("", "logs", "new/deep", "$PID", "a b"), at)
			if g.pct(50) {
				at = filepath.Join(work, at)
			}
			if !strings.Contains(at, "PID") && g.pct(50) {
				existing = g.pick("{\"level\":\"info\",\"message\":\"before\"}\n", "some text\n")
			}
		}
		abs := at
		if at != "" && !filepath.IsAbs(at) {
			abs = filepath.Join(work, at)
		}
		var profiles []string
		if g.pct(15) {
			profiles = []string{g.pick("heap", "cpu", "trace")}
			if g.pct(30) {
				profiles = []string{"heap", g.pick("cpu", "trace")}
			}
		}
		var flags, vars []string
		set := func(flag, name, value string) {
			switch g.n(3) {
			case 0:
				flags = append(flags, "--"+flag+"="+value)
			case 1:
				flags = append(flags, "-"+flag, value)
			default:
				vars = append(vars, name+"="+value)
			}
		}
		if levelSet {
			set("log-level", "ORCHESTRION_LOG_LEVEL", level)
		} else if g.pct(20) {
			vars = append(vars, "ORCHESTRION_LOG_LEVEL=")
		}
		withoutFile := slices.Clone(flags)
		withoutFileVars := slices.Clone(vars)
		if at != "" {
			if g.pct(20) {
				flags = append([]string{"--log-file=" + at}, flags...) // ahead of the level
			} else {
				set("log-file", "ORCHESTRION_LOG_FILE", at)
			}
		} else if g.pct(20) {
			vars = append(vars, "ORCHESTRION_LOG_FILE=")
		}
		profileDir := filepath.Join(dir, "profiles")
		if len(profiles) > 0 {
			set("profile-path", "ORCHESTRION_PROFILE_PATH", profileDir)
			set("profile", "ORCHESTRION_ENABLED_PROFILES", strings.Join(profiles, ","))
		}
		c.Desc(map[string]any{"args": args, "flags": flags, "environ": vars, "existing": existing, "exit": p.Exit})
		if len(flags)+len(vars) > 0 {
			c.Nontrivial(fmt.Sprint(args[0], flags, vars, p.Exit, len(p.Stdout)))
		}
		c.Class(fmt.Sprintf("%s, level %v, file %v", args[0], levelSet, at != ""))

		type outcome struct {
			rec record
			res result
		}
		try := func(flags, vars []string) outcome {
			vh.Must(os.RemoveAll(p.Record))
			r := run(bin, slices.Concat(flags, args), work, append(slices.Clone(env), vars...), stdin)
			recs := records(p)
			if len(recs) != 1 {
				c.Violation("with %q and %q the command was run %d times; exit status %d, error output %s", flags, vars, len(recs), r.Exit, short(r.Stderr))
			}
			if left, err := os.ReadDir(tmp); err != nil || len(left) > 0 {
				c.Violation("files are left in the temporary directory: %v (%v)", left, err)
			}
			return outcome{recs[0], r}
		}
		plain := try(nil, nil)
		if existing != "" {
			vh.Must(os.MkdirAll(filepath.Dir(abs), 0o755))
			vh.Must(os.WriteFile(abs, []byte(existing), 0o644))
		}
		got := try(flags, vars)

		// What is run, and how it ends.
		if !slices.Equal(got.rec.args(), plain.rec.args()) {
			c.Violation("run as %q instead of %q", got.rec.args(), plain.rec.args())
		}
		if got.rec.Dir != plain.rec.Dir {
			c.Violation("run in %q instead of %q", got.rec.Dir, plain.rec.Dir)
		}
		if !bytes.Equal(got.rec.Stdin, plain.rec.Stdin) {
			c.Violation("the input is %s instead of %s", short(got.rec.Stdin), short(plain.rec.Stdin))
		}
		have, want := got.rec.environ(), plain.rec.environ()
		own := func(k string) bool {
			return k == "PWD" || strings.HasPrefix(k, "ORCHESTRION_") || strings.HasPrefix(k, "_DD_")
		}
		for k, v := range want {
			if h, ok := have[k]; !own(k) && (!ok || h != v) {
				c.Violation("the variable %s is %q (%v), expected %q", k, h, ok, v)
			}
		}
		for k, v := range have {
			if _, ok := want[k]; !own(k) && !ok {
				c.Violation("the variable %s is added: %q", k, v)
			}
		}
		if got.res.Exit != plain.res.Exit || !bytes.Equal(got.res.Stdout, plain.res.Stdout) {
			c.Violation("exit status %d and output %s, expected %d and %s; error output %s", got.res.Exit, short(got.res.Stdout), plain.res.Exit, short(plain.res.Stdout), short(got.res.Stderr))
		}

		// Processes started by this one have the same settings, whichever directory they are started in.
		if levelSet && have["ORCHESTRION_LOG_LEVEL"] != level {
			c.Violation("the log level of processes below is %q, expected %q", have["ORCHESTRION_LOG_LEVEL"], level)
		}
		if f := have["ORCHESTRION_LOG_FILE"]; at != "" {
			if !filepath.IsAbs(f) {
				f = filepath.Join(got.rec.Dir, f)
			}
			if filepath.Clean(f) != filepath.Clean(abs) {
				c.Violation("the log file of processes below is %q, expected %q", f, abs)
			}
		}

		// The messages.
		low := 7 // the least severe ones that are wanted
		switch {
		case severity[strings.ToLower(level)] > 0 || strings.EqualFold(level, "trace"):
			low = severity[strings.ToLower(level)]
		case !levelSet && at != "":
			low = severity["warn"]
		}
		if at != "" || low == 7 {
			if !bytes.Equal(got.res.Stderr, plain.res.Stderr) {
				c.Violation("the error output is %s, expected %s", short(got.res.Stderr), short(plain.res.Stderr))
			}
		} else if !goMode && !bytes.Contains(got.res.Stderr, p.Stderr) {
			c.Violation("the error output is %s, which does not have that of the tool, %s", short(got.res.Stderr), short(p.Stderr))
		}
		var name *regexp.Regexp
		if at != "" {
			r := strings.NewReplacer(regexp.QuoteMeta("$PID"), `\d+`, regexp.QuoteMeta("${PID}"), `\d+`)
			name = regexp.MustCompile("^" + r.Replace(regexp.QuoteMeta(abs)) + "$")
		}
		messages := 0
		vh.Must(filepath.WalkDir(dir, func(f string, d os.DirEntry, err error) error {
			vh.Must(err)
			for _, sub := range []string{"go", "tool", "record", "record.signal", "tmp"} {
				if f == filepath.Join(dir, sub) {
					if d.IsDir() {
						return filepath.SkipDir
					}
					return nil
				}
			}
			if d.IsDir() {
				return nil
			}
			if filepath.Dir(f) == profileDir && len(profiles) > 0 {
				return nil
			}
			if name == nil || !name.MatchString(f) {
				c.Violation("there is a new file %q", f)
			}
			text, err := os.ReadFile(f)
			vh.Must(err)
			if !bytes.HasPrefix(text, []byte(existing)) {
				c.Violation("the log file had %q, and now %s", existing, short(text))
			}
			levels, err := logged(text[len(existing):])
			if err != nil {
				c.Violation("the log file has a line %v", err)
			}
			for _, l := range levels {
				if s, known := severity[l]; !known || s < low {
					c.Violation("there is a message of level %q in the log file", l)
				}
			}
			messages += len(levels)
			return nil
		}))
		if at != "" && low < 7 && messages == 0 && levelSet {
			// The same messages that are written to the console otherwise.
			if other := try(withoutFile, withoutFileVars); console.Match(other.res.Stderr) && !console.Match(plain.res.Stderr) {
				c.Violation("no message is written to the log file, but to the console are: %s", short(other.res.Stderr))
			}
		}
		if messages > 0 {
			c.Class("messages in a file")
		}
		for _, kind := range profiles {
			if p.Exit != 0 {
				continue // what happens to profiles of what fails is not specified
			}
			l, err := os.ReadDir(profileDir)
			if err != nil || len(l) < len(profiles) {
				c.Violation("there is no profile (%s): %v, %v", kind, l, err)
			}
		}
	})
}
