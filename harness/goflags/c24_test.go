package goflags_test

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/goflags"
	"github.com/DataDog/orchestrion/internal/goflags/quoted"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// Build flags that every build-like go command shares ("go help build").
var (
	boolFlags = []string{"a", "asan", "cover", "linkshared", "modcacherw", "msan", "race", "trimpath", "work"}
	// flags with a value, and what a user may write
	valueFlags = map[string][]string{
		"asmflags":      {"-dynlink", "all=-D x", ""},
		"buildmode":     {"exe", "pie", "default"},
		"compiler":      {"gc"},
		"covermode":     {"atomic", "count"},
		"coverpkg":      {"std", "example.com/a,example.com/b", ""},
		"gccgoflags":    {"-O2"},
		"gcflags":       {"-N -l -other", "all=-N", "-m=2", "example.com/x=-l", "-race", "'a b' c"},
		"installsuffix": {"x", "-suffix"},
		"ldflags":       {"-extldflags '-lm -lstdc++ -static'", "-s -w", "-X=main.v=1", "-X 'main.v=a b'", "all=-w"},
		"mod":           {"mod", "vendor", "readonly"},
		"modfile":       {"/x/go alt.mod", "alt.mod"},
		"overlay":       {"overlay.json", "/x=y.json"},
		"pgo":           {"off", "auto", "/x/default.pgo"},
		"pkgdir":        {"/pkg"},
		"tags":          {"a,b", "integration", "a b", "", "-x"},
		"toolexec":      {"foo bar", "/bin/time"},
	}
	perPackage = map[string]bool{"asmflags": true, "gccgoflags": true, "gcflags": true, "ldflags": true}

	// Other flags of each command: boolean ones and ones with a value.
	otherBool = map[string][]string{
		"build":   {"v", "x", "n", "json"},
		"install": {"v", "x", "n"},
		"list":    {"v", "x", "n", "m", "e", "deps", "test", "export", "find", "compiled"},
		"run":     {"v", "x", "n"},
		"test":    {"v", "x", "n", "json", "c", "short", "failfast", "benchmem", "fullpath"},
	}
	otherValue = map[string]map[string][]string{
		"build":   {"o": {"out", "/x y/out", "race"}, "p": {"4"}, "C": nil},
		"install": {"p": {"1"}},
		"list":    {"f": {"{{.ImportPath}}", "-race"}, "p": {"2"}},
		"run":     {"exec": {"time -p"}, "p": {"4"}},
		"test":    {"run": {"TestX", "-race", "^$"}, "count": {"1"}, "timeout": {"30m"}, "bench": {"."}, "o": {"x.test"}, "cpu": {"1,2"}, "parallel": {"2"}, "vet": {"off"}, "exec": {"time"}, "fuzz": {"FuzzX"}, "skip": {"race"}, "shuffle": {"on"}},
	}
)

// effective is what a sequence of flags amounts to. Flags that take a list of
// package=flags settings accumulate; all the others are overridden.
type effective map[string][]string

func (e effective) set(name, val string) {
	if perPackage[name] {
		e[name] = append(e[name], val)
		return
	}
	e[name] = []string{val}
}

// normal drops what has no effect.
func (e effective) normal() effective {
	out := effective{}
	for k, v := range e {
		if contains(boolFlags, k) {
			if v[0] == "true" {
				out[k] = v
			}
			continue
		}
		if perPackage[k] {
			// The last setting of a pattern wins among equal patterns; keep the last of each.
			var kept []string
			seen := map[string]bool{}
			for i := len(v) - 1; i >= 0; i-- {
				pat := ""
				if p, _, ok := strings.Cut(v[i], "="); ok && !strings.HasPrefix(v[i], "-") && !strings.ContainsAny(p, "' ") {
					pat = p
				}
				if !seen[pat] {
					kept = append(kept, v[i])
				}
				seen[pat] = true
			}
			out[k] = kept
			continue
		}
		out[k] = v
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type line struct {
	args, goflags []string
	cli, env      effective
	tricky        bool
}

func dash(t *rapid.T) string {
	return rapid.SampledFrom([]string{"-", "-", "-", "--"}).Draw(t, "dash")
}

// buildFlag draws one build flag, as its arguments.
func (l *line) buildFlag(t *rapid.T, eff effective, attachedOnly bool) []string {
	d := dash(t)
	switch rapid.IntRange(0, 5).Draw(t, "kind") {
	case 0, 1:
		n := rapid.SampledFrom(boolFlags).Draw(t, "bool")
		if n == "cover" {
			n = "race" // coverage is looked at separately
		}
		form := rapid.SampledFrom([]string{"", "", "", "=true", "=false", "=1", "=0"}).Draw(t, "form")
		val := "true"
		if form == "=false" || form == "=0" {
			val = "false"
		}
		l.tricky = l.tricky || form != ""
		eff.set(n, val)
		return []string{d + n + form}
	case 2:
		val := rapid.SampledFrom([]string{"true", "false", "auto", "bare"}).Draw(t, "buildvcs")
		if val == "bare" {
			l.tricky = true
			eff.set("buildvcs", "true")
			return []string{d + "buildvcs"}
		}
		eff.set("buildvcs", val)
		return []string{d + "buildvcs=" + val}
	}
	n := rapid.SampledFrom(sortedKeys(valueFlags)).Draw(t, "flag")
	if strings.HasPrefix(n, "cover") {
		n = "tags"
	}
	v := rapid.SampledFrom(valueFlags[n]).Draw(t, "value")
	eff.set(n, v)
	if attachedOnly || rapid.Bool().Draw(t, "attached") {
		return []string{d + n + "=" + v}
	}
	return []string{d + n, v}
}

func otherFlag(t *rapid.T, cmd string) []string {
	d := dash(t)
	if rapid.Bool().Draw(t, "other bool") {
		n := rapid.SampledFrom(otherBool[cmd]).Draw(t, "flag")
		return []string{d + n + rapid.SampledFrom([]string{"", "", "=true", "=false"}).Draw(t, "form")}
	}
	names := sortedKeys(otherValue[cmd])
	n := rapid.SampledFrom(names).Draw(t, "flag")
	if n == "C" {
		n = "o"
	}
	v := rapid.SampledFrom(otherValue[cmd][n]).Draw(t, "value")
	if rapid.Bool().Draw(t, "attached") || strings.HasPrefix(v, "-") {
		return []string{d + n + "=" + v}
	}
	return []string{d + n, v}
}

func quoteGoflags(items []string) string {
	var out []string
	for _, it := range items {
		switch {
		case strings.Contains(it, "'"):
			out = append(out, `"`+it+`"`)
		case strings.ContainsAny(it, " \t"):
			out = append(out, "'"+it+"'")
		default:
			out = append(out, it)
		}
	}
	return strings.Join(out, " ")
}

func genLine(t *rapid.T) *line {
	l := &line{cli: effective{}, env: effective{}}
	for i := rapid.IntRange(0, 3).Draw(t, "GOFLAGS"); i > 0; i-- {
		if rapid.IntRange(0, 3).Draw(t, "plain") == 0 {
			l.goflags = append(l.goflags, rapid.SampledFrom([]string{"-v", "-x", "-count=1", "-n=false"}).Draw(t, "other"))
			continue
		}
		l.goflags = append(l.goflags, l.buildFlag(t, l.env, true)...)
	}
	cmd := rapid.SampledFrom([]string{"build", "install", "list", "run", "test"}).Draw(t, "command")
	switch rapid.IntRange(0, 7).Draw(t, "-C") {
	case 0:
		l.args = append(l.args, "-C", rapid.SampledFrom([]string{"..", "build", "-x"}).Draw(t, "dir"))
	case 1:
		l.args = append(l.args, "-C="+rapid.SampledFrom([]string{"..", "/x y"}).Draw(t, "dir"))
	}
	l.args = append(l.args, cmd)
	if rapid.IntRange(0, 9).Draw(t, "-C after") == 0 {
		l.args = append(l.args, "-C", "..")
	}
	flags := func(max int) {
		for i := rapid.IntRange(0, max).Draw(t, "flags"); i > 0; i-- {
			if rapid.IntRange(0, 2).Draw(t, "other") == 0 {
				l.args = append(l.args, otherFlag(t, cmd)...)
			} else {
				l.args = append(l.args, l.buildFlag(t, l.cli, false)...)
			}
		}
	}
	flags(5)
	pkgs := rapid.SliceOfN(rapid.SampledFrom([]string{".", "./...", "example.com/a", "std", "./x-y"}), 0, 3).Draw(t, "packages")
	switch cmd {
	case "run":
		l.args = append(l.args, rapid.SampledFrom([]string{".", "example.com/cmd", "main.go", "./cmd"}).Draw(t, "program"))
		prog := rapid.SliceOfN(rapid.SampledFrom([]string{"-race", "-tags", "-tags=prog", "x", "--", "-mod", "-a", "-C", "-v", "--gcflags=-x"}), 0, 4).Draw(t, "program arguments")
		l.tricky = l.tricky || len(prog) > 0
		l.args = append(l.args, prog...)
	case "test":
		l.args = append(l.args, pkgs...)
		if len(pkgs) > 0 {
			flags(4)
		}
		if rapid.IntRange(0, 2).Draw(t, "args") == 0 {
			l.args = append(l.args, rapid.SampledFrom([]string{"-args", "--args"}).Draw(t, "spelling"))
			l.args = append(l.args, rapid.SliceOfN(rapid.SampledFrom([]string{"-race", "-tags", "x", "-mod=vendor", "-cover"}), 0, 3).Draw(t, "test arguments")...)
			l.tricky = true
		}
	default:
		if rapid.IntRange(0, 5).Draw(t, "dashes") == 0 {
			l.args = append(l.args, "--")
			pkgs = append(pkgs, "-race")
		}
		l.args = append(l.args, pkgs...)
	}
	return l
}

// parseSlice reads the flags handed to a child build, as the go command would.
func parseSlice(args []string) (effective, error) {
	eff := effective{}
	for i := 0; i < len(args); i++ {
		name, val, attached := strings.Cut(strings.TrimPrefix(strings.TrimPrefix(args[i], "-"), "-"), "=")
		switch {
		case !strings.HasPrefix(args[i], "-"):
			return nil, fmt.Errorf("%q is not a flag", args[i])
		case contains(boolFlags, name) || name == "buildvcs":
			if !attached {
				val = "true"
			}
			switch val {
			case "1", "t", "T", "TRUE", "True":
				val = "true"
			case "0", "f", "F", "FALSE", "False":
				val = "false"
			}
			eff.set(name, val)
		case valueFlags[name] != nil:
			if !attached {
				i++
				if i == len(args) {
					return nil, fmt.Errorf("%q has no value", name)
				}
				val = args[i]
			}
			eff.set(name, val)
		default:
			return nil, fmt.Errorf("%q is not a build flag", args[i])
		}
	}
	return eff, nil
}

// merge applies GOFLAGS first and the command line after it.
func merge(a, b effective) effective {
	out := effective{}
	for _, e := range []effective{a, b} {
		for k, vs := range e {
			for _, v := range vs {
				out.set(k, v)
			}
		}
	}
	return out
}

func TestC24_BuildFlags(t *testing.T) {
	ctx := context.Background()
	vh.Run(t, vh.Opts{
		Rule:  "go command lines and GOFLAGS assembled from known flags, packages, program and test arguments in every spelling; the flags given to a child build (which inherits GOFLAGS) must amount to what the assembled flags amount to; non-trivial: has explicit booleans, program arguments or -args",
		Quick: 48000, Thorough: 192000,
	}, func(c *vh.Case) {
		l := genLine(c.T)
		env := quoteGoflags(l.goflags)
		c.Desc(map[string]any{"args": l.args, "GOFLAGS": env})
		vh.Must(os.Setenv("GOFLAGS", env))
		defer os.Unsetenv("GOFLAGS")
		got, err := goflags.ParseCommandFlags(ctx, ".", l.args)
		if err != nil {
			c.Violation("command line rejected: %v", err)
		}
		child, err := parseSlice(got.Slice())
		if err != nil {
			c.Violation("child builds would be given %q: %v", got.Slice(), err)
		}
		want := merge(l.env, l.cli).normal()
		have := merge(l.env, child).normal()
		if !reflect.DeepEqual(want, have) {
			c.Violation("the go command acts on %v, child builds are given %q which amounts to %v", want, got.Slice(), have)
		}
		// Removing flags removes those and nothing else.
		drop := rapid.SampledFrom([]string{"-a", "-toolexec", "-race", "-tags", "-gcflags", "-none"}).Draw(c.T, "drop")
		less, err := parseSlice(got.Except(drop, "-unrelated").Slice())
		if err != nil {
			c.Violation("%v", err)
		}
		delete(child, drop[1:])
		if !reflect.DeepEqual(less.normal(), child.normal()) {
			c.Violation("removing %s from %q leaves %v", drop, got.Slice(), less)
		}
		if l.tricky {
			c.Nontrivial(fmt.Sprint(l.args, env))
		}
	})
}

func TestC24_NoCrash(t *testing.T) {
	ctx := context.Background()
	pool := []string{"", "-", "--", "-C", "-C=", "-Cx", "--C", "-tags", "-tags=", "--tags", "-mod", "-race", "-race=", "-race=maybe", "build", "test", "run", ".", "-o", "-args", "--args", "-=", "=", "-a=b=c", "---", "-buildvcs", "-toolexec", "-ldflags", "x.go", "-v", "-coverprofile=x", "-run", "\x00", "é"}
	vh.Run(t, vh.Opts{
		Rule:  "arbitrary sequences of fragments of command lines and GOFLAGS never crash the parser; non-trivial: ends in a flag that wants a value",
		Quick: 48000, Thorough: 192000,
	}, func(c *vh.Case) {
		args := rapid.SliceOfN(rapid.SampledFrom(pool), 0, 7).Draw(c.T, "args")
		env := rapid.SampledFrom([]string{"", "-tags=x", "-mod", "'", `"-x y" '`, "-race -v", " \t", "x"}).Draw(c.T, "GOFLAGS")
		for i, a := range args {
			if strings.HasPrefix(a, "-cover") {
				args[i] = "-x" // would run the go command
			}
		}
		c.Desc(map[string]any{"args": args, "GOFLAGS": env})
		vh.Must(os.Setenv("GOFLAGS", env))
		defer os.Unsetenv("GOFLAGS")
		f, err := goflags.ParseCommandFlags(ctx, ".", args)
		if err == nil {
			_ = f.Except("-a").Slice()
		}
		if n := len(args); n > 0 && contains([]string{"-tags", "--tags", "-mod", "-C", "-toolexec", "-ldflags"}, args[n-1]) {
			c.Nontrivial(fmt.Sprint(args, env))
		}
	})
}

func TestC24_Quoted(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "lists of arguments quoted the way GOFLAGS is written are split back; unterminated quotes are errors; non-trivial: some argument had blanks or quotes",
		Quick: 24000, Thorough: 96000,
	}, func(c *vh.Case) {
		items := rapid.SliceOfN(rapid.StringOfN(rapid.SampledFrom([]rune{'a', '-', '=', ' ', '\t', '\n', '\'', '"', '\\', 'é', ','}), 0, 6, -1), 0, 5).Draw(c.T, "items")
		var text strings.Builder
		interesting := false
		for i, it := range items {
			if strings.Contains(it, "'") && strings.Contains(it, `"`) {
				it = strings.ReplaceAll(it, "'", "")
			}
			items[i] = it
			text.WriteString(rapid.SampledFrom([]string{" ", "\t", "  ", "\n"}).Draw(c.T, "blank"))
			switch {
			case strings.Contains(it, "'"):
				text.WriteString(`"` + it + `"`)
				interesting = true
			case it == "" || strings.ContainsAny(it, " \t\n") || strings.HasPrefix(it, `"`):
				text.WriteString("'" + it + "'")
				interesting = true
			default:
				text.WriteString(it)
			}
		}
		c.Desc(text.String())
		got, err := quoted.Split(text.String())
		if err != nil {
			c.Violation("%q rejected: %v", text.String(), err)
		}
		if len(got)+len(items) > 0 && !reflect.DeepEqual(got, items) {
			c.Violation("%q was split into %q, want %q", text.String(), got, items)
		}
		if got, err := quoted.Split(text.String() + " 'x"); err == nil {
			c.Violation("an unterminated quote was accepted: %q", got)
		}
		if interesting {
			c.Nontrivial(text.String())
		}
	})
}

// Coverage: which packages are covered is decided by the top-level command's
// packages, so child builds must be told.
func TestC24_Coverage(t *testing.T) {
	ctx := context.Background()
	dir := t.TempDir()
	files := map[string]string{
		"go.mod":      "module example.com/cov\n\ngo 1.24\n",
		"root.go":     "package cov\n",
		"a/a.go":      "package a\n",
		"a/b/b.go":    "package b\n",
		"cmd/m.go":    "package main\n\nfunc main() {}\n",
		"tagged/t.go": "//go:build extra\n\npackage tagged\n",
		"tagged/u.go": "//go:build !extra\n\npackage tagged\n",
	}
	for n, text := range files {
		vh.Must(os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755))
		vh.Must(os.WriteFile(filepath.Join(dir, n), []byte(text), 0o644))
	}
	list := func(pats []string) []string {
		cmd := exec.Command("go", append([]string{"list"}, pats...)...)
		cmd.Dir = dir
		out, err := cmd.Output()
		if err != nil {
			vh.Infra("go list %v: %v", pats, err)
		}
		l := strings.Fields(string(out))
		sort.Strings(l)
		return l
	}
	memo := map[string][]string{}
	vh.Run(t, vh.Opts{
		Rule:  "test and build commands with coverage asked for in every documented way, with other flags before and after the packages; child builds must cover exactly the packages the go command would; non-trivial: flags stand right before or after the packages",
		Quick: 480, Thorough: 1920,
	}, func(c *vh.Case) {
		pats := rapid.SampledFrom([][]string{{}, {"."}, {"./..."}, {"./a"}, {"./a", "./cmd"}, {"./a/..."}, {"example.com/cov/a/b", "."}}).Draw(c.T, "packages")
		ask := rapid.SampledFrom([][]string{{"-cover"}, {"-cover=true"}, {"-covermode=count"}, {"-covermode", "atomic"}, {"-coverprofile=c.out"}, {"-coverprofile", "c.out"}, {"--cover", "-cover"}}).Draw(c.T, "coverage")
		other := rapid.SampledFrom([][]string{{}, {"-v"}, {"-run", "X"}, {"-x", "-v"}, {"-count=1"}, {"-short"}, {"-json"}, {"-timeout", "3m", "-v"}, {"-tags", "extra"}, {"-failfast"}, {"-p", "4"}, {"-cpu", "1"}}).Draw(c.T, "other")
		cmd := rapid.SampledFrom([]string{"test", "test", "build", "install"}).Draw(c.T, "command")
		before := append(append([]string{}, ask...), other...)
		if rapid.Bool().Draw(c.T, "swap") {
			before = append(append([]string{}, other...), ask...)
		}
		after := []string{}
		if cmd != "test" {
			if strings.HasPrefix(ask[0], "-coverprofile") {
				ask = []string{"-cover"}
			}
			before = append(append([]string{}, ask...), rapid.SampledFrom([][]string{{}, {"-v"}, {"-x", "-v"}, {"-o", "out"}, {"-tags", "extra"}}).Draw(c.T, "build flags")...)
		} else if len(pats) > 0 {
			switch rapid.IntRange(0, 2).Draw(c.T, "placement") {
			case 0:
				before, after = nil, before
			case 1:
				after = []string{"-v", "-args", "-x", "./cmd"}
			}
		}
		args := append(append(append([]string{cmd}, before...), pats...), after...)
		env := rapid.SampledFrom([]string{"", "-v", "-mod=mod", "-v -count=1"}).Draw(c.T, "GOFLAGS")
		c.Desc(map[string]any{"args": args, "GOFLAGS": env})
		vh.Must(os.Setenv("GOFLAGS", env))
		defer os.Unsetenv("GOFLAGS")
		flags, err := goflags.ParseCommandFlags(ctx, dir, args)
		if err != nil {
			c.Violation("command line rejected: %v", err)
		}
		key := strings.Join(pats, " ")
		want, ok := memo[key]
		if !ok {
			os.Unsetenv("GOFLAGS")
			want = list(pats)
			memo[key] = want
		}
		val, _ := flags.Get("-coverpkg")
		got := strings.Split(val, ",")
		sort.Strings(got)
		if !reflect.DeepEqual(got, want) {
			c.Violation("child builds cover %q, the go command covers %q", got, want)
		}
		if len(before)+len(after) > 1 && len(pats) > 0 {
			c.Nontrivial(fmt.Sprint(args, env))
		}
	})
}
