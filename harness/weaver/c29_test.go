package weaver_test

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/report"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// rfile is a source file of a compiled package.
type rfile struct {
	Name   string
	Funcs  []bool // functions; true: woven
	Prefix string // "", "doc": a comment in front, "line": a line directive naming another file, "build": a build constraint
}

type rpkg struct {
	Path  string // import path
	Flag  string // value of -p
	Stage string // directory below the work directory
	Dir   string // sources
	Files []rfile
}

func (f *rfile) text(dir, pkg string) string {
	var b strings.Builder
	switch f.Prefix {
	case "doc":
		b.WriteString("// Copyright text.\n\n// Package doc.\n")
	case "line":
		fmt.Fprintf(&b, "//line %s:1:1\n", filepath.Join(dir, "cgo-"+f.Name))
	case "build":
		b.WriteString("//go:build !never\n\n")
	}
	fmt.Fprintf(&b, "package %s\n", pkg)
	for i, w := range f.Funcs {
		b.WriteString("\n")
		if w {
			b.WriteString("//z:w\n")
		}
		fmt.Fprintf(&b, "func fn_%s_%d() {\n\tprintln(\"user %d\")\n\n\tprintln(\"more %d\")\n}\n", strings.ReplaceAll(strings.TrimSuffix(f.Name, ".go"), ".", "_"), i, i, i)
	}
	return b.String()
}

func (f *rfile) woven() int {
	n := 0
	for _, w := range f.Funcs {
		if w {
			n++
		}
	}
	return n
}

// expected is a line of the report.
type expected struct {
	original, modified, pkg string
	injected                int
	exists                  bool
}

func names(fs []report.ModifiedFile) []string {
	var out []string
	for _, f := range fs {
		out = append(out, f.String())
	}
	sort.Strings(out)
	return out
}

func wanted(es []expected, keep func(expected) bool) []string {
	var out []string
	for _, e := range es {
		if keep(e) {
			out = append(out, e.original+" -> "+e.modified)
		}
	}
	sort.Strings(out)
	return out
}

// TestC29_Reports weaves packages into a work directory, and reads the report on it.
func TestC29_Reports(t *testing.T) {
	root, err := os.MkdirTemp("", "c29")
	vh.Must(err)
	defer os.RemoveAll(root)
	round := 0
	vh.Run(t, vh.Opts{
		Rule:  "at least two files of the work directory were rewritten, and at least one was not",
		Quick: 375, Thorough: 3000,
	}, func(c *vh.Case) {
		round++
		dir := filepath.Join(root, fmt.Sprint(round))
		defer os.RemoveAll(dir)
		paths := []string{"example.com/a", "example.com/a/b", "example.com/orchestrion/src/x", "example.com/src", "a", "example.com/synthetic", "example.com/a.b-c/v2", "main.test/x",
			"github.com/DataDog/orchestrion/x", "github.com/DataDog/dd-trace-go/v2/ddtrace", "gopkg.in/DataDog/dd-trace-go.v1", "github.com/DataDog/orchestrion/runtime/built", "github.com/DataDog/go-tuf/client", "github.com/DataDog/go-tuf/client/sub"}
		var pk []*rpkg
		for i := rapid.IntRange(1, 6).Draw(c.T, "packages"); i > 0; i-- {
			p := &rpkg{Path: rapid.SampledFrom(paths).Draw(c.T, "path"), Stage: fmt.Sprintf("b%03d", len(pk)+1)}
			p.Flag = p.Path
			switch rapid.IntRange(0, 5).Draw(c.T, "form") {
			case 0:
				p.Path += " [example.com/a.test]"
			case 1:
				p.Flag = "main"
			}
			p.Dir = filepath.Join(dir, "src", fmt.Sprint(len(pk)))
			if len(pk) > 0 && rapid.IntRange(0, 5).Draw(c.T, "same dir") == 0 { // the same package again, in another stage
				q := pk[len(pk)-1]
				p.Path, p.Flag, p.Dir, p.Files = q.Path+" [z.test]", q.Flag, q.Dir, q.Files
				p.Path = strings.Replace(p.Path, " [example.com/a.test] [z.test]", " [z.test]", 1)
				p.Path = strings.Replace(p.Path, " [z.test] [z.test]", " [y.test]", 1)
				pk = append(pk, p)
				continue
			}
			for j := rapid.IntRange(1, 4).Draw(c.T, "files"); j > 0; j-- {
				f := rfile{Name: fmt.Sprintf("%s%d.go", rapid.SampledFrom([]string{"f", "a_b", "x.pb"}).Draw(c.T, "name"), j), Prefix: rapid.SampledFrom([]string{"", "", "doc", "line", "build"}).Draw(c.T, "prefix")}
				f.Funcs = rapid.SliceOfN(rapid.Bool(), 1, 3).Draw(c.T, "functions")
				p.Files = append(p.Files, f)
			}
			pk = append(pk, p)
		}
		tracerInternal := rapid.Bool().Draw(c.T, "tracer internal")
		twice := rapid.Bool().Draw(c.T, "two advice")
		noise := rapid.Bool().Draw(c.T, "noise")
		synthetic := rapid.Bool().Draw(c.T, "synthetic")
		c.Desc(map[string]any{"packages": pk, "tracer-internal": tracerInternal, "two advice": twice, "noise": noise, "synthetic": synthetic})

		conf := "  - id: w\n"
		if tracerInternal {
			conf += "    tracer-internal: true\n"
		}
		conf += "    join-point:\n      function-body:\n        directive: z:w\n    advice:\n      - prepend-statements:\n          template: println(\"injected\")\n"
		perFn := 1
		if twice {
			perFn = 2
			conf += "      - prepend-statements:\n          template: println(\"injected\", 2)\n"
		}
		module(filepath.Join(dir, "m"), conf)
		work := filepath.Join(dir, "work")
		var exp []expected
		total, untouched := 0, 0
		for _, p := range pk {
			var files []string
			pkgName := "x"
			if p.Flag == "main" {
				pkgName = "main"
			}
			for _, f := range p.Files {
				total++
				write(p.Dir, map[string]string{f.Name: f.text(p.Dir, pkgName)})
				files = append(files, filepath.Join(p.Dir, f.Name))
				imp, _, _ := strings.Cut(p.Path, " ")
				class := classify(imp)
				if f.woven() == 0 || class == "never" || class == "tracer" && !tracerInternal {
					untouched++
					continue
				}
				e := expected{original: filepath.Join(p.Dir, f.Name), modified: filepath.Join(p.Stage, "orchestrion", "src", p.Flag, f.Name), pkg: p.Flag, injected: f.woven() * perFn, exists: true}
				if f.Prefix == "line" {
					e.original, e.exists = filepath.Join(p.Dir, "cgo-"+f.Name), false
					e.modified = filepath.Join(filepath.Dir(e.modified), "cgo-"+f.Name)
				}
				exp = append(exp, e)
			}
			if res := compile(work, p.Stage, p.Path, p.Flag, files); res.Err != nil {
				c.Violation("weaving %s: %v", p.Path, res.Err)
			}
		}
		if noise {
			write(work, map[string]string{"b900/importcfg": "x", "b901/orchestrion/other/x.go": "package x\n", "b902/src/x.go": "package x\n", "file.go": "package x\n", "b001/orchestrion/src/notes.txt": "x"})
		}
		if synthetic {
			write(work, map[string]string{"b001/orchestrion/src/synthetic/link_deps_imports.go": "package main\n\nimport _ \"x\"\n"})
			exp = append(exp, expected{original: "(unknown original path)", modified: "b001/orchestrion/src/synthetic/link_deps_imports.go", pkg: "synthetic"})
		}

		vh.Must(os.MkdirAll(work, 0o755))
		rep, err := report.FromWorkDir(context.Background(), work)
		if err != nil {
			c.Violation("FromWorkDir: %v", err)
		}
		same := func(what string, r report.Report, keep func(expected) bool) {
			want := wanted(exp, keep)
			got := names(r.Files())
			if !slices.Equal(got, want) {
				c.Violation("%s lists\n%s\nwant\n%s", what, strings.Join(got, "\n"), strings.Join(want, "\n"))
			}
			if r.IsEmpty() != (len(want) == 0) {
				c.Violation("%s: IsEmpty is %v with %d files", what, r.IsEmpty(), len(want))
			}
			set := map[string]bool{}
			var pkgs []string
			for _, e := range exp {
				if keep(e) && !set[e.pkg] {
					set[e.pkg] = true
					pkgs = append(pkgs, e.pkg)
				}
			}
			sort.Strings(pkgs)
			if got := r.Packages(); !slices.Equal(got, pkgs) {
				c.Violation("%s: packages are %v, want %v", what, got, pkgs)
			}
			first := fmt.Sprint(r.Files())
			var imps []string
			for _, f := range r.Files() {
				imps = append(imps, f.ImportPath())
			}
			if !slices.IsSorted(imps) {
				c.Violation("%s: files are not grouped by package: %v", what, imps)
			}
			again, err := report.FromWorkDir(context.Background(), work)
			vh.Must(err)
			_ = again
			if second := fmt.Sprint(r.Files()); first != second {
				c.Violation("%s: the order changes from %s to %s", what, first, second)
			}
		}
		all := func(expected) bool { return true }
		same("the report", rep, all)
		special := func(e expected) bool { return e.pkg != "synthetic" && classify(e.pkg) == "all" }
		filtered := rep.WithSpecialCasesFilter()
		same("the report without special cases", filtered, special)
		same("the report, after it was filtered,", rep, all)
		expr := rapid.SampledFrom([]string{"example", "a_b", "/b/", "x[.]pb", "f[12][.]go$", "DataDog", "dd-trace-go", "b00[1-3]", "src/main/", "nothing", "^b001/", "a[.]b-c/v2"}).Draw(c.T, "regex")
		re := regexp.MustCompile(expr)
		match := func(e expected) bool { return re.MatchString(e.modified) }
		r2, err := rep.WithRegexFilter(expr)
		vh.Must(err)
		same("the report filtered by "+expr, r2, match)
		r3, err := filtered.WithRegexFilter(expr)
		vh.Must(err)
		same("the report without special cases, filtered by "+expr+",", r3, func(e expected) bool { return match(e) && special(e) })
		same("the report, after it was filtered again,", rep, all)
		if _, err := rep.WithRegexFilter("(["); err == nil {
			c.Violation("an invalid expression is accepted")
		}

		// Originals read as the modified file.
		count := map[string]int{}
		for _, e := range exp {
			count[e.original]++
		}
		for _, e := range exp {
			if count[e.original] != 1 || e.pkg == "synthetic" {
				continue
			}
			f, err := rep.Open(e.original)
			if err != nil {
				c.Violation("opening %s: %v", e.original, err)
			}
			data, err := io.ReadAll(f)
			vh.Must(err)
			f.Close()
			if string(data) != read(filepath.Join(work, e.modified)) {
				c.Violation("opening %s gives other contents than those of %s", e.original, e.modified)
			}
		}

		var buf bytes.Buffer
		if err := rep.Diff(&buf); err != nil {
			c.Violation("Diff: %v", err)
		}
		checkDiff(c, buf.String(), exp, perFn)
		var buf2 bytes.Buffer
		vh.Must(rep.Diff(&buf2))
		if buf.String() != buf2.String() {
			c.Violation("two differences are not the same:\n%s\n%s", buf.String(), buf2.String())
		}
		// The command shows the same.
		if rapid.IntRange(0, 2).Draw(c.T, "command") == 0 {
			args := []string{"diff"}
			keep := special
			if rapid.Bool().Draw(c.T, "debug") {
				args, keep = append(args, "--debug"), all
			}
			if rapid.Bool().Draw(c.T, "filter") {
				args = append(args, "--filter", expr)
				base := keep
				keep = func(e expected) bool { return base(e) && match(e) }
			}
			view := rapid.SampledFrom([]string{"--files", "--package", ""}).Draw(c.T, "view")
			if view != "" {
				args = append(args, view)
			}
			cmd := exec.Command(os.Getenv("VERIF_ORCHESTRION"), append(args, work)...)
			var errb bytes.Buffer
			cmd.Stderr = &errb
			out, err := cmd.Output()
			lines := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
			if len(out) == 0 {
				lines = nil
			}
			switch {
			case len(exp) == 0:
				if err == nil {
					c.Violation("orchestrion %v succeeds without any file", args)
				}
			case err != nil:
				c.Violation("orchestrion %v: %v\n%s", args, err, errb.String())
			case view == "--files":
				sort.Strings(lines)
				if want := wanted(exp, keep); !slices.Equal(lines, want) {
					c.Violation("orchestrion %v lists\n%s\nwant\n%s", args, strings.Join(lines, "\n"), strings.Join(want, "\n"))
				}
			case view == "--package":
				var want []string
				for _, e := range exp {
					if keep(e) && !slices.Contains(want, e.pkg) {
						want = append(want, e.pkg)
					}
				}
				sort.Strings(want)
				if !slices.Equal(lines, want) {
					c.Violation("orchestrion %v lists\n%s\nwant\n%s", args, strings.Join(lines, "\n"), strings.Join(want, "\n"))
				}
			default:
				var kept []expected
				for _, e := range exp {
					if keep(e) {
						kept = append(kept, e)
					}
				}
				checkDiff(c, string(out), kept, perFn)
			}
		}
		if len(exp) >= 2 && untouched > 0 {
			key := fmt.Sprint(tracerInternal, twice, synthetic)
			for _, p := range pk {
				key += fmt.Sprint(p.Path, p.Flag, p.Files)
			}
			c.Nontrivial(key)
		}
	})
}

var header = regexp.MustCompile(`(?m)^--- (.*)\n\+\+\+ (.*)$`)

func checkDiff(c *vh.Case, diff string, exp []expected, perFn int) {
	sections := map[string][]string{}
	locs := header.FindAllStringSubmatchIndex(diff, -1)
	for i, l := range locs {
		end := len(diff)
		if i+1 < len(locs) {
			end = locs[i+1][0]
		}
		key := diff[l[2]:l[3]] + " -> " + diff[l[4]:l[5]]
		if _, dup := sections[key]; dup {
			c.Violation("the difference shows %s twice\n%s", key, diff)
		}
		sections[key] = strings.Split(diff[l[1]:end], "\n")
	}
	for _, e := range exp {
		key := e.original + " -> " + e.modified
		lines, found := sections[key]
		delete(sections, key)
		if !e.exists {
			if found {
				c.Violation("the difference shows %s, which does not exist", e.original)
			}
			continue
		}
		if !found {
			c.Violation("the difference does not show %s\n%s", key, diff)
		}
		injected := 0
		for _, l := range lines {
			switch {
			case strings.HasPrefix(l, "-"):
				c.Violation("the difference for %s shows that a line was removed: %q\n%s", e.original, l, diff)
			case strings.HasPrefix(l, "+"):
				text := strings.TrimSpace(l[1:])
				if strings.Contains(text, "injected") {
					injected++
				}
				if strings.Contains(text, `"user`) || strings.Contains(text, `"more`) || strings.HasPrefix(text, "func ") || strings.HasPrefix(text, "package ") {
					c.Violation("the difference for %s shows that user code was added: %q\n%s", e.original, l, diff)
				}
			}
		}
		if injected != e.injected {
			c.Violation("the difference for %s shows %d injected statements out of %d\n%s", e.original, injected, e.injected, diff)
		}
	}
	for key := range sections {
		c.Violation("the difference shows %s, which is not expected", key)
	}
}
