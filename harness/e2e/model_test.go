// Package e2e_test drives the real orchestrion binary on generated modules.
package e2e_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// stdFn is a standard library function that aspects may hook.
type stdFn struct{ pkg, name, call string }

var stdFns = []stdFn{
	{"net/url", "QueryEscape", `url.QueryEscape(s)`},
	{"html", "EscapeString", `html.EscapeString(s)`},
	{"encoding/hex", "EncodeToString", `hex.EncodeToString([]byte(s))`},
	{"path", "Ext", `path.Ext(s)`},
	{"strings", "Title", `strings.Title(s)`},
}

func base(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

var plainStd = []string{"container/ring", "encoding/base32", "text/tabwriter", "hash/adler32", "container/list", "unicode/utf16"}

// ipkg is one package of the instrumentation module.
type ipkg struct {
	Imports []int    // packages it imports (larger indices)
	Std     []string // standard packages it imports for their own sake
	// Weave: calls to F of these packages are woven into its F through an import.
	WeaveImport []int
	// WeaveLink: calls to L of these packages are woven into its F through go:linkname.
	WeaveLink []int
	// Nested: the directory of the package is below that of another one.
	Nested bool
	// Tagged: it has a file that is only built with the tag "extra".
	Tagged bool
}

// instr is the instrumentation module: injected packages, and aspects.
type instr struct {
	Pkgs []ipkg
	// StdHooks maps hooked functions (index in stdFns) to the package whose L they call.
	StdHooks map[int]int
	// Wrap is the package whose W wraps calls to api.Do.
	Wrap int
	// Field is the package whose T is the type of the field added to api.Opts.
	Field int
	// Split: the configuration is spread over files.
	Split int
}

func (in *instr) dir(i int) string {
	if in.Pkgs[i].Nested && i > 0 {
		return in.dir(i-1) + "/sub" + fmt.Sprint(i)
	}
	return fmt.Sprintf("p%d", i)
}
func (in *instr) path(i int) string { return "example.com/instr/" + in.dir(i) }
func (in *instr) name(i int) string { return fmt.Sprintf("p%d", i) }

func subset(c *vh.Case, label string, from, to, pct int) []int {
	var out []int
	for i := from; i < to; i++ {
		if rapid.IntRange(0, 99).Draw(c.T, label) < pct {
			out = append(out, i)
		}
	}
	return out
}

func drawInstr(t *rapid.T) *instr {
	c := &vh.Case{T: t}
	in := &instr{StdHooks: map[int]int{}}
	n := rapid.IntRange(4, 7).Draw(t, "packages")
	for i := 0; i < n; i++ {
		p := ipkg{
			Imports: subset(c, "import", i+1, n, 25),
			Nested:  rapid.IntRange(0, 3).Draw(t, "nested") == 0,
		}
		for _, s := range plainStd {
			if rapid.IntRange(0, 5).Draw(t, "std") == 0 {
				p.Std = append(p.Std, s)
			}
		}
		for _, k := range subset(c, "weave import", i+1, n, 20) {
			p.WeaveImport = append(p.WeaveImport, k)
		}
		p.Tagged = rapid.IntRange(0, 2).Draw(t, "tagged") == 0
		for k := 0; k < n; k++ {
			if k != i && rapid.IntRange(0, 5).Draw(t, "weave link") == 0 {
				p.WeaveLink = append(p.WeaveLink, k)
			}
		}
		in.Pkgs = append(in.Pkgs, p)
	}
	for f := range stdFns {
		if rapid.IntRange(0, 1).Draw(t, "hook") == 0 {
			in.StdHooks[f] = rapid.IntRange(0, n-1).Draw(t, "hook target")
		}
	}
	in.Wrap = rapid.IntRange(0, n-1).Draw(t, "wrap")
	in.Field = rapid.IntRange(0, n-1).Draw(t, "field")
	in.Split = rapid.IntRange(0, 2).Draw(t, "split")
	return in
}

// write emits the module. With manual set, everything that weaving would add to it is written out.
func (in *instr) write(dir string, manual bool) {
	files := map[string]string{
		"go.mod":       "module example.com/instr\n\ngo 1.24\n",
		"instr.go":     "// Package instr has the configuration.\npackage instr\n",
		"api/api.go":   "package api\n\nimport \"os\"\n\ntype Opts struct {\n\tName string\n" + map[bool]string{true: "\tXtra " + in.name(in.Field) + ".T\n"}[manual] + "}\n\nfunc Do(s string) string {\n\tos.Stdout.WriteString(\"do \" + s + \"\\n\")\n\treturn s + \"!\"\n}\n",
		"base/base.go": "// Package base prints.\npackage base\n\nimport \"os\"\n\nfunc Say(s string) { os.Stdout.WriteString(s + \"\\n\") }\n",
	}
	if manual {
		files["api/api.go"] = strings.Replace(files["api/api.go"], "import \"os\"", "import (\n\t\"os\"\n\n\t\""+in.path(in.Field)+"\"\n)", 1)
	}
	for i, p := range in.Pkgs {
		var b strings.Builder
		name := in.name(i)
		imps := map[string]string{"example.com/instr/base": ""}
		var calls, decls []string
		for _, k := range p.Imports {
			imps[in.path(k)] = ""
			calls = append(calls, fmt.Sprintf("\t%s.F(s + %q)\n", in.name(k), "<"+name))
		}
		for _, s := range p.Std {
			imps[s] = "_"
		}
		var woven []string
		if manual {
			for _, k := range p.WeaveImport {
				imps[in.path(k)] = ""
				woven = append(woven, fmt.Sprintf("\t%s.F(%q)\n", in.name(k), "by "+name))
			}
			for _, k := range p.WeaveLink {
				imps["unsafe"] = "_"
				decls = append(decls, fmt.Sprintf("//go:linkname hook%d %s.L\nfunc hook%d(string)\n", k, in.path(k), k))
				woven = append(woven, fmt.Sprintf("\thook%d(%q)\n", k, "by "+name))
			}
		}
		fmt.Fprintf(&b, "package %s\n\nimport (\n", name)
		for _, p := range sortedKeys(imps) {
			fmt.Fprintf(&b, "\t%s %q\n", imps[p], p)
		}
		b.WriteString(")\n\n")
		fmt.Fprintf(&b, "func init() { base.Say(%q) }\n\n", "INIT "+name)
		fmt.Fprintf(&b, "type T struct{ N int32 }\n\n")
		fmt.Fprintf(&b, "// L only prints, so that it can be called from anywhere.\nfunc L(s string) { base.Say(%q + s + \")\") }\n\n", name+".L(")
		fmt.Fprintf(&b, "func W(s string) string { base.Say(%q + s + \")\"); return s + %q }\n\n", name+".W(", "~"+name)
		fmt.Fprintf(&b, "func F(s string) {\n%s\tbase.Say(%q + s + \")\")\n%s}\n", strings.Join(woven, ""), name+".F(", strings.Join(calls, ""))
		for _, d := range decls {
			b.WriteString("\n" + d)
		}
		files[in.dir(i)+"/"+name+".go"] = b.String()
		if p.Tagged {
			files[in.dir(i)+"/extra.go"] = fmt.Sprintf("//go:build extra\n\npackage %s\n\nimport \"example.com/instr/base\"\n\nfunc init() { base.Say(%q) }\n", name, "INIT extra "+name)
		}
	}
	if !manual {
		for name, text := range in.config() {
			files[name] = text
		}
	}
	writeTree(dir, files)
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// config renders the aspects.
func (in *instr) config() map[string]string {
	var docs []string
	add := func(format string, args ...any) { docs = append(docs, fmt.Sprintf(format, args...)) }
	for i := range in.Pkgs {
		n := in.name(i)
		add(`  - id: import-%[1]s
    join-point:
      function-body:
        directive: instr:m%[2]d
    advice:
      - prepend-statements:
          imports:
            injected: %[3]s
          template: |-
            injected.F({{ printf "%%q" (print "by " .Function.Name) }})
`, n, i, in.path(i))
		add(`  - id: link-%[1]s
    join-point:
      function-body:
        directive: instr:l%[2]d
    advice:
      - inject-declarations:
          links:
            - %[3]s
          template: |-
            //go:linkname __%[1]s_{{ .Function.Name }} %[3]s.L
            func __%[1]s_{{ .Function.Name }}(string)
      - prepend-statements:
          template: |-
            __%[1]s_{{ .Function.Name }}({{ printf "%%q" (print "by " .Function.Name) }})
`, n, i, in.path(i))
		p := in.Pkgs[i]
		if len(p.WeaveImport)+len(p.WeaveLink) == 0 {
			continue
		}
		var adv strings.Builder
		// Prepended statements come in the order of the advice, the last one first.
		stmts := []string{}
		for _, k := range p.WeaveImport {
			stmts = append(stmts, fmt.Sprintf("      - prepend-statements:\n          imports:\n            other: %s\n          template: other.F(%q)\n", in.path(k), "by "+n))
		}
		for _, k := range p.WeaveLink {
			fmt.Fprintf(&adv, "      - inject-declarations:\n          links: [%[1]q]\n          template: |-\n            //go:linkname __hook%[2]d %[1]s.L\n            func __hook%[2]d(string)\n", in.path(k), k)
			stmts = append(stmts, fmt.Sprintf("      - prepend-statements:\n          template: __hook%d(%q)\n", k, "by "+n))
		}
		for j := len(stmts) - 1; j >= 0; j-- {
			adv.WriteString(stmts[j])
		}
		add(`  - id: weave-%s
    join-point:
      all-of:
        - import-path: %s
        - function-body:
            function:
              - name: F
    advice:
%s`, n, in.path(i), adv.String())
	}
	for f, k := range in.StdHooks {
		fn := stdFns[f]
		add(`  - id: std-%[1]s
    join-point:
      all-of:
        - import-path: %[2]s
        - function-body:
            function:
              - name: %[1]s
    advice:
      - inject-declarations:
          links:
            - %[3]s
          template: |-
            //go:linkname __hook_%[1]s %[3]s.L
            func __hook_%[1]s(string)
      - prepend-statements:
          template: __hook_%[1]s(%[4]q)
`, fn.name, fn.pkg, in.path(k), fn.name)
	}
	sort.Strings(docs)
	add(`  - id: wrap-do
    join-point:
      function-call: example.com/instr/api.Do
    advice:
      - wrap-expression:
          imports:
            w: %s
          template: w.W({{ . }})
`, in.path(in.Wrap))
	add(`  - id: field
    join-point:
      struct-definition: example.com/instr/api.Opts
    advice:
      - add-struct-field:
          name: Xtra
          type: %s.T
`, in.path(in.Field))
	add(`  - id: own-struct
    join-point:
      struct-definition: example.com/app/lib0.S
    advice:
      - add-struct-field:
          name: Added
          type: int64
  - id: own-path
    join-point:
      all-of:
        - import-path: example.com/app/lib0
        - function-body:
            function:
              - name: Entry
    advice:
      - prepend-statements:
          template: println("(by path)")
`)
	head := "meta:\n  name: instr\n  description: generated\n"
	switch in.Split {
	case 1: // another file that is extended
		return map[string]string{
			"orchestrion.yml": head + "extends:\n  - conf/more.yml\naspects:\n" + strings.Join(docs[len(docs)/2:], ""),
			"conf/more.yml":   head + "aspects:\n" + strings.Join(docs[:len(docs)/2], ""),
		}
	case 2: // a package that is imported by a tool file
		return map[string]string{
			"orchestrion.yml":          head + "aspects:\n" + strings.Join(docs[len(docs)/2:], ""),
			"orchestrion.tool.go":      "//go:build tools\n\npackage instr\n\nimport _ \"example.com/instr/more\" // integration\n",
			"more/more.go":             "package more\n",
			"more/orchestrion.tool.go": "//go:build tools\n\npackage more\n",
			"more/orchestrion.yml":     head + "aspects:\n" + strings.Join(docs[:len(docs)/2], ""),
		}
	}
	return map[string]string{"orchestrion.yml": head + "aspects:\n" + strings.Join(docs, "")}
}

// needs computes the packages that the given directly used ones bring along: imports, woven imports,
// link-time dependencies, and those of hooked standard packages that are in the build.
func (in *instr) needs(direct map[string]bool) map[string]bool {
	all := map[string]bool{}
	var add func(string)
	add = func(p string) {
		if all[p] {
			return
		}
		all[p] = true
		if strings.HasPrefix(p, "example.com/instr/") {
			add("os")
		}
		if p == "example.com/instr/api" {
			add(in.path(in.Field))
		}
		for i := range in.Pkgs {
			if in.path(i) != p {
				continue
			}
			for _, k := range in.Pkgs[i].Imports {
				add(in.path(k))
			}
			for _, s := range in.Pkgs[i].Std {
				add(s)
			}
			for _, k := range in.Pkgs[i].WeaveImport {
				add(in.path(k))
			}
			for _, k := range in.Pkgs[i].WeaveLink {
				add(in.path(k))
			}
		}
		for _, dep := range stdDeps(p) {
			add(dep)
		}
		for f, k := range in.StdHooks {
			if stdFns[f].pkg == p {
				add(in.path(k))
			}
		}
	}
	for p := range direct {
		add(p)
	}
	return all
}

var stdDepsCache = map[string][]string{}

// stdDeps lists the dependencies of a standard package.
func stdDeps(p string) []string {
	if strings.Contains(p, ".") || p == "C" || p == "unsafe" {
		return nil
	}
	if d, ok := stdDepsCache[p]; ok {
		return d
	}
	cmd := exec.Command("go", "list", "-deps", p)
	out, err := cmd.Output()
	vh.Must(err)
	stdDepsCache[p] = strings.Fields(string(out))
	return stdDepsCache[p]
}

// fn is a function of the generated application.
type fn struct {
	Name    string
	Import  []int // packages whose F is woven in
	Link    []int // packages whose L is woven in
	Calls   []int // functions of the same package (larger index), or
	Libs    []int // libraries (larger index) whose Entry is called
	Std     []int // stdFns called
	Do      int   // calls to api.Do
	Opts    bool  // uses api.Opts
	Closure bool  // the calls are made in a function literal
	Ignore  bool  // the function is excluded from weaving
	Exit    int   // exit status of main
}

type lib struct {
	Fns       []fn
	Tests     int // 0: none, 1: in-package, 2: external, 3: both
	TestFns   []fn
	UsesInstr []int // injected packages that the library imports by itself
	Files     int
}

type app struct {
	Libs  []lib
	Mains []lib
}

func drawFn(c *vh.Case, in *instr, name string, idx, nfns, libFrom, nlibs int, rich bool) fn {
	f := fn{Name: name}
	pct := 20
	if rich {
		pct = 30
	}
	f.Import = subset(c, "fn import", 0, len(in.Pkgs), pct/2)
	f.Link = subset(c, "fn link", 0, len(in.Pkgs), pct/3)
	f.Calls = subset(c, "fn call", idx+1, nfns, 40)
	f.Libs = subset(c, "fn lib", libFrom, nlibs, 30)
	f.Std = subset(c, "fn std", 0, len(stdFns), 12)
	f.Do = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(c.T, "do")
	f.Opts = rapid.IntRange(0, 5).Draw(c.T, "opts") == 0
	f.Closure = rapid.IntRange(0, 3).Draw(c.T, "closure") == 0
	f.Ignore = rapid.IntRange(0, 7).Draw(c.T, "ignore") == 0
	return f
}

func drawLib(c *vh.Case, in *instr, idx, nlibs int, main bool) lib {
	l := lib{Files: rapid.IntRange(1, 2).Draw(c.T, "files")}
	n := rapid.IntRange(1, 3).Draw(c.T, "fns")
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("Fn%d", i)
		if i == 0 {
			name = "Entry"
			if main {
				name = "main"
			}
		}
		l.Fns = append(l.Fns, drawFn(c, in, name, i, n, idx+1, nlibs, main))
	}
	if main {
		l.Fns[0].Exit = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(c.T, "exit")
	} else {
		l.Tests = rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(c.T, "tests")
		for i := 0; i < 2; i++ {
			l.TestFns = append(l.TestFns, drawFn(c, in, fmt.Sprintf("helper%d", i), 0, 0, nlibs, nlibs, false))
		}
	}
	if rapid.IntRange(0, 3).Draw(c.T, "uses instr") == 0 {
		l.UsesInstr = subset(c, "uses", 0, len(in.Pkgs), 25)
	}
	return l
}

func drawApp(c *vh.Case, in *instr) *app {
	a := &app{}
	n := rapid.IntRange(1, 4).Draw(c.T, "libs")
	for i := 0; i < n; i++ {
		a.Libs = append(a.Libs, drawLib(c, in, i, n, false))
	}
	m := rapid.IntRange(1, 2).Draw(c.T, "mains")
	for i := 0; i < m; i++ {
		a.Mains = append(a.Mains, drawLib(c, in, -1, n, true))
	}
	return a
}

func libPath(i int) string { return fmt.Sprintf("example.com/app/lib%d", i) }

// emit renders functions, and reports the imports they need.
func (a *app) emit(in *instr, l *lib, fns []fn, imps map[string]string, manual bool) string {
	var b strings.Builder
	var decls strings.Builder
	for _, f := range fns {
		b.WriteString("\n")
		if !manual {
			if f.Ignore {
				b.WriteString("//orchestrion:ignore\n")
			}
			for _, k := range f.Import {
				fmt.Fprintf(&b, "//instr:m%d\n", k)
			}
			for _, k := range f.Link {
				fmt.Fprintf(&b, "//instr:l%d\n", k)
			}
		}
		arg := "s string"
		if f.Name == "main" {
			arg = ""
		}
		fmt.Fprintf(&b, "func %s(%s) {\n", f.Name, arg)
		if manual && !f.Ignore {
			// The advice of the last aspect comes first; see config.
			var st []string
			for _, k := range f.Import {
				imps[in.path(k)] = ""
				st = append(st, "import-"+in.name(k)+"\x00"+fmt.Sprintf("\t%s.F(%q)\n", in.name(k), "by "+f.Name))
			}
			for _, k := range f.Link {
				if _, ok := imps["unsafe"]; !ok {
					imps["unsafe"] = "_"
				}
				fmt.Fprintf(&decls, "\n//go:linkname __%[1]s_%[2]s %[3]s.L\nfunc __%[1]s_%[2]s(string)\n", in.name(k), f.Name, in.path(k))
				st = append(st, "link-"+in.name(k)+"\x00"+fmt.Sprintf("\t__%s_%s(%q)\n", in.name(k), f.Name, "by "+f.Name))
			}
			sort.Sort(sort.Reverse(sort.StringSlice(st)))
			if l == &a.Libs[0] && f.Name == "Entry" {
				b.WriteString("\tprintln(\"(by path)\")\n")
			}
			for _, s := range st {
				b.WriteString(s[strings.IndexByte(s, 0)+1:])
			}
		}
		if f.Name == "main" {
			b.WriteString("\ts := \"start\"\n")
		}
		imps["os"] = ""
		fmt.Fprintf(&b, "\tos.Stdout.WriteString(%q + s + \"\\n\")\n", f.Name+" ")
		if f.Name == "Entry" {
			imps["unsafe"] = ""
			b.WriteString("\tprintln(unsafe.Sizeof(S{}))\n")
		}
		if f.Closure {
			b.WriteString("\tfunc() {\n")
		}
		for _, k := range f.Std {
			imps[stdFns[k].pkg] = ""
			if h, ok := in.StdHooks[k]; ok && manual {
				imps[in.path(h)] = ""
				fmt.Fprintf(&b, "\t%s.L(%q)\n", in.name(h), stdFns[k].name)
			}
			fmt.Fprintf(&b, "\tos.Stdout.WriteString(%s + \"\\n\")\n", stdFns[k].call)
		}
		for i := 0; i < f.Do; i++ {
			imps["example.com/instr/api"] = ""
			expr := "api.Do(s)"
			if manual && !f.Ignore {
				imps[in.path(in.Wrap)] = ""
				expr = in.name(in.Wrap) + ".W(api.Do(s))"
			}
			fmt.Fprintf(&b, "\tos.Stdout.WriteString(%s + \"\\n\")\n", expr)
		}
		if f.Opts {
			imps["example.com/instr/api"] = ""
			imps["unsafe"] = ""
			fmt.Fprintf(&b, "\t{\n\t\to := api.Opts{Name: s}\n\t\tprintln(o.Name, unsafe.Sizeof(o))\n\t}\n")
		}
		if f.Closure {
			b.WriteString("\t}()\n")
		}
		for _, k := range f.Calls {
			fmt.Fprintf(&b, "\t%s(s + %q)\n", l.Fns[k].Name, ">"+f.Name)
		}
		for _, k := range f.Libs {
			imps[libPath(k)] = ""
			fmt.Fprintf(&b, "\tlib%d.Entry(s + %q)\n", k, ">"+f.Name)
		}
		if f.Exit != 0 {
			fmt.Fprintf(&b, "\tos.Exit(%d)\n", f.Exit)
		}
		b.WriteString("}\n")
	}
	b.WriteString(decls.String())
	return b.String()
}

func importBlock(imps map[string]string) string {
	if len(imps) == 0 {
		return ""
	}
	var b strings.Builder
	b.WriteString("import (\n")
	for _, p := range sortedKeys(imps) {
		fmt.Fprintf(&b, "\t%s %q\n", imps[p], p)
	}
	b.WriteString(")\n")
	return b.String()
}

// pkgFiles renders the package, and returns the packages its non-test code refers to.
func (a *app) pkgFiles(in *instr, l *lib, name, dir, path string, manual bool, files map[string]string) map[string]bool {
	used := map[string]bool{}
	for k := 0; k < l.Files; k++ {
		imps := map[string]string{}
		if k == 0 {
			for _, u := range l.UsesInstr {
				imps[in.path(u)] = ""
			}
		}
		var fns []fn
		for i, f := range l.Fns {
			if i%l.Files == k {
				fns = append(fns, f)
			}
		}
		body := a.emit(in, l, fns, imps, manual)
		if k == 0 {
			if name != "main" {
				field := ""
				if manual && l == &a.Libs[0] {
					field = "; Added int64"
				}
				body += "\ntype S struct { A int64" + field + " }\n"
			}
			for _, u := range l.UsesInstr {
				body += fmt.Sprintf("\nvar _ = %s.T{}\n", in.name(u))
			}
		}
		for p := range imps {
			used[p] = true
		}
		for _, f := range fns {
			if manual && !f.Ignore {
				for _, k := range f.Link {
					used[in.path(k)] = true
				}
			}
		}
		files[fmt.Sprintf("%s/f%d.go", dir, k)] = "package " + name + "\n\n" + importBlock(imps) + body
	}
	if l.Tests&1 != 0 {
		imps := map[string]string{"testing": ""}
		body := a.emit(in, l, l.TestFns[:1], imps, manual)
		files[dir+"/in_test.go"] = "package " + name + "\n\n" + importBlock(imps) + body +
			"\nfunc TestIn(t *testing.T) {\n\thelper0(\"t\")\n\tEntry(\"in\")\n}\n"
	}
	if l.Tests&2 != 0 {
		imps := map[string]string{"testing": "", path: ""}
		body := a.emit(in, l, l.TestFns[1:], imps, manual)
		files[dir+"/ext_test.go"] = "package " + name + "_test\n\n" + importBlock(imps) + body +
			"\nfunc TestOut(t *testing.T) {\n\thelper1(\"t\")\n\t" + name + ".Entry(\"out\")\n}\n"
	}
	return used
}

// write emits the application module.
func (a *app) write(dir string, in *instr, instrDir string, manual bool) {
	files := map[string]string{
		"go.mod": "module example.com/app\n\ngo 1.24\n\nrequire example.com/instr v0.0.0\n\nreplace example.com/instr => " + instrDir + "\n",
	}
	if !manual {
		files["orchestrion.tool.go"] = "//go:build tools\n\npackage tools\n\nimport _ \"example.com/instr\" // integration\n"
	}
	libUse := make([]map[string]bool, len(a.Libs))
	for i := range a.Libs {
		libUse[i] = a.pkgFiles(in, &a.Libs[i], fmt.Sprintf("lib%d", i), fmt.Sprintf("lib%d", i), libPath(i), manual, files)
	}
	for i := range a.Mains {
		used := a.pkgFiles(in, &a.Mains[i], "main", fmt.Sprintf("cmd/main%d", i), "", manual, files)
		if manual {
			files[fmt.Sprintf("cmd/main%d/needs.go", i)] = a.needsFile(in, "main", used, libUse, -1)
		}
	}
	if manual {
		for i, l := range a.Libs {
			for bit, file := range map[int]string{1: "needs_in_test.go", 2: "needs_ext_test.go"} {
				if l.Tests != bit && !(l.Tests == 3 && bit == 2) {
					continue
				}
				used := map[string]bool{"testing": true, "testing/internal/testdeps": true, libPath(i): true}
				for k, f := range l.TestFns {
					if l.Tests&(1<<k) == 0 {
						continue
					}
					imps := map[string]string{}
					a.emit(in, &a.Libs[i], []fn{f}, imps, true)
					for p := range imps {
						used[p] = true
					}
					if !f.Ignore {
						for _, k := range f.Link {
							used[in.path(k)] = true
						}
					}
				}
				name := fmt.Sprintf("lib%d", i)
				if bit == 2 {
					name += "_test"
				}
				files[fmt.Sprintf("lib%d/%s", i, file)] = a.needsFile(in, name, used, libUse, i)
			}
		}
	}
	writeTree(dir, files)
}

// needsFile imports, for their effects, everything that the main package's closure needs.
func (a *app) needsFile(in *instr, pkg string, used map[string]bool, libUse []map[string]bool, self int) string {
	direct := map[string]bool{}
	var visit func(used map[string]bool)
	visit = func(used map[string]bool) {
		for p := range used {
			if direct[p] {
				continue
			}
			direct[p] = true
			for i := range a.Libs {
				if libPath(i) == p {
					visit(libUse[i])
				}
			}
		}
	}
	visit(used)
	imps := map[string]string{}
	for p := range in.needs(direct) {
		if strings.HasPrefix(p, "example.com/instr/p") {
			imps[p] = "_"
		}
	}
	return "package " + pkg + "\n\n" + importBlock(imps)
}

func writeTree(dir string, files map[string]string) {
	for name, text := range files {
		path := filepath.Join(dir, name)
		vh.Must(os.MkdirAll(filepath.Dir(path), 0o755))
		vh.Must(os.WriteFile(path, []byte(text), 0o644))
	}
}

// result is what a command did.
type result struct {
	Out, Err string
	Code     int
}

// run executes a command; no command may take longer than the time limit.
func run(dir string, env []string, name string, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	res := result{Out: out.String(), Err: errb.String()}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) && ctx.Err() == nil {
			res.Code = ee.ExitCode()
		} else if ctx.Err() != nil {
			res.Code = -1
			res.Err += "\n(timed out)"
		} else {
			vh.Infra("%s %v: %v", name, args, err)
		}
	}
	return res
}

// environment is the one of the generated builds; extra entries win.
func environment(extra ...string) []string {
	var env []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "VERIF_") || strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOPROXY=") {
			continue
		}
		env = append(env, kv)
	}
	return append(append(env, "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off"), extra...)
}

func orchestrion() string {
	p := os.Getenv("VERIF_ORCHESTRION")
	if p == "" {
		vh.Infra("no orchestrion binary")
	}
	return p
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
