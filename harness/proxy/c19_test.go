package proxy_test

import (
	"context"
	"fmt"
	"go/version"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"testing"

	golang "github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/toolexec/proxy"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// ---- what the real tools accept ----

type toolFlag struct {
	name, value string // value is "" for boolean flags
	counts      bool   // boolean flag that also takes numbers
}

var (
	toolOnce  sync.Once
	toolFlags = map[string][]toolFlag{}
)

// loadTools asks this toolchain's compiler and linker which flags they have.
func loadTools() {
	toolOnce.Do(func() {
		for _, tool := range []string{"compile", "link"} {
			out, _ := exec.Command("go", "tool", tool, "-h").CombinedOutput()
			re := regexp.MustCompile(`(?m)^  -(\S+)(?: (\S+))?(?:\t.*)?$`)
			for _, m := range re.FindAllStringSubmatch(string(out), -1) {
				toolFlags[tool] = append(toolFlags[tool], toolFlag{name: m[1], value: m[2]})
			}
			if len(toolFlags[tool]) < 20 {
				vh.Infra("cannot list the flags of %s: %s", tool, out)
			}
			for i := range toolFlags[tool] {
				f := &toolFlags[tool][i]
				if f.value == "" && f.name != "V" && f.name != "h" {
					f.counts = exec.Command("go", "tool", tool, "-"+f.name+"=3", "-V=full").Run() == nil
				}
			}
		}
	})
}

var (
	serverOnce sync.Once
)

func startServer() {
	serverOnce.Do(func() {
		srv, err := jobserver.New(context.Background(), &jobserver.Options{})
		vh.Must(err)
		vh.Must(os.Setenv(client.EnvVarJobserverURL, srv.ClientURL()))
	})
}

// refParse reads a command line the way the flag package, which both tools
// use, does. Later flags win.
func refParse(tool string, args []string) (flags map[string]string, pos []string) {
	kinds := map[string]toolFlag{}
	for _, f := range toolFlags[tool] {
		kinds[f.name] = f
	}
	flags = map[string]string{}
	for len(args) > 0 {
		a := args[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		args = args[1:]
		if a == "--" {
			break
		}
		name := strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-")
		name, val, hasVal := strings.Cut(name, "=")
		if kinds[name].value == "" {
			if !hasVal {
				val = "true"
			}
		} else if !hasVal {
			val, args = args[0], args[1:]
		}
		flags[name] = val
	}
	return flags, args
}

// ---- generation ----

var values = []string{"x", "", "a=b", "lang", "/tmp/go build/b001", "-o", "main", "0", "1", "/w/b001=>;/src=>example.com", "go1.21", "a.go", "$WORK/b001/_pkg_.a", "ssa/check_bce/debug=1,gossahash=1", "-"}

// render writes a flag in one of the ways the flag package reads.
func render(t *rapid.T, name, val string, isBool bool) []string {
	dash := rapid.SampledFrom([]string{"-", "-", "-", "--"}).Draw(t, "dash")
	if isBool {
		if val == "" {
			return []string{dash + name}
		}
		return []string{dash + name + "=" + val}
	}
	if rapid.Bool().Draw(t, "attached") {
		return []string{dash + name + "=" + val}
	}
	return []string{dash + name, val}
}

func genExtra(t *rapid.T, tool string, not ...string) []string {
	skip := map[string]bool{"V": true, "h": true, "help": true}
	for _, n := range not {
		skip[n] = true
	}
	var out []string
	for i := rapid.IntRange(0, 5).Draw(t, "extra flags"); i > 0; i-- {
		f := rapid.SampledFrom(toolFlags[tool]).Draw(t, "flag")
		if skip[f.name] {
			continue
		}
		var val string
		switch {
		case f.value == "" && f.counts:
			val = rapid.SampledFrom([]string{"", "", "2", "1", "0", "true"}).Draw(t, "count")
		case f.value == "":
			val = rapid.SampledFrom([]string{"", "", "true", "false", "1", "0"}).Draw(t, "bool")
		case f.value == "int":
			val = rapid.SampledFrom([]string{"0", "4", "-1", "0x1000"}).Draw(t, "int")
		default:
			val = rapid.SampledFrom(values).Draw(t, "value")
		}
		out = append(out, render(t, f.name, val, f.value == "")...)
	}
	return out
}

func toolPath(t *rapid.T, tool string) string {
	return rapid.SampledFrom([]string{"/opt/go/pkg/tool/linux_amd64/" + tool, "/opt/with space/" + tool, "/c/go/pkg/" + tool + ".exe", tool, "/compile/link/asm/" + tool}).Draw(t, "tool path")
}

var langs = []string{"go1.9", "go1.17", "go1.18", "go1.21", "go1.22", "go1.25", "go1.26"}

func sameExcept(before, after []string, changed map[int]bool) string {
	if len(before) != len(after) {
		return fmt.Sprintf("%d arguments became %d", len(before), len(after))
	}
	for i := range before {
		if before[i] != after[i] && !changed[i] {
			return fmt.Sprintf("argument %d changed from %q to %q", i, before[i], after[i])
		}
	}
	return ""
}

func TestC19_Compile(t *testing.T) {
	loadTools()
	startServer()
	work := t.TempDir()
	stage := filepath.Join(work, "b001")
	vh.Must(os.MkdirAll(stage, 0o755))
	icfg := filepath.Join(stage, "importcfg")
	vh.Must(os.WriteFile(icfg, []byte("# import config\n"), 0o644))
	serial := 0
	vh.Run(t, vh.Opts{
		Rule:  "compile command lines like the go command's, with flags from 'go tool compile -h' in every spelling (gcflags), then edited (language level, replaced and added files); compared with a reading by the flag package's rules; non-trivial: several spellings or repeated flags, and an edit that changed something",
		Quick: 15000, Thorough: 60000,
	}, func(c *vh.Case) {
		serial++
		var args []string
		out := filepath.Join(stage, "_pkg_.a")
		pkg := rapid.SampledFrom([]string{"main", "example.com/p", "command-line-arguments", "example.com/p [example.com/p.test]"}).Draw(c.T, "package")
		groups := [][]string{
			render(c.T, "o", out, false),
			render(c.T, "trimpath", stage+"=>", false),
			render(c.T, "p", pkg, false),
			render(c.T, "buildid", fmt.Sprintf("id%d/x=", serial), false),
			{"-goversion", "go1.26.10"},
			{"-pack"},
			{"-c=4"},
		}
		if rapid.IntRange(0, 5).Draw(c.T, "with importcfg") != 0 {
			groups = append(groups, render(c.T, "importcfg", icfg, false))
		}
		if rapid.IntRange(0, 3).Draw(c.T, "asmhdr") == 0 {
			groups = append(groups, render(c.T, "asmhdr", filepath.Join(stage, "go_asm.h"), false))
		}
		nlang := rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(c.T, "lang flags")
		for i := 0; i < nlang; i++ {
			groups = append(groups, render(c.T, "lang", rapid.SampledFrom(langs).Draw(c.T, "lang"), false))
		}
		groups = rapid.Permutation(groups).Draw(c.T, "order")
		for _, g := range groups {
			args = append(args, g...)
		}
		args = append(args, genExtra(c.T, "compile", "o", "p", "buildid", "importcfg", "asmhdr", "lang")...)
		nfiles := rapid.IntRange(0, 5).Draw(c.T, "files")
		var files []string
		for i := 0; i < nfiles; i++ {
			dir := rapid.SampledFrom([]string{"./", "/src/p/", stage + "/", "/src/with space=x/"}).Draw(c.T, "dir")
			name := rapid.SampledFrom([]string{"a.go", "main.go", "_testmain.go", "_cgo_gotypes.go", "x_test.go", "b.s", "é.go", "go"}).Draw(c.T, "name")
			f := fmt.Sprintf("%s%s", dir, name)
			dup := false
			for _, g := range files {
				dup = dup || g == f
			}
			if !dup {
				files = append(files, f)
			}
		}
		if nfiles > 0 && rapid.IntRange(0, 9).Draw(c.T, "dashes") == 0 {
			args = append(args, "--")
		}
		args = append(args, files...)
		line := append([]string{toolPath(c.T, "compile")}, args...)
		c.Desc(strings.Join(line, " "))
		want, wantPos := refParse("compile", args)

		parsed, err := proxy.ParseCommand(context.Background(), pkg, append([]string(nil), line...))
		if err != nil {
			c.Violation("command line rejected: %v", err)
		}
		cmd, ok := parsed.(*proxy.CompileCommand)
		if !ok {
			c.Violation("parsed as %T", parsed)
		}
		if cmd.Type() != proxy.CommandTypeCompile || cmd.ShowVersion() {
			c.Violation("recognised as %v, version=%v", cmd.Type(), cmd.ShowVersion())
		}
		check := func(what, got string) {
			if got != want[what] {
				c.Violation("-%s is %q, but the compiler sees %q", what, got, want[what])
			}
		}
		check("o", cmd.Flags.Output)
		check("p", cmd.Flags.Package)
		check("buildid", cmd.Flags.BuildID)
		check("importcfg", cmd.Flags.ImportCfg)
		check("asmhdr", cmd.Flags.Asmhdr)
		check("lang", cmd.Flags.Lang)
		if len(cmd.Files)+len(wantPos) > 0 && !reflect.DeepEqual(cmd.Files, wantPos) {
			c.Violation("files are %q, but the compiler sees %q", cmd.Files, wantPos)
		}
		var wantGo []string
		testMain := false
		for _, f := range wantPos {
			if strings.HasSuffix(f, ".go") {
				wantGo = append(wantGo, f)
				testMain = testMain || (filepath.Base(f) == "_testmain.go" && want["p"] == "main")
			}
		}
		if got := cmd.GoFiles(); len(got)+len(wantGo) > 0 && !reflect.DeepEqual(got, wantGo) {
			c.Violation("Go files are %q, want %q", got, wantGo)
		}
		if cmd.TestMain() != testMain {
			c.Violation("test main: %v, want %v", cmd.TestMain(), testMain)
		}
		if want["importcfg"] != "" && cmd.WorkDir != work {
			c.Violation("work directory is %q, want %q", cmd.WorkDir, work)
		}
		if d := sameExcept(line, cmd.Args(), nil); d != "" {
			c.Violation("parsing alone: %s", d)
		}

		// Edits.
		edited := false
		var hist []string
		pos := append([]string(nil), wantPos...)
		for i := rapid.IntRange(0, 6).Draw(c.T, "edits"); i > 0; i-- {
			before := append([]string(nil), cmd.Args()...)
			bflags, _ := refParse("compile", before[1:])
			switch rapid.IntRange(0, 3).Draw(c.T, "edit") {
			case 0, 1: // language level
				to := rapid.SampledFrom(append(langs, "")).Draw(c.T, "to")
				hist = append(hist, "lang "+to)
				c.Desc([]any{strings.Join(line, " "), hist})
				var v golang.GoLangVersion
				if to != "" {
					v = golang.MustParseGoLangVersion(to)
				}
				if err := cmd.SetLang(v); err != nil {
					c.Violation("raising the language level to %q: %v", to, err)
				}
				aflags, apos := refParse("compile", cmd.Args()[1:])
				wl := bflags["lang"]
				if wl != "" && to != "" && version.Compare(wl, to) < 0 {
					wl = to
				}
				if aflags["lang"] != wl {
					c.Violation("the language level is %q after requiring %q of %q, want %q", aflags["lang"], to, bflags["lang"], wl)
				}
				diffs := 0
				after := cmd.Args()
				if len(after) != len(before) {
					c.Violation("%d arguments became %d", len(before), len(after))
				}
				for k := range before {
					if before[k] != after[k] {
						diffs++
					}
				}
				if wl == bflags["lang"] && diffs > 0 || diffs > nlang {
					c.Violation("%d arguments changed", diffs)
				}
				edited = edited || diffs > 0
				delete(bflags, "lang")
				delete(aflags, "lang")
				if !reflect.DeepEqual(aflags, bflags) || len(apos)+len(pos) > 0 && !reflect.DeepEqual(apos, pos) {
					c.Violation("raising the language level changed something else:\n%q\n%q", before, after)
				}
				if cmd.Flags.Lang != wl {
					c.Violation("the recorded language level is %q, want %q", cmd.Flags.Lang, wl)
				}
			case 2: // replace
				if len(pos) == 0 {
					continue
				}
				k := rapid.IntRange(0, len(pos)-1).Draw(c.T, "which")
				to := fmt.Sprintf("%s/orchestrion/src/%d/%s", stage, i, filepath.Base(pos[k]))
				hist = append(hist, "replace "+pos[k])
				c.Desc([]any{strings.Join(line, " "), hist})
				if err := cmd.ReplaceParam(pos[k], to); err != nil {
					c.Violation("replacing %q: %v", pos[k], err)
				}
				idx := len(before) - len(pos) + k
				if d := sameExcept(before, cmd.Args(), map[int]bool{idx: true}); d != "" {
					c.Violation("replacing %q: %s", pos[k], d)
				}
				if cmd.Args()[idx] != to {
					c.Violation("replacing %q: argument %d is %q", pos[k], idx, cmd.Args()[idx])
				}
				pos[k] = to
				edited = true
			case 3: // add
				add := []string{fmt.Sprintf("/added/%d.go", i)}
				for k := rapid.IntRange(0, 2).Draw(c.T, "more"); k > 0; k-- {
					add = append(add, fmt.Sprintf("/added/%d-%d.go", i, k))
				}
				hist = append(hist, fmt.Sprintf("add %q", add))
				c.Desc([]any{strings.Join(line, " "), hist})
				cmd.AddFiles(add)
				if !reflect.DeepEqual(cmd.Args(), append(before, add...)) {
					c.Violation("adding a file: arguments are %q", cmd.Args())
				}
				pos = append(pos, add...)
				edited = true
			}
		}
		if edited && len(args) > 8 {
			c.Nontrivial(strings.Join(line, " ") + fmt.Sprint(hist))
		}
	})
}

func TestC19_Link(t *testing.T) {
	loadTools()
	vh.Run(t, vh.Opts{
		Rule:  "link command lines like the go command's, with flags from 'go tool link -h' in every spelling (ldflags); non-trivial: at least one extra flag",
		Quick: 15000, Thorough: 60000,
	}, func(c *vh.Case) {
		work := rapid.SampledFrom([]string{"/tmp/go-build1", "/tmp/with space", "/w=x"}).Draw(c.T, "work")
		b := rapid.SampledFrom([]string{"b001", "b123"}).Draw(c.T, "stage")
		groups := [][]string{
			render(c.T, "o", filepath.Join(work, b, "exe", "a.out"), false),
			render(c.T, "importcfg", filepath.Join(work, b, "importcfg.link"), false),
			render(c.T, "buildmode", rapid.SampledFrom([]string{"exe", "pie", "c-shared", "plugin"}).Draw(c.T, "buildmode"), false),
			render(c.T, "X", "runtime.godebugDefault=a=1,b=0", false),
			{"-buildid=a/b/c/d"},
		}
		var args []string
		for _, g := range rapid.Permutation(groups).Draw(c.T, "order") {
			args = append(args, g...)
		}
		extra := genExtra(c.T, "link", "o", "importcfg", "buildmode")
		args = append(args, extra...)
		args = append(args, rapid.SliceOfN(rapid.SampledFrom([]string{"/cache/ab-d", work + "/b001/_pkg_.a", "x.a"}), 1, 3).Draw(c.T, "inputs")...)
		line := append([]string{toolPath(c.T, "link")}, args...)
		c.Desc(strings.Join(line, " "))
		want, wantPos := refParse("link", args)
		parsed, err := proxy.ParseCommand(context.Background(), "", append([]string(nil), line...))
		if err != nil {
			c.Violation("command line rejected: %v", err)
		}
		cmd, ok := parsed.(*proxy.LinkCommand)
		if !ok {
			c.Violation("parsed as %T", parsed)
		}
		for name, got := range map[string]string{"o": cmd.Flags.Output, "importcfg": cmd.Flags.ImportCfg, "buildmode": cmd.Flags.BuildMode} {
			if got != want[name] {
				c.Violation("-%s is %q, but the linker sees %q", name, got, want[name])
			}
		}
		if cmd.Type() != proxy.CommandTypeLink || cmd.ShowVersion() {
			c.Violation("recognised as %v, version=%v", cmd.Type(), cmd.ShowVersion())
		}
		if !reflect.DeepEqual(cmd.Inputs, wantPos) {
			c.Violation("inputs are %q, want %q", cmd.Inputs, wantPos)
		}
		if cmd.WorkDir != work || cmd.Stage() != b {
			c.Violation("work directory %q stage %q, want %q %q", cmd.WorkDir, cmd.Stage(), work, b)
		}
		if d := sameExcept(line, cmd.Args(), nil); d != "" {
			c.Violation("parsing alone: %s", d)
		}
		if len(extra) > 0 {
			c.Nontrivial(strings.Join(line, " "))
		}
	})
}

func TestC19_Others(t *testing.T) {
	startServer()
	vh.Run(t, vh.Opts{
		Rule:  "other tools and version queries: recognised as what they are, arguments untouched; non-trivial: the tool's name resembles the compiler's or linker's, or asks for the version",
		Quick: 6000, Thorough: 24000,
	}, func(c *vh.Case) {
		names := map[string]proxy.CommandType{"compile": proxy.CommandTypeCompile, "link": proxy.CommandTypeLink}
		name := rapid.SampledFrom([]string{"compile", "link", "asm", "cgo", "vet", "cover", "pack", "buildid", "compiler", "linker", "precompile", "gccgo", "linkx"}).Draw(c.T, "tool")
		want := names[name]
		path := toolPath(c.T, name)
		var args []string
		showVersion := rapid.Bool().Draw(c.T, "version") || want != proxy.CommandTypeOther
		if showVersion {
			args = append(args, rapid.SampledFrom([]string{"-V=full", "--V=full", "-V"}).Draw(c.T, "V"))
		} else {
			args = rapid.SliceOfN(rapid.SampledFrom(append(values, "-V=full", "-trimpath", "-p")), 0, 8).Draw(c.T, "args")
		}
		line := append([]string{path}, args...)
		c.Desc(strings.Join(line, " "))
		cmd, err := proxy.ParseCommand(context.Background(), "", append([]string(nil), line...))
		if err != nil || cmd == nil {
			c.Violation("rejected: %v %v", cmd, err)
		}
		if cmd.Type() != want {
			c.Violation("%q recognised as %v, want %v", path, cmd.Type(), want)
		}
		if want != proxy.CommandTypeOther && !cmd.ShowVersion() {
			c.Violation("the version query is not recognised")
		}
		if d := sameExcept(line, cmd.Args(), nil); d != "" {
			c.Violation("parsing alone: %s", d)
		}
		if showVersion || strings.Contains(name, "compile") || strings.Contains(name, "link") {
			c.Nontrivial(strings.Join(line, " "))
		}
	})
}

var _ = runtime.GOOS
