package e2e_test

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

var timing = regexp.MustCompile(`(\(|\t|in )(\d+\.\d+s|\(cached\))`)
var coverage = regexp.MustCompile(`\t*coverage: \d.*$`)

// observe splits what a program printed into its package initialisations, in no order, and the rest.
func observe(out string) (inits, rest string) {
	var in, other []string
	for _, line := range strings.Split(out, "\n") {
		if strings.HasPrefix(line, "INIT ") {
			in = append(in, line)
		} else {
			line = coverage.ReplaceAllString(line, "") // counts the statements that were added, too
			other = append(other, timing.ReplaceAllString(line, "${1}TIME"))
		}
	}
	sort.Strings(in)
	return strings.Join(in, "\n"), strings.Join(other, "\n")
}

func compare(what string, got, want result, through bool) string {
	if got.Code != want.Code {
		return fmt.Sprintf("%s: exit status %d, want %d\nstdout:\n%s\nstderr:\n%s", what, got.Code, want.Code, tail(got.Out, 2000), tail(got.Err, 3000))
	}
	gi, gr := observe(got.Out)
	wi, wr := observe(want.Out)
	if gi != wi {
		return fmt.Sprintf("%s: initialised packages:\n%s\nwant:\n%s", what, gi, wi)
	}
	if gr != wr {
		return fmt.Sprintf("%s printed:\n%s\nwant:\n%s", what, tail(gr, 4000), tail(wr, 4000))
	}
	_, ge := observe(got.Err)
	if through {
		_, ge = observe(ownNoise(got))
	}
	_, we := observe(want.Err)
	if ge != we {
		return fmt.Sprintf("%s wrote to stderr:\n%s\nwant:\n%s", what, tail(ge, 3000), tail(we, 3000))
	}
	return ""
}

// ownNoise removes the line the tool itself adds after those of a go command that failed.
func ownNoise(r result) string {
	if r.Code == 0 {
		return r.Err
	}
	return strings.TrimSuffix(r.Err, fmt.Sprintf("exit status %d\n", r.Code))
}

type scenario struct {
	Instr *instr
	App   *app
	Mode  string
	Test  string
	Flags string // "", "tags": build tags on the command line, "GOFLAGS": in the environment, "ldflags", "cover"
}

// TestC01_InstrumentedBuildsBehave builds generated modules through the tool, and compares what the
// executables do to an ordinary build of the same module with the advice written out by hand.
func TestC01_InstrumentedBuildsBehave(t *testing.T) {
	root, err := os.MkdirTemp("", "e2e")
	vh.Must(err)
	if os.Getenv("VERIF_KEEP") == "" {
		defer os.RemoveAll(root)
	}
	round := 0
	var in *instr
	vh.Run(t, vh.Opts{
		Rule:  "the programs run code that was woven in through an import, a link-time dependency or a hook in the standard library",
		Quick: 15, Thorough: 60,
	}, func(c *vh.Case) {
		// The instrumentation is the same for a number of applications, since changing it means compiling the standard library again.
		cfg := rapid.IntRange(0, map[bool]int{true: 5, false: 0}[vh.Thorough()]).Draw(c.T, "instrumentation")
		in = rapid.Custom(drawInstr).Example(vh.Seed()*100 + cfg)
		a := drawApp(c, in)
		mode := rapid.SampledFrom([]string{"build", "build", "toolexec", "install", "run", "sub"}).Draw(c.T, "mode")
		testMode := rapid.SampledFrom([]string{"-c", "test", "none"}).Draw(c.T, "test mode")
		flags := rapid.SampledFrom([]string{"", "", "tags", "GOFLAGS", "ldflags", "cover"}).Draw(c.T, "flags")
		sc := scenario{in, a, mode, testMode, flags}
		c.Desc(sc)
		c.Class(mode)
		c.Class("go test " + testMode)
		c.Class("flags " + flags)

		round++
		dir := filepath.Join(root, fmt.Sprint("case", round))
		if os.Getenv("VERIF_KEEP") == "" {
			defer os.RemoveAll(dir)
		} else {
			fmt.Println("case", dir, mode, testMode, flags)
		}
		idir := filepath.Join(root, fmt.Sprint("instr", cfg))
		if _, err := os.Stat(idir); err != nil {
			in.write(idir, false)
			in.write(idir+"m", true)
		}
		plain, manual := filepath.Join(dir, "app"), filepath.Join(dir, "manual")
		a.write(plain, in, idir, false)
		a.write(manual, in, idir+"m", true)

		cache := filepath.Join(root, "cache")
		start := time.Now()
		if diff, hits := sc.check(plain, manual, environment("GOCACHE="+cache), environment()); diff != "" {
			c.Violation("%s", diff)
		} else if hits > 0 {
			c.Nontrivial(fmt.Sprint(sc.App, sc.Mode, sc.Test, sc.Flags, cfg))
		}
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Println("case took", time.Since(start), mode, testMode)
		}
	})
}

// check runs the scenario; it reports the first difference, and how much was woven.
func (sc *scenario) check(plain, manual string, oenv, menv []string) (string, int) {
	hits := 0
	count := func(r result) {
		hits += strings.Count(r.Out+r.Err, "(by ") + strings.Count(r.Out, ".W(")
	}
	goCmd := func(dir, cwd string, env []string, args ...string) result {
		switch sc.Flags {
		case "tags":
			args = append([]string{args[0], "-tags", "extra"}, args[1:]...)
		case "cover":
			args = append([]string{args[0], "-cover"}, args[1:]...)
		case "ldflags":
			args = append([]string{args[0], "-ldflags=-s -w"}, args[1:]...)
		case "GOFLAGS":
			env = append(env, "GOFLAGS=-mod=mod -tags=extra")
		}
		if dir == plain {
			if sc.Mode == "toolexec" {
				args = append([]string{args[0], "-toolexec", orchestrion() + " toolexec"}, args[1:]...)
				return run(filepath.Join(dir, cwd), env, "go", args...)
			}
			return run(filepath.Join(dir, cwd), env, orchestrion(), append([]string{"go"}, args...)...)
		}
		return run(filepath.Join(dir, cwd), env, "go", args...)
	}
	mains := len(sc.App.Mains)
	both := func(what, cwd string, extra func(dir string) []string, args ...string) (result, result, string) {
		want := goCmd(manual, cwd, append(menv, extra(manual)...), args...)
		got := goCmd(plain, cwd, append(oenv, extra(plain)...), args...)
		if what != "" {
			return got, want, compare(what, got, want, sc.Mode != "toolexec")
		}
		if want.Code != 0 {
			vh.Infra("the reference does not build: go %v: %s\n%s", args, want.Out, want.Err)
		}
		if got.Code != 0 {
			return got, want, fmt.Sprintf("building through the tool failed: go %v: exit status %d\n%s\n%s", args, got.Code, tail(got.Out, 2000), tail(got.Err, 5000))
		}
		return got, want, ""
	}
	none := func(string) []string { return nil }
	switch sc.Mode {
	case "run":
		for i := 0; i < mains; i++ {
			got, _, diff := both(fmt.Sprintf("go run ./cmd/main%d", i), "", none, "run", fmt.Sprintf("./cmd/main%d", i))
			if diff != "" {
				return diff, 0
			}
			count(got)
		}
	default:
		args, cwd, extra := []string{"build", "-o", "bin/", "./cmd/..."}, "", none
		switch sc.Mode {
		case "install":
			args = []string{"install", "./cmd/..."}
			extra = func(dir string) []string { return []string{"GOBIN=" + filepath.Join(dir, "bin")} }
		case "sub":
			args, cwd = []string{"build", "-o", "../bin/", "../cmd/..."}, "lib0"
		}
		if _, _, diff := both("", cwd, extra, args...); diff != "" {
			return diff, 0
		}
		for i := 0; i < mains; i++ {
			bin := fmt.Sprintf("bin/main%d", i)
			got := run(plain, oenv, filepath.Join(plain, bin))
			if diff := compare(bin, got, run(manual, menv, filepath.Join(manual, bin)), false); diff != "" {
				return diff, 0
			}
			count(got)
		}
	}
	hasTests := false
	for _, l := range sc.App.Libs {
		hasTests = hasTests || l.Tests != 0
	}
	switch {
	case !hasTests || sc.Test == "none":
	case sc.Test == "-c":
		if _, _, diff := both("", "", none, "test", "-c", "-o", "tests/", "./lib..."); diff != "" {
			return diff, 0
		}
		for i, l := range sc.App.Libs {
			if l.Tests == 0 {
				continue
			}
			bin := fmt.Sprintf("tests/lib%d.test", i)
			got := run(plain, oenv, filepath.Join(plain, bin), "-test.v")
			if diff := compare(bin, got, run(manual, menv, filepath.Join(manual, bin), "-test.v"), false); diff != "" {
				return diff, 0
			}
			count(got)
		}
	default:
		got, _, diff := both("go test -v -p=1 ./lib...", "", none, "test", "-v", "-p=1", "-count=1", "./lib...")
		if diff != "" {
			return diff, 0
		}
		count(got)
	}
	return "", hits
}
