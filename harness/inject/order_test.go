package inject_test

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// outcome is everything weaving produces, per file.
func outcome(r *ilib.Result) map[string]string {
	out := map[string]string{"": fmt.Sprint("lang ", r.Lang.String(), " failed ", r.Err != nil)}
	for n, s := range r.Files {
		var refs []string
		for p, k := range r.Refs[n] {
			refs = append(refs, fmt.Sprint(p, "=", k))
		}
		sort.Strings(refs)
		out[n] = "references " + strings.Join(refs, " ") + "\n" + s
	}
	return out
}

func differs(a, b map[string]string, only string) string {
	names := map[string]bool{}
	for n := range a {
		names[n] = true
	}
	for n := range b {
		names[n] = true
	}
	for _, n := range keysOf(names) {
		if only != "*" && n != only {
			continue
		}
		if a[n] != b[n] {
			return n + ": " + diffText(a[n], b[n])
		}
	}
	return ""
}

// mapped gives files names of their own with line directives, possibly the same name.
func mapped(g *weaveGen, w *woven) {
	out := map[string]string{}
	for n, src := range w.files {
		out[n] = src
		if n != "zz_helpers.go" && g.n(2) == 0 {
			out[n] = "//line " + g.pick([]string{"gen.go", "/x/gen.go", "gen.go", n, "f1.go", "gen.y"}) + g.pick([]string{":1", ":1:1", ""}) + "\n" + src
		}
	}
	w.files = out
}

func TestC07_SameInputSameResult(t *testing.T) {
	inWorld()
	procs := runtime.GOMAXPROCS(0)
	vh.Run(t, vh.Opts{
		Rule:  "random packages of 2-5 files (some renamed by line directives, some big enough to change how files are filtered) woven with random aspects; weaving again, on one and on all processors and with the files in another order, gives the same bytes, references and language level; so does weaving each file when nothing matches in the others; non-trivial: two or more files were rewritten",
		Quick: 300, Thorough: 1200,
	}, func(c *vh.Case) {
		defer runtime.GOMAXPROCS(procs)
		w := weave(c, ilib.GenOpts{Files: 4, Funcs: 1, Depth: 2, Clash: true, Comments: keepComments, CommentPct: 4}, nil, func(g *weaveGen, w *woven) {
			switch g.n(6) {
			case 0, 1:
				mapped(g, w)
			case 2:
				out := map[string]string{"pad.go": "package " + w.prog.Package + "\n\n" + strings.Repeat("// "+strings.Repeat("padding ", 100)+"\n", 300*(1+g.n(3)))}
				for n, s := range w.files {
					out[n] = s
				}
				w.files = out
				c.Class("big")
			}
		})
		if w.bad {
			return
		}
		dir, err := os.MkdirTemp("", "ord")
		vh.Must(err)
		defer os.RemoveAll(dir)
		n := 0
		run := func(files map[string]string, order []string) map[string]string {
			vh.Must(os.RemoveAll(filepath.Join(dir, "out")))
			vh.Must(os.RemoveAll(filepath.Join(dir, "src")))
			s := w.setup
			s.Order = order
			n++
			return outcome(ilib.InjectIn(dir, files, parseWeave(c, w.as), s))
		}
		base := run(w.files, nil)
		if d := differs(base, run(w.files, nil), "*"); d != "" {
			c.Violation("weaving again gives another result\n%s\n%s", aspectsYAML(w.as), d)
		}
		order := rapid.Permutation((&ilib.Prog{Files: w.files}).Names()).Draw(c.T, "order")
		if d := differs(base, run(w.files, order), "*"); d != "" {
			c.Violation("the result changes when the files are listed as %v\n%s\n%s", order, aspectsYAML(w.as), d)
		}
		runtime.GOMAXPROCS(1)
		if d := differs(base, run(w.files, order), "*"); d != "" {
			c.Violation("the result changes on one processor, with files listed as %v\n%s\n%s", order, aspectsYAML(w.as), d)
		}
		runtime.GOMAXPROCS(procs)
		// The rest is not woven: each file comes out the same.
		var woven []string
		for _, f := range (&ilib.Prog{Files: w.files}).Names() {
			if w.res.Files[f] != "" {
				woven = append(woven, f)
			}
		}
		for i, f := range woven {
			if i >= 3 {
				break
			}
			files := map[string]string{}
			for o, src := range w.files {
				if o != f {
					head, rest := "", src
					if strings.HasPrefix(src, "//line ") {
						i := strings.Index(src, "\n") + 1
						head, rest = src[:i], src[i:]
					}
					src = head + strings.Replace(rest, "package "+w.prog.Package, "//orchestrion:ignore\npackage "+w.prog.Package, 1)
				}
				files[o] = src
			}
			got := run(files, order)
			if d := differs(base, got, f); d != "" {
				c.Violation("the result for %s depends on other files being woven\n%s\n%s", f, aspectsYAML(w.as), d)
			}
		}
		if len(woven) >= 2 {
			c.Nontrivial(fmt.Sprint(order, aspectsYAML(w.as)))
		}
	})
}
