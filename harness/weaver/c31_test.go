package weaver_test

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/toolexec/aspect"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// reserved is the documented classification; the first match counts.
var reserved = []struct {
	path  string
	tree  bool // packages below it too
	class string
}{
	{"github.com/DataDog/orchestrion/runtime", true, "all"},
	{"github.com/DataDog/orchestrion", true, "never"},
	{"gopkg.in/DataDog/dd-trace-go.v1", true, "tracer"},
	{"github.com/DataDog/dd-trace-go/internal/orchestrion/_integration", true, "all"},
	{"github.com/DataDog/dd-trace-go/v2/internal/orchestrion/_integration", true, "all"},
	{"github.com/DataDog/dd-trace-go", true, "tracer"},
	{"github.com/DataDog/go-tuf/client", false, "never"},
}

// classify goes by path segments.
func classify(path string) string {
	segs := strings.Split(path, "/")
	for _, r := range reserved {
		want := strings.Split(r.path, "/")
		if len(segs) < len(want) || !slices.Equal(segs[:len(want)], want) {
			continue
		}
		if len(segs) > len(want) && !r.tree {
			continue
		}
		return r.class
	}
	return "all"
}

func drawPath(c *vh.Case) string {
	base := rapid.SampledFrom(reserved).Draw(c.T, "base").path
	segs := strings.Split(base, "/")
	for i := rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 3}).Draw(c.T, "edits"); i > 0; i-- {
		k := rapid.IntRange(0, len(segs)-1).Draw(c.T, "segment")
		switch rapid.IntRange(0, 8).Draw(c.T, "edit") {
		case 0, 1:
			segs = append(segs, rapid.SampledFrom([]string{"sub", "runtime", "internal", "v2", "client", "_integration", "orchestrion", "main", "ddtrace", "x.test"}).Draw(c.T, "more"))
		case 2:
			segs[k] += rapid.SampledFrom([]string{"x", "-fork", ".v1", "_test", "2"}).Draw(c.T, "suffix")
		case 3:
			segs = segs[:max(1, len(segs)-1)]
		case 4:
			segs[k] = strings.ToLower(segs[k])
		case 5:
			segs = append([]string{rapid.SampledFrom([]string{"example.com", "vendor", "golang.org"}).Draw(c.T, "host")}, segs...)
		case 6:
			segs = slices.Insert(segs, k, rapid.SampledFrom([]string{"v2", "v3", "internal", "runtime"}).Draw(c.T, "between"))
		case 7:
			segs = append(segs, strings.Split("internal/orchestrion/_integration", "/")...)
		}
	}
	return strings.Join(segs, "/")
}

// TestC31_Classification compares the classification of import paths to the documented table.
func TestC31_Classification(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "the import path is reserved, or differs from a reserved one by one or two segments",
		Quick: 16000, Thorough: 64000,
	}, func(c *vh.Case) {
		path := drawPath(c)
		c.Desc(path)
		want := classify(path)
		c.Class(want)
		behavior, special := aspect.FindBehaviorOverride(path)
		got := "all"
		if special {
			got = map[aspect.BehaviorOverride]string{aspect.NoOverride: "all", aspect.NeverWeave: "never", aspect.WeaveTracerInternal: "tracer"}[behavior]
		}
		if got != want {
			c.Violation("%q is classified as %q, not %q", path, got, want)
		}
		c.Nontrivial(path)
	})
}

type conf struct {
	Kinds  []string // join point of each aspect: "directive", "path", "name", "struct", "call"
	Tracer []bool
	Paths  []string
}

func (k *conf) yaml() string {
	var b strings.Builder
	for i := range k.Kinds {
		fmt.Fprintf(&b, "  - id: a%d\n", i)
		if k.Tracer[i] {
			b.WriteString("    tracer-internal: true\n")
		}
		b.WriteString("    join-point:\n")
		switch k.Kinds[i] {
		case "directive":
			fmt.Fprintf(&b, "      function-body:\n        directive: z:a%d\n", i)
		case "path":
			fmt.Fprintf(&b, "      all-of:\n        - one-of:\n")
			for _, p := range k.Paths {
				fmt.Fprintf(&b, "            - import-path: %s\n", p)
			}
			fmt.Fprintf(&b, "        - function-body:\n            function:\n              - name: a%d\n", i)
		case "name":
			fmt.Fprintf(&b, "      function-body:\n        function:\n          - name: a%d\n", i)
		case "not-path":
			fmt.Fprintf(&b, "      all-of:\n        - not:\n            import-path: example.com/other\n        - function-body:\n            function:\n              - name: a%d\n", i)
		}
		fmt.Fprintf(&b, "    advice:\n      - prepend-statements:\n          template: println(\"by aspect %d.\")\n", i)
	}
	return b.String()
}

// TestC31_Compilation compiles packages with all kinds of import paths.
func TestC31_Compilation(t *testing.T) {
	root, err := os.MkdirTemp("", "c31")
	vh.Must(err)
	defer os.RemoveAll(root)
	round := 0
	vh.Run(t, vh.Opts{
		Rule:  "the package is a reserved one, or nearly so, and at least one aspect matches code of it but for the classification",
		Quick: 1600, Thorough: 6400,
	}, func(c *vh.Case) {
		path := drawPath(c)
		k := &conf{Paths: []string{path, "example.com/elsewhere"}}
		for i := rapid.IntRange(1, 4).Draw(c.T, "aspects"); i > 0; i-- {
			k.Kinds = append(k.Kinds, rapid.SampledFrom([]string{"directive", "path", "name", "not-path"}).Draw(c.T, "kind"))
			k.Tracer = append(k.Tracer, rapid.Bool().Draw(c.T, "tracer"))
		}
		form := rapid.SampledFrom([]string{"plain", "plain", "variant", "dep variant", "main", "test main"}).Draw(c.T, "form")
		id, flag := path, path
		class := classify(path)
		file := "f.go"
		name := "x"
		switch form {
		case "variant":
			id = path + " [" + path + ".test]"
		case "dep variant":
			id = path + " [example.com/other.test]"
		case "main":
			flag, name = "main", "main"
		case "test main":
			id, flag, file, name = path+".test", "main", "_testmain.go", "main"
			path = id
			class = classify(path)
			k.Paths = []string{path}
		}
		c.Desc(map[string]any{"import path": id, "form": form, "config": k})
		c.Class(form)
		c.Class(class)

		round++
		dir := filepath.Join(root, fmt.Sprint(round))
		defer os.RemoveAll(dir)
		src := "package " + name + "\n"
		for i := range k.Kinds {
			src += fmt.Sprintf("\n//z:a%d\nfunc a%d() {\n\tprintln(\"user\")\n}\n", i, i)
		}
		module(filepath.Join(dir, "m"), k.yaml())
		write(filepath.Join(dir, "src"), map[string]string{file: src})
		in := filepath.Join(dir, "src", file)
		res := compile(filepath.Join(dir, "work"), "b001", id, flag, []string{in})
		if res.Err != nil {
			c.Violation("%s: %v", id, res.Err)
		}
		if len(res.Files) != 1 {
			c.Violation("%s: compiled files are %v", id, res.Files)
		}
		text := read(res.Files[0])
		want := 0
		for i := range k.Kinds {
			expect := class == "all" || class == "tracer" && k.Tracer[i]
			if expect {
				want++
			}
			if n := strings.Count(text, fmt.Sprintf("by aspect %d.", i)); (n == 1) != expect || n > 1 {
				c.Violation("%s (%s, tracer-internal: %v): the advice of aspect %d (%s) was applied %d times\n%s", id, class, k.Tracer[i], i, k.Kinds[i], n, text)
			}
		}
		if want == 0 && !slices.Equal(res.Args, res.Orig) {
			c.Violation("%s: nothing is woven, but the command line changed from\n%v\nto\n%v", id, res.Orig, res.Args)
		}
		c.Nontrivial(fmt.Sprint(id, k))
	})
}
