package pin_test

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"golang.org/x/mod/module"
	"golang.org/x/mod/sumdb/dirhash"
)

const (
	toolMod  = "github.com/DataDog/orchestrion"
	instrMod = "github.com/DataDog/orchestrion/instrument"
	v1Mod    = "gopkg.in/DataDog/dd-trace-go.v1"
	v2Mod    = "github.com/DataDog/dd-trace-go/v2"
	allMod   = "github.com/DataDog/dd-trace-go/orchestrion/all/v2"
)

var repo = func() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}()

// shipped is the version of the tracer that the tool is built with.
var shipped = func() string {
	text, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return ""
	}
	m := regexp.MustCompile(`github.com/DataDog/dd-trace-go/v2 (v\S+)`).FindSubmatch(text)
	if m == nil {
		return ""
	}
	return string(m[1])
}()

var (
	toolVersions = []string{"v0.9.3", "v1.5.0", "v1.11.0", "v1.12.0-rc.1", "v1.12.0", "v1.12.1", "v1.13.0", "v1.20.0"}
	v1Versions   = []string{"v1.60.0", "v1.73.2", "v1.74.0", "v1.80.0"}
	v2Versions   = func() []string {
		l := []string{"v2.0.0", "v2.0.5", "v2.1.0", "v2.5.0", "v2.9.0", shipped, shipped + "0", "v2.9.99-rc.1", "v2.9.99", "v2.10.0", "v2.10.1-rc.2"}
		sort.Strings(l)
		out := l[:0]
		for i, v := range l {
			if i == 0 || v != l[i-1] {
				out = append(out, v)
			}
		}
		return out
	}()
)

const goodYML = "meta:\n  name: n\n  description: d\naspects:\n  - id: a\n    join-point: { package-name: nothing }\n    advice: [ { add-blank-import: unsafe } ]\n"

// stub is one version of a module in the proxy.
type stub struct {
	path, version string
	gomod         string
	files         map[string]string
}

func stubs() []stub {
	var l []stub
	add := func(path, version, requires string, files map[string]string) {
		l = append(l, stub{path, version, "module " + path + "\n\ngo 1.21\n\n" + requires, files})
	}
	for _, v := range toolVersions {
		add(toolMod, v, "", map[string]string{"main.go": "package main\n\nfunc main() {}\n"})
	}
	add(instrMod, "v1.5.0", "", map[string]string{"instrument.go": "package instrument\n"})
	for _, v := range v1Versions {
		add(v1Mod, v, "", map[string]string{"ddtrace.go": "package ddtrace\n", "orchestrion.yml": goodYML})
	}
	for _, v := range v2Versions {
		add(v2Mod, v, "", map[string]string{"ddtrace.go": "package ddtrace\n", "orchestrion.yml": goodYML})
		add(allMod, v, "require (\n\t"+v2Mod+" "+v+"\n\t"+toolMod+" v1.5.0\n)\n", map[string]string{
			"all.go":              "package all\n\nimport _ \"" + v2Mod + "\"\n",
			"orchestrion.tool.go": "//go:build tools\n\npackage all\n\nimport (\n\t_ \"" + v2Mod + "\"\n\t_ \"" + toolMod + "\"\n)\n",
		})
	}
	add("example.com/integ", "v1.0.0", "", map[string]string{
		"integ.go":                    "package integ\n",
		"yml/yml.go":                  "package yml\n",
		"yml/orchestrion.yml":         goodYML,
		"viatool/x.go":                "package viatool\n",
		"viatool/orchestrion.tool.go": "//go:build tools\n\npackage viatool\n\nimport _ \"example.com/integ/yml\"\n",
		"plain/plain.go":              "package plain\n",
		"idle/x.go":                   "package idle\n",
		"idle/orchestrion.tool.go":    "//go:build tools\n\npackage idle\n\nimport _ \"example.com/integ/plain\"\n",
		"broken/x.go":                 "package broken\n",
		"broken/orchestrion.yml":      "aspects: [{ id: a, join-point: { nonsense: x }, advice: [] }]\n",
		"lax/x.go":                    "package lax\n", // valid without validation only
		"lax/orchestrion.yml":         strings.Replace(goodYML, "meta:\n  name: n\n  description: d\n", "", 1),
	})
	add("example.com/newer", "v1.0.0", "require "+toolMod+" v1.13.0\n", map[string]string{"newer.go": "package newer\n\nimport _ \"" + toolMod + "/x\"\n", "orchestrion.yml": goodYML})
	add("example.com/plain", "v1.2.3", "", map[string]string{"plain.go": "package plain\n"})
	add("example.com/fork", "v1.12.0", "", map[string]string{"main.go": "package main\n\nfunc main() {}\n"})
	return l
}

// providing says which of the imports provide integrations (without and with validation).
var providing = map[string][2]bool{
	v2Mod:                       {true, true},
	allMod:                      {true, true},
	"example.com/integ/yml":     {true, true},
	"example.com/integ/viatool": {true, true},
	"example.com/integ/lax":     {true, false},
	"example.com/integ/plain":   {},
	"example.com/integ/idle":    {},
	"example.com/integ/broken":  {},
	"example.com/integ":         {},
	"example.com/plain":         {},
	"example.com/app/local":     {true, true},
	"example.com/app/util":      {},
}

var (
	common struct {
		sync.Once
		dir, cache string
	}
)

func TestMain(m *testing.M) {
	code := m.Run()
	if common.dir != "" {
		if os.Getenv("VERIF_KEEP") != "" {
			os.Exit(code)
		}
		_ = exec.Command("chmod", "-R", "u+w", common.dir).Run()
		_ = os.RemoveAll(common.dir)
	}
	os.Exit(code)
}

func escape(path string) string {
	p, err := module.EscapePath(path)
	vh.Must(err)
	return p
}

// modules writes all the stubs to disk once and returns the directory.
func modules() string {
	common.Do(func() {
		dir, err := os.MkdirTemp("", "proxy")
		vh.Must(err)
		common.dir = dir
		common.cache = filepath.Join(dir, "cache")
		sums := map[string]string{} // for the go.sum files of modules with requirements
		for _, s := range stubs() {
			if s.path == allMod {
				s.files["go.sum"] = sums[v2Mod+" "+s.version] + sums[toolMod+" v1.5.0"]
			}
			at := filepath.Join(dir, "all", escape(s.path), "@v")
			vh.Must(os.MkdirAll(at, 0o755))
			info, _ := json.Marshal(map[string]string{"Version": s.version, "Time": "2025-01-01T00:00:00Z"})
			vh.Must(os.WriteFile(filepath.Join(at, s.version+".info"), info, 0o644))
			vh.Must(os.WriteFile(filepath.Join(at, s.version+".mod"), []byte(s.gomod), 0o644))
			var buf bytes.Buffer
			w := zip.NewWriter(&buf)
			put := func(name, text string) {
				f, err := w.Create(s.path + "@" + s.version + "/" + name)
				vh.Must(err)
				_, err = f.Write([]byte(text))
				vh.Must(err)
			}
			put("go.mod", s.gomod)
			var names []string
			for n := range s.files {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				put(n, s.files[n])
			}
			vh.Must(w.Close())
			archive := filepath.Join(at, s.version+".zip")
			vh.Must(os.WriteFile(archive, buf.Bytes(), 0o644))
			h, err := dirhash.HashZip(archive, dirhash.DefaultHash)
			vh.Must(err)
			hm, err := dirhash.DefaultHash([]string{"go.mod"}, func(string) (io.ReadCloser, error) {
				return io.NopCloser(strings.NewReader(s.gomod)), nil
			})
			vh.Must(err)
			sums[s.path+" "+s.version] = s.path + " " + s.version + " " + h + "\n" + s.path + " " + s.version + "/go.mod " + hm + "\n"
		}
	})
	return common.dir
}

// proxy makes a module proxy in dir where the given versions are published (every version can be
// downloaded all the same) and returns the environment to use it.
func proxy(dir string, lists map[string][]string) []string {
	base := modules()
	p := filepath.Join(dir, "proxy")
	seen := map[string]bool{}
	for _, s := range stubs() {
		if seen[s.path] {
			continue
		}
		seen[s.path] = true
		from, to := filepath.Join(base, "all", escape(s.path), "@v"), filepath.Join(p, escape(s.path), "@v")
		vh.Must(os.MkdirAll(to, 0o755))
		es, err := os.ReadDir(from)
		vh.Must(err)
		var all []string
		for _, e := range es {
			vh.Must(os.Symlink(filepath.Join(from, e.Name()), filepath.Join(to, e.Name())))
			if v, ok := strings.CutSuffix(e.Name(), ".info"); ok {
				all = append(all, v)
			}
		}
		l, ok := lists[s.path]
		if !ok {
			l = all
		}
		vh.Must(os.WriteFile(filepath.Join(to, "list"), []byte(strings.Join(l, "\n")+"\n"), 0o644))
	}
	var env []string
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); k == "GOPROXY" || k == "GOFLAGS" || k == "GOMODCACHE" || k == "GOWORK" || strings.HasPrefix(k, "DD_") || strings.HasPrefix(k, "ORCHESTRION") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOPROXY=file://"+p, "GOMODCACHE="+common.cache, "GOFLAGS=", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOWORK=", "GOTOOLCHAIN=local", "GOCACHE="+os.Getenv("GOCACHE"))
}

func goCmd(dir string, env []string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir, cmd.Env = dir, env
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	if err != nil {
		err = fmt.Errorf("go %s: %w\n%s", strings.Join(args, " "), err, errs.String())
	}
	return out.String(), err
}
