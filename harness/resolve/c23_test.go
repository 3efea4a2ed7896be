package resolve_test

import (
	"context"
	"encoding/json"
	"fmt"
	"maps"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/pkgs"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// What does not matter to the resolution of packages.
var irrelevant = []string{"PWD", "TOOLEXEC_IMPORTPATH", "ORCHESTRION_PKG.RESOLVE_PARENT_ID", "ORCHESTRION_JOBSERVER_URL", "_DD_ROOT_GO_SESSION_ID"}

const parentID = "ORCHESTRION_PKG.RESOLVE_PARENT_ID"

// canned is what go lists about a package of the given name: a random tree of packages, the archives of
// which are named after the record.
func (g *gen) canned(dir, root string) (text string, closure []string) {
	n := 1 + g.n(5)
	names := make([]string, n)
	for i := range n {
		names[i] = fmt.Sprintf("%s/d%d", root, i)
	}
	names[0] = root
	var sb strings.Builder
	for i := n - 1; i >= 0; i-- {
		var imports []string
		for j := i + 1; j < n; j++ {
			if j == i+1 || g.pct(40) {
				imports = append(imports, names[j])
			}
		}
		if g.pct(30) {
			imports = append(imports, "unsafe")
		}
		b, err := json.Marshal(map[string]any{"ImportPath": names[i], "Name": "p", "Dir": dir, "GoFiles": []string{"p.go"}, "CompiledGoFiles": []string{"p.go"}, "Imports": imports, "DepOnly": i > 0, "Export": "/cache/@N@/" + names[i] + ".a"})
		vh.Must(err)
		sb.Write(b)
		sb.WriteString("\n")
	}
	b, err := json.Marshal(map[string]any{"ImportPath": "unsafe", "Name": "unsafe", "Dir": dir, "GoFiles": []string{"unsafe.go"}, "DepOnly": true, "Standard": true})
	vh.Must(err)
	sb.Write(b)
	return sb.String(), names
}

type request struct {
	req  pkgs.ResolveRequest
	key  string            // what the answer depends on
	env  map[string]string // what go is to be run with
	desc string
}

// TestC23_Sharing is about which requests share an answer.
func TestC23_Sharing(t *testing.T) {
	root, err := os.MkdirTemp("", "sharing")
	vh.Must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	vh.Must(err)
	w := newWorld(root)

	vh.Run(t, vh.Opts{
		Rule:  "histories of requests from several clients at the same time, for packages, directories and environments that are the same, reordered, with overridden duplicates, with changes of what does not matter and of what does, with listings that fail; go is a stand-in the answers of which tell how it was run; non-trivial: two requests share an answer and two others do not",
		Quick: 300, Thorough: 8000,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		dir, err := os.MkdirTemp(root, "case")
		vh.Must(err)
		defer os.RemoveAll(dir)

		dirs := []string{filepath.Join(dir, "a"), filepath.Join(dir, "b")}
		for _, d := range dirs {
			vh.Must(os.MkdirAll(d, 0o755))
		}
		pl := plan{Record: filepath.Join(dir, "record"), Canned: map[string]string{}, Fail: map[string]string{}, Wait: g.n(20)}
		closures := map[string][]string{}
		patterns := []string{"example.com/p", "example.com/q", "example.com/p/d1"}
		for _, p := range patterns {
			pl.Canned[p], closures[p] = g.canned(dir, p)
		}
		if g.pct(25) {
			patterns = append(patterns, "example.com/fails")
			pl.Fail["example.com/fails"] = "it does not work"
		}
		w.set(pl)

		// Requests: from a few distinct ones, variations that mean the same.
		pool := []string{"GOFLAGS", "MY_VAR", "my_var", "CGO_ENABLED", "EMPTY", "PWDX", "OLDPWD", "GOTMPDIRX", "TOOLEXEC_OTHER", "ORCHESTRION_LOG_LEVEL", "DD_X", "GOAMD64", "WITH SPACE",
			"GOROOT", "GOPATH", "GOMODCACHE", "GOARCH", "GOOS", "GOPROXY", "GOSUMDB", "GOPRIVATE", "GOWORK", "HOME", "LANG", "TERM", "USER", "SHLVL", "_", "CGO_CFLAGS", "CGO_LDFLAGS", "CC", "CXX", "GOEXPERIMENT", "GOTOOLCHAIN", "TMPDIR", "PKG_CONFIG", "LD_LIBRARY_PATH", "DD_TRACE_ENABLED", "_DD_OTHER", "GOCOVERDIR", "GOTOOLEXEC", "TOOLEXEC", "GOVCS", "GOFIPS140"}
		vars := make([]string, 12)
		for i := range vars {
			vars[i] = pool[g.n(len(pool))]
		}
		values := map[string][]string{"GOFLAGS": {"", "-trimpath"}, "CGO_ENABLED": {"0", "1"}, "GOAMD64": {"v1", "v2"}, "GOROOT": {"", w.goroot}, "GOPATH": {"", "/none/a", "/none/b"}, "GOMODCACHE": {"", "/none/a", "/none/b"},
			"GOARCH": {"amd64", "arm64"}, "GOOS": {"linux", "darwin"}, "GOPROXY": {"off", "direct"}, "GOSUMDB": {"off", ""}, "GOPRIVATE": {"", "x.com"}, "GOWORK": {"off", ""}, "HOME": {dir, "/"}, "CC": {"gcc", "clang"}, "CXX": {"g++", "clang++"}, "GOEXPERIMENT": {"", "none"},
			"GOTOOLCHAIN": {"local", ""}, "TMPDIR": {dir, "/tmp"}, "GOVCS": {"", "*:off"}, "GOFIPS140": {"off", ""}, "LD_LIBRARY_PATH": {"/none/a", "/none/b"}}
		value := func(v string) string {
			if l := values[v]; l != nil {
				return g.pick(l...)
			}
			return g.pick("", "1", "2", "a b", "x=y", "é", "=", "GOTMPDIR=/x")
		}
		type base struct {
			dir, pattern, temp string
			env                map[string]string
		}
		var bases []base
		for range 2 + g.n(3) {
			b := base{dirs[g.n(2)], patterns[g.n(len(patterns))], "", map[string]string{}}
			if len(bases) > 0 && g.pct(70) {
				// Like another one but for something.
				b = bases[g.n(len(bases))]
				b.env = maps.Clone(b.env)
				switch g.n(5) {
				case 0:
					b.dir = dirs[g.n(2)]
				case 1:
					b.pattern = patterns[g.n(len(patterns))]
				case 2:
					b.temp = g.pick("", filepath.Join(dir, "t1"), filepath.Join(dir, "t2"))
				case 3:
					v := vars[g.n(len(vars))]
					b.env[v] = value(v)
				case 4:
					for v := range maps.Keys(b.env) {
						delete(b.env, v)
						break
					}
				}
				bases = append(bases, b)
				continue
			}
			if g.pct(30) {
				b.temp = filepath.Join(dir, g.pick("t1", "t2"))
			}
			for range g.n(4) {
				v := vars[g.n(len(vars))]
				b.env[v] = value(v)
			}
			bases = append(bases, b)
		}

		srv, cl := server()
		defer srv.Shutdown()
		defer cl.Close()

		rnd := rand.New(rand.NewSource(int64(g.n(1 << 24))))
		var reqs []request
		for i := range 3 + g.n(8) {
			b := bases[g.n(len(bases))]
			r := request{req: pkgs.ResolveRequest{Dir: b.dir, Pattern: b.pattern}}
			env := envMap(w.base)
			for k, v := range b.env {
				env[k] = v
			}
			r.env = maps.Clone(env)
			if b.temp != "" {
				r.env["GOTMPDIR"] = b.temp
			}
			k, err := json.Marshal([]any{b.dir, b.pattern, r.env}) // maps are sorted
			vh.Must(err)
			r.key = string(k)

			// The entries, in any order.
			var l []string
			for k, v := range env {
				l = append(l, k+"="+v)
			}
			slices.Sort(l)
			field := false
			if b.temp != "" {
				if field = g.pct(50); field {
					r.req.TempDir = b.temp
					if g.pct(30) {
						l = append(l, "GOTMPDIR=/overridden")
					}
				} else {
					l = append(l, "GOTMPDIR="+b.temp)
				}
			}
			from := g.pct(40)
			if from {
				l = append(l, fmt.Sprintf("TOOLEXEC_IMPORTPATH=child%d", g.n(3)))
				if g.pct(50) {
					l = append(l, fmt.Sprintf("%s=parent%d", parentID, g.n(3)))
				}
			}
			for _, k := range irrelevant {
				if k != "TOOLEXEC_IMPORTPATH" && k != parentID && g.pct(30) {
					l = append(l, fmt.Sprintf("%s=/any/%d", k, g.n(100)))
				}
			}
			rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			// Overridden duplicates come before what overrides them.
			dups := 0
			for range g.n(4) {
				at := g.n(len(l))
				k, _, _ := strings.Cut(l[at], "=")
				if strings.HasPrefix(k, "ORCHESTRION_PKG") || k == "TOOLEXEC_IMPORTPATH" {
					continue
				}
				l = slices.Insert(l, g.n(at+1), k+"="+g.pick("overridden", "", "1", "/x"))
				dups++
			}
			r.req.Env = l
			r.desc = fmt.Sprintf("%d: %s in %s, environment %q, temporary directory %q (field %v), from %v, %d duplicates", i, b.pattern, filepath.Base(b.dir), fmt.Sprint(b.env), filepath.Base(b.temp), field, from, dups)
			reqs = append(reqs, r)
		}
		var descs []string
		for _, r := range reqs {
			descs = append(descs, r.desc)
		}
		c.Desc(map[string]any{"requests": descs})

		// Some at the same time.
		resps := make([]pkgs.ResolveResponse, len(reqs))
		errs := make([]error, len(reqs))
		for i := 0; i < len(reqs); {
			j := i + 1 + g.n(4)
			j = min(j, len(reqs))
			var wg sync.WaitGroup
			for ; i < j; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					resps[i], errs[i] = client.Request(context.Background(), cl, &reqs[i].req)
				}(i)
			}
			wg.Wait()
		}

		byN := map[string]record{}
		for _, r := range records(pl.Record) {
			byN[r.N] = r
		}
		shared := map[string]string{} // by key
		failing := 0
		for i, r := range reqs {
			if _, fails := pl.Fail[r.req.Pattern]; fails {
				failing++
				if errs[i] == nil {
					c.Violation("no error is reported by request %s", r.desc)
				}
				continue
			}
			if errs[i] != nil {
				c.Violation("request %s fails: %v", r.desc, errs[i])
			}
			// Exactly what was listed.
			n := ""
			for p, a := range resps[i] {
				n = strings.TrimPrefix(strings.TrimSuffix(a.ExportFile, "/"+p+".a"), "/cache/")
				break
			}
			want := pkgs.ResolveResponse{}
			for _, p := range closures[r.req.Pattern] {
				want[p] = pkgs.ResolvedArchive{ExportFile: "/cache/" + n + "/" + p + ".a"}
			}
			if !maps.Equal(want, resps[i]) {
				c.Violation("the answer to request %s is %v, expected %v", r.desc, resps[i], want)
			}
			rec, found := byN[n]
			if !found {
				c.Violation("the answer to request %s is from no run of go: %v", r.desc, resps[i])
			}
			// From a run of go in the right place and environment.
			if rec.Dir != r.req.Dir {
				c.Violation("the answer to request %s is from a run of go in %s", r.desc, rec.Dir)
			}
			args := strs(rec.Args)
			if args[len(args)-1] != r.req.Pattern {
				c.Violation("the answer to request %s is from a run of go with arguments %q", r.desc, args)
			}
			// The flags of the build, but with the tool itself, and without building everything anew for each request.
			count := map[string]int{}
			for _, a := range args {
				k, v, _ := strings.Cut(strings.Replace(a, "--", "-", 1), "=")
				count[k]++
				if k == "-tags" && v != "verifx" || k == "-overlay" && v != "conf/overlay.json" || k == "-toolexec" && (!strings.HasSuffix(v, " toolexec") || strings.HasPrefix(v, "/some/tool")) {
					c.Violation("the answer to request %s is from a run of go with the flag %q", r.desc, a)
				}
			}
			if count["-tags"] == 0 || count["-overlay"] == 0 || count["-toolexec"] == 0 || count["-a"] != 0 {
				c.Violation("the answer to request %s is from a run of go with arguments %q", r.desc, args)
			}
			have := envMap(strs(rec.Env))
			for k, v := range r.env {
				if h, ok := have[k]; !ok || h != v {
					c.Violation("the answer to request %s is from a run of go with %s=%q (%v), expected %q", r.desc, k, h, ok, v)
				}
				delete(have, k)
			}
			if u := have["ORCHESTRION_JOBSERVER_URL"]; u != srv.ClientURL() {
				c.Violation("go is run with the job server %q", u)
			}
			for k := range have {
				if !slices.Contains(irrelevant, k) && k != "GO111MODULE" && k != "GOPATH" && k != "DISPLAY" {
					c.Violation("the answer to request %s is from a run of go with %s=%q", r.desc, k, have[k])
				}
			}
			if prev, found := shared[r.key]; found && prev != n {
				c.Violation("request %s does not share the answer with an equivalent one: runs %s and %s", r.desc, prev, n)
			}
			shared[r.key] = n
		}
		if len(byN) != len(shared) && failing == 0 {
			c.Violation("go was run %d times for %d distinct requests", len(byN), len(shared))
		}
		if len(shared) > 1 && len(reqs)-failing > len(shared) {
			c.Nontrivial(fmt.Sprint(descs))
		}
	})
}

// TestC23_Failures is about what is reported when packages can not be built.
func TestC23_Failures(t *testing.T) {
	root, err := os.MkdirTemp("", "failures")
	vh.Must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	vh.Must(err)
	w := newWorld(root)

	vh.Run(t, vh.Opts{
		Rule:  "listings of layered graphs of up to 45 packages, vendored ones included, some of which have errors so that these and the ones that depend on them have no archive; non-trivial: some package is broken",
		Quick: 150, Thorough: 4000,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		dir, err := os.MkdirTemp(root, "case")
		vh.Must(err)
		defer os.RemoveAll(dir)
		pl := plan{Record: filepath.Join(dir, "record"), Canned: map[string]string{}}

		const pattern = "example.com/p"
		depth, width := 1+g.n(15), 1+g.n(3)
		type pkg struct {
			path    string // as it is known by
			imports []int
			as      map[string]string
			err     string
			export  bool
		}
		pkgList := []*pkg{{path: pattern, export: true}}
		prev := []int{0}
		for l := range depth {
			var layer []int
			for i := range width {
				p := &pkg{path: fmt.Sprintf("example.com/l%d/p%d", l, i), export: true}
				if g.pct(10) {
					p.path = "vendor/" + p.path
				}
				layer = append(layer, len(pkgList))
				pkgList = append(pkgList, p)
			}
			for _, p := range prev {
				for _, i := range layer {
					if len(pkgList[p].imports) == 0 || g.pct(85) {
						pkgList[p].imports = append(pkgList[p].imports, i)
					}
				}
			}
			prev = layer
		}
		if g.pct(60) {
			for range 1 + g.n(3) {
				i := g.n(len(pkgList))
				if g.pct(40) {
					i = len(pkgList) - 1
				}
				pkgList[i].err = fmt.Sprintf("broken-%d-for-a-reason", i)
			}
		}
		// Only what can be reached is listed.
		reach := map[int]bool{}
		var visit func(int)
		visit = func(i int) {
			if reach[i] {
				return
			}
			reach[i] = true
			for _, j := range pkgList[i].imports {
				visit(j)
			}
		}
		visit(0)
		var sb strings.Builder
		broken := map[string]bool{}
		want := pkgs.ResolveResponse{}
		for i := len(pkgList) - 1; i >= 0; i-- {
			p := pkgList[i]
			if !reach[i] {
				continue
			}
			m := map[string]any{"ImportPath": p.path, "Name": "p", "Dir": dir, "GoFiles": []string{"p.go"}, "CompiledGoFiles": []string{"p.go"}, "DepOnly": i > 0}
			var imports []string
			as := map[string]string{}
			p.export = p.err == ""
			for _, j := range p.imports {
				imports = append(imports, pkgList[j].path)
				if short, ok := strings.CutPrefix(pkgList[j].path, "vendor/"); ok {
					as[short] = pkgList[j].path
				}
				p.export = p.export && pkgList[j].export
			}
			m["Imports"], m["ImportMap"] = imports, as
			if p.err != "" {
				broken[p.err] = true
				m["Error"] = map[string]any{"Err": p.err, "ImportStack": []string{}}
			}
			if p.export {
				m["Export"] = "/cache/" + p.path + ".a"
				want[p.path] = pkgs.ResolvedArchive{ExportFile: "/cache/" + p.path + ".a"}
			}
			b, err := json.Marshal(m)
			vh.Must(err)
			sb.Write(b)
		}
		pl.Canned[pattern] = sb.String()
		w.set(pl)
		c.Desc(map[string]any{"depth": depth, "width": width, "broken": fmt.Sprint(slices.Sorted(maps.Keys(broken))), "listing": short(sb.String())})
		if len(broken) > 0 {
			c.Nontrivial(sb.String())
		}
		c.Class(fmt.Sprintf("%d broken", len(broken)))

		srv, cl := server()
		defer srv.Shutdown()
		defer cl.Close()
		for range 1 + g.n(2) {
			resp, err := client.Request(context.Background(), cl, pkgs.ResolveRequest{Dir: dir, Pattern: pattern, Env: w.base})
			switch {
			case len(broken) == 0 && err != nil:
				c.Violation("an error is reported: %v", err)
			case len(broken) == 0 && !maps.Equal(want, resp):
				c.Violation("the answer is %v, expected %v", resp, want)
			case len(broken) > 0 && err == nil:
				c.Violation("no error is reported, the answer is %v", resp)
			case len(broken) > 0:
				for b := range broken {
					if !strings.Contains(err.Error(), b) {
						c.Violation("%s is not reported: %s", b, short(err.Error()))
					}
				}
				if len(err.Error()) > 20000 {
					c.Violation("%d bytes are reported for %d broken packages: %s", len(err.Error()), len(broken), short(err.Error()))
				}
			}
		}
	})
}

func short(s string) string {
	if len(s) > 2000 {
		return s[:2000] + "..."
	}
	return s
}
