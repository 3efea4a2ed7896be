package pin_test

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/ensure"
	"github.com/DataDog/orchestrion/internal/version"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"golang.org/x/mod/semver"
)

// TestC28_Guard has the version guard judge modules that require the tool in all kinds of ways.
func TestC28_Guard(t *testing.T) {
	running, _ := version.TagInfo()
	const newer = "v1.13.0" // what example.com/newer requires
	wd, err := os.Getwd()
	vh.Must(err)
	dir, err := os.MkdirTemp("", "guard")
	vh.Must(err)
	defer os.RemoveAll(dir)
	defer os.Chdir(wd)
	old := os.Environ()
	defer func() {
		os.Clearenv()
		for _, e := range old {
			k, v, _ := strings.Cut(e, "=")
			os.Setenv(k, v)
		}
	}()
	for _, e := range proxy(filepath.Join(dir, "proxy"), nil) {
		k, v, _ := strings.Cut(e, "=")
		if k == "GOPROXY" {
			v += ",file:///root/go/pkg/mod/cache/download" // for the dependencies of the tool's own source
		}
		os.Setenv(k, v)
	}

	vh.Run(t, vh.Opts{
		Rule:  "modules requiring the tool directly or through a dependency in older, newer, pre-release or the running version, replaced for all or certain versions by another version, by the source directory of the running tool or by another directory, judged from the root of the module or below; non-trivial: all of them",
		Quick: 200, Thorough: 3000,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		app, err := os.MkdirTemp(dir, "app")
		vh.Must(err)
		defer os.RemoveAll(app)
		vers := append([]string{running, running, running}, toolVersions...)
		other := filepath.Join(app, "other")
		vh.Must(os.MkdirAll(filepath.Join(app, "sub", "dir"), 0o755))
		vh.Must(os.MkdirAll(other, 0o755))
		vh.Must(os.WriteFile(filepath.Join(other, "go.mod"), []byte("module "+toolMod+"\n\ngo 1.21\n"), 0o644))
		vh.Must(os.WriteFile(filepath.Join(other, "main.go"), []byte("package main\n\nfunc main() {}\n"), 0o644))

		var sb strings.Builder
		sb.WriteString("module example.com/app\n\ngo " + g.pick("1.21.0", "1.23.0", "1.25.0") + "\n\n")
		effective := ""
		if !g.pct(8) {
			effective = vers[g.n(len(vers))]
		}
		if g.pct(20) {
			sb.WriteString("require example.com/newer v1.0.0\n\n")
			if semver.Compare(effective, newer) < 0 {
				effective = newer
			}
		}
		if effective != "" {
			sb.WriteString("require " + toolMod + " " + effective + g.pick("", " // indirect") + "\n\n")
		}
		used, usedDir, specific := effective, "", false
		for i := g.n(3); i > 0; i-- {
			from := ""
			if g.pct(50) || i > 1 { // for all versions at most once
				from = vers[g.n(len(vers))]
			}
			line := "replace " + toolMod
			if from != "" {
				line += " " + from
			}
			if strings.Contains(sb.String(), line+" =>") {
				continue // the same again
			}
			var to, toDir string
			switch g.n(4) {
			case 0:
				toDir = repo
			case 1:
				toDir = other
			default:
				to = vers[g.n(len(vers))]
			}
			target := toDir
			if toDir == "" {
				target = toolMod + " " + to
			} else if toDir == other && g.pct(50) {
				target = "./other"
			}
			sb.WriteString(line + " => " + target + "\n")
			if effective != "" && (from == effective || from == "" && !specific) {
				used, usedDir, specific = to, toDir, from != ""
			}
		}
		vh.Must(os.WriteFile(filepath.Join(app, "go.mod"), []byte(sb.String()), 0o644))
		vh.Must(os.WriteFile(filepath.Join(app, "main.go"), []byte("package main\n\nfunc main() {}\n"), 0o644))
		c.Desc(sb.String())
		c.Nontrivial(sb.String())
		want := effective != "" && (usedDir == repo || usedDir == "" && used == running)
		c.Class(fmt.Sprintf("accepted %v", want))
		at := app
		if g.pct(30) {
			at = filepath.Join(app, "sub", "dir")
		}
		if effective != "" {
			os.Setenv("GOFLAGS", "-mod=mod")
		} else {
			os.Setenv("GOFLAGS", "") // so that it is not added
		}
		vh.Must(os.Chdir(at))
		err = ensure.RequiredVersion(context.Background())
		vh.Must(os.Chdir(wd))
		if (err == nil) != want {
			c.Violation("the module uses the tool in version %q (directory %q), running is %s of %s, but: %v", used, usedDir, running, repo, err)
		}
		var iv ensure.IncorrectVersionError
		if effective != "" && !want {
			if !errors.As(err, &iv) {
				c.Violation("the module uses the tool in version %q (directory %q), but the guard fails with: %v", used, usedDir, err)
			}
			if iv.RequiredVersion != used {
				c.Violation("the module uses the tool in version %q (directory %q), reported is %q", used, usedDir, iv.RequiredVersion)
			}
		}
		if effective == "" && errors.As(err, &iv) {
			c.Violation("the module does not use the tool, but the guard says: %v", err)
		}
	})
}
