// Package weaver_test runs the compile-time weaver on compile commands, in process.
package weaver_test

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/toolexec/aspect"
	"github.com/DataDog/orchestrion/internal/toolexec/proxy"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"github.com/rs/zerolog"
)

var startOnce sync.Once
var serial int

// server starts a job server that everything in this process talks to.
func server() {
	startOnce.Do(func() {
		zerolog.SetGlobalLevel(zerolog.Disabled)
		srv, err := jobserver.New(context.Background(), &jobserver.Options{})
		vh.Must(err)
		vh.Must(os.Setenv(client.EnvVarJobserverURL, srv.ClientURL()))
		vh.Must(os.Setenv("GOFLAGS", "-mod=mod"))
		vh.Must(os.Setenv("GOPROXY", "off"))
	})
}

// module writes a module with a configuration, and makes it the current directory.
func module(dir string, aspects string) {
	write(dir, map[string]string{
		"go.mod":              "module example.com/conf\n\ngo 1.24\n",
		"orchestrion.tool.go": "//go:build tools\n\npackage tools\n",
		"orchestrion.yml":     "meta:\n  name: x\n  description: y\naspects:\n" + aspects,
	})
	vh.Must(os.Chdir(dir))
}

func write(dir string, files map[string]string) {
	for name, text := range files {
		path := filepath.Join(dir, name)
		vh.Must(os.MkdirAll(filepath.Dir(path), 0o755))
		vh.Must(os.WriteFile(path, []byte(text), 0o644))
	}
}

// compiled is what became of a compile command.
type compiled struct {
	Err   error
	Args  []string // the arguments after weaving
	Orig  []string // and before
	Files []string // the Go files after weaving
}

// compile weaves the files of a package as go build would have it, up to the execution of the compiler.
func compile(work, stage, importPath, pkgFlag string, files []string) compiled {
	server()
	serial++
	dir := filepath.Join(work, stage)
	vh.Must(os.MkdirAll(dir, 0o755))
	vh.Must(os.WriteFile(filepath.Join(dir, "importcfg"), []byte("# import config\n"), 0o644))
	args := append([]string{"/go/tool/compile", "-o", filepath.Join(dir, "_pkg_.a"), "-trimpath", dir + "=>", "-p", pkgFlag, "-lang=go1.24", "-complete",
		"-buildid", fmt.Sprintf("id%d/id%d", serial, serial), "-goversion", "go1.26.10", "-c=4", "-nolocalimports", "-importcfg", filepath.Join(dir, "importcfg"), "-pack"}, files...)
	ctx := context.Background()
	cmd, err := proxy.ParseCommand(ctx, importPath, append([]string(nil), args...))
	vh.Must(err)
	if cmd == nil {
		vh.Infra("the command was skipped")
	}
	w := aspect.Weaver{ImportPath: importPath}
	err = proxy.ProcessCommand(ctx, cmd, w.OnCompile)
	if err == nil {
		err = proxy.ProcessCommand(ctx, cmd, w.OnCompileMain)
	}
	res := compiled{Err: err, Args: cmd.Args(), Orig: args}
	for _, a := range res.Args {
		if strings.HasSuffix(a, ".go") {
			res.Files = append(res.Files, a)
		}
	}
	_ = cmd.Close(ctx, fmt.Errorf("not executed"))
	return res
}

func read(path string) string {
	data, err := os.ReadFile(path)
	vh.Must(err)
	return string(data)
}
