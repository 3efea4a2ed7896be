// Command rectool stands in for go and its tools: it records how it was run, then does what the plan
// next to it says. It is run through symbolic links named like what it stands in for; the plan of
// <dir>/<name> is <dir>/<name>.plan, so that neither arguments nor environment need to be touched.
package main

import (
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

type Plan struct {
	Record string // where to add the record (JSON, one per line)
	Stdin  bool   // whether to read the standard input
	Stdout []byte
	Stderr []byte
	Exit   int
	Signal int
	Wait   bool   // whether to wait for an interrupt
	Output []byte // what to write to the -o argument
}

type Record struct {
	Args  [][]byte
	Env   [][]byte
	Dir   string
	Stdin []byte
}

func bs(l []string) (r [][]byte) {
	for _, s := range l {
		r = append(r, []byte(s))
	}
	return r
}

func main() {
	self := os.Args[0]
	if !strings.Contains(self, "/") {
		p, err := exec.LookPath(self)
		if err != nil {
			panic(err)
		}
		self = p
	}
	text, err := os.ReadFile(self + ".plan")
	if err != nil {
		panic(err)
	}
	var p Plan
	if err := json.Unmarshal(text, &p); err != nil {
		panic(err)
	}

	// What orchestrion asks on its own account.
	if filepath.Base(self) == "go" && len(os.Args) == 3 && os.Args[1] == "env" && os.Args[2] == "GOMOD" {
		dir, _ := os.Getwd()
		for d := dir; ; d = filepath.Dir(d) {
			if _, err := os.Stat(filepath.Join(d, "go.mod")); err == nil {
				os.Stdout.WriteString(filepath.Join(d, "go.mod") + "\n")
				return
			}
			if d == "/" {
				os.Stdout.WriteString("/dev/null\n")
				return
			}
		}
	}

	var r Record
	r.Args, r.Env = bs(os.Args), bs(os.Environ())
	r.Dir, _ = os.Readlink("/proc/self/cwd")
	if p.Stdin {
		r.Stdin, _ = io.ReadAll(os.Stdin)
	}
	line, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	sigs := make(chan os.Signal, 1)
	if p.Wait {
		signal.Notify(sigs, syscall.SIGINT, syscall.SIGTERM)
	}
	f, err := os.OpenFile(p.Record, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	f.Write(append(line, '\n'))
	f.Close()

	if p.Output != nil {
		for i, a := range os.Args {
			if a == "-o" && i+1 < len(os.Args) {
				if err := os.WriteFile(os.Args[i+1], p.Output, 0o644); err != nil {
					panic(err)
				}
			}
		}
	}
	os.Stdout.Write(p.Stdout)
	os.Stderr.Write(p.Stderr)
	if p.Wait {
		select {
		case <-sigs:
			os.WriteFile(p.Record+".signal", nil, 0o644)
		case <-time.After(20 * time.Second):
		}
	}
	if p.Signal != 0 {
		signal.Reset()
		syscall.Kill(os.Getpid(), syscall.Signal(p.Signal))
		select {}
	}
	os.Exit(p.Exit)
}
