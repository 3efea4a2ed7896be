// Command gotool stands in for go when packages are listed: it records how it was run, and prints what the
// plan next to it says or runs the real go without the tool hook. It is run through a symbolic link; the
// plan of <dir>/go is <dir>/go.plan.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

type Plan struct {
	Record string            // where to add the record (JSON, one per line)
	Real   string            // the real go
	Canned map[string]string // what to print per pattern ("test:" in front when tests are asked for), in which @N@ stands for the number of the record
	Fail   map[string]string // error message per pattern
	Wait   int               // milliseconds
}

type Record struct {
	N    string
	Args [][]byte
	Env  [][]byte
	Dir  string
}

func bs(l []string) (r [][]byte) {
	for _, s := range l {
		r = append(r, []byte(s))
	}
	return r
}

func main() {
	self := os.Args[0]
	if !strings.Contains(self, "/") {
		p, err := exec.LookPath(self)
		if err != nil {
			panic(err)
		}
		self = p
	}
	text, err := os.ReadFile(self + ".plan")
	if err != nil {
		panic(err)
	}
	var p Plan
	if err := json.Unmarshal(text, &p); err != nil {
		panic(err)
	}
	list := false
	args := []string{p.Real}
	for _, a := range os.Args[1:] {
		if strings.HasPrefix(a, "-json") {
			list = len(os.Args) > 1 && os.Args[1] == "list"
		}
		if !strings.HasPrefix(a, "-toolexec=") {
			args = append(args, a)
		}
	}
	if list {
		r := Record{N: fmt.Sprintf("%d-%d", os.Getpid(), time.Now().UnixNano()), Args: bs(os.Args), Env: bs(os.Environ())}
		r.Dir, _ = os.Readlink("/proc/self/cwd")
		line, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		f, err := os.OpenFile(p.Record, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			panic(err)
		}
		f.Write(append(line, '\n'))
		f.Close()
		time.Sleep(time.Duration(p.Wait) * time.Millisecond)
		pattern := os.Args[len(os.Args)-1]
		for _, a := range os.Args {
			if a == "-test=true" {
				pattern = "test:" + pattern
			}
		}
		if msg, found := p.Fail[pattern]; found {
			fmt.Fprintln(os.Stderr, msg)
			os.Exit(1)
		}
		if text, found := p.Canned[pattern]; found {
			fmt.Print(strings.ReplaceAll(text, "@N@", r.N))
			return
		}
	}
	if err := syscall.Exec(p.Real, args, os.Environ()); err != nil {
		panic(err)
	}
}
