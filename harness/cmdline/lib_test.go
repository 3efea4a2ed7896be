package cmdline_test

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

type gen struct{ t *rapid.T }

func (g *gen) n(k int) int {
	return int((rapid.Uint32().Draw(g.t, "n") * 2654435761 >> 8) % uint32(k))
}
func (g *gen) pct(p int) bool          { return g.n(100) < p }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }

// text is a text as it may be found in arguments and the environment: no zero byte, otherwise anything.
func (g *gen) text() string {
	var sb strings.Builder
	for range g.n(6) {
		switch g.n(5) {
		case 0:
			sb.WriteString(g.pick(" ", "\t", "\n", `"`, "'", `\`, "=", "$HOME", "${X}", "%s", "%!d", "*", "~", "`", ";", "&&", "--", "-", "@", ",", "/"))
		case 1:
			sb.WriteString(g.pick("é", "日本", "\x80\xff", "\x01", "\u200b", "🐹"))
		default:
			sb.WriteString(g.pick("a", "b", "go", "build", "test", "1", "x.y", "./...", "C"))
		}
	}
	return sb.String()
}

// bytes is what may be read from or written to a stream.
func (g *gen) bytes() []byte {
	var b []byte
	for range g.n(5) {
		switch g.n(3) {
		case 0:
			b = append(b, byte(g.n(256)), byte(g.n(256)), 0)
		case 1:
			b = append(b, bytes.Repeat([]byte(g.pick("line\n", "x", "\r\n", "é")), 1+g.n(30000))...)
		default:
			b = append(b, g.text()+"\n"...)
		}
	}
	return b
}

// environ is a number of variables that mean nothing to the tool nor to go.
func (g *gen) environ() []string {
	var l []string
	for i := range g.n(6) {
		l = append(l, fmt.Sprintf("%s%d=%s", g.pick("MY_VAR", "lower", "DOT.TED", "WITH SPACE", "DD_SERVICE", "TOOLEXEC_OTHER", "ORCHESTRION_OTHER", "CGO_X", "GO_X"), i, g.text()))
	}
	return l
}

type plan struct {
	Record string
	Stdin  bool
	Stdout []byte
	Stderr []byte
	Exit   int
	Signal int
	Wait   bool // until interrupted
	Output []byte
}

func (g *gen) plan(dir string) plan {
	p := plan{Record: filepath.Join(dir, "record"), Stdin: true, Stdout: g.bytes(), Stderr: g.bytes()}
	switch {
	case g.pct(35):
		p.Exit = 1 + g.n(255)
	case g.pct(8):
		p.Signal = []int{9, 15, 6, 11}[g.n(4)]
	}
	return p
}

type record struct {
	Args  [][]byte
	Env   [][]byte
	Dir   string
	Stdin []byte
}

func (r record) args() []string { return strs(r.Args) }

func (r record) environ() map[string]string {
	return envMap(strs(r.Env))
}

func envMap(l []string) map[string]string {
	m := map[string]string{}
	for _, e := range l {
		k, v, _ := strings.Cut(e, "=")
		m[k] = v
	}
	return m
}

func strs(l [][]byte) (r []string) {
	for _, b := range l {
		r = append(r, string(b))
	}
	return r
}

// standIn puts a stand-in for a tool at path.
func standIn(path string, p plan) {
	vh.Must(os.MkdirAll(filepath.Dir(path), 0o755))
	vh.Must(os.Symlink(os.Getenv("VERIF_HELPER"), path))
	text, err := json.Marshal(p)
	vh.Must(err)
	vh.Must(os.WriteFile(path+".plan", text, 0o644))
}

func records(p plan) (rs []record) {
	text, err := os.ReadFile(p.Record)
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	vh.Must(err)
	dec := json.NewDecoder(bytes.NewReader(text))
	for dec.More() {
		var r record
		vh.Must(dec.Decode(&r))
		rs = append(rs, r)
	}
	return rs
}

// result is how a command ended.
type result struct {
	Exit   int // -1 if it did not end by itself
	Stdout []byte
	Stderr []byte
	Stuck  bool // killed after a minute
}

func run(bin string, args []string, dir string, env []string, stdin []byte) result {
	return interrupt(bin, args, dir, env, stdin, plan{}, 0)
}

// interrupt runs a command, which gets a signal once what it runs says that it is waiting for that.
func interrupt(bin string, args []string, dir string, env []string, stdin []byte, p plan, sig syscall.Signal) result {
	cmd := exec.Command(bin, args...)
	cmd.Dir, cmd.Env = dir, env
	var out, errs bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(stdin), &out, &errs
	cmd.WaitDelay = 5 * time.Second
	vh.Must(cmd.Start())
	var stuck atomic.Bool
	done := make(chan struct{})
	if sig != 0 {
		go func() {
			for {
				if text, err := os.ReadFile(p.Record); err == nil && bytes.HasSuffix(text, []byte("\n")) {
					_ = cmd.Process.Signal(sig)
					return
				}
				select {
				case <-done:
					return
				case <-time.After(5 * time.Millisecond):
				}
			}
		}()
	}
	go func() {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			stuck.Store(true)
			_ = cmd.Process.Kill()
		}
	}()
	err := cmd.Wait()
	close(done)
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) && !errors.Is(err, exec.ErrWaitDelay) {
		vh.Must(err)
	}
	return result{cmd.ProcessState.ExitCode(), out.Bytes(), errs.Bytes(), stuck.Load()}
}

// baseEnv is the environment of the check without anything that concerns the tool.
func baseEnv(goDir string) (env []string) {
	for _, e := range os.Environ() {
		k, v, _ := strings.Cut(e, "=")
		switch {
		case strings.HasPrefix(k, "VERIF_"), strings.HasPrefix(k, "ORCHESTRION"), strings.HasPrefix(k, "DD_"), k == "PWD":
		case k == "PATH" && goDir != "":
			env = append(env, "PATH="+goDir+":"+v)
		default:
			env = append(env, e)
		}
	}
	return env
}

func short(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// ended compares how the tool ended with how what it ran did; the tool may add messages of its own
// to the standard error.
func ended(p plan, r result) string {
	switch {
	case !bytes.Equal(r.Stdout, p.Stdout):
		return fmt.Sprintf("the output is %s, expected %s", short(r.Stdout), short(p.Stdout))
	case !bytes.HasPrefix(r.Stderr, p.Stderr):
		return fmt.Sprintf("the error output is %s, expected %s", short(r.Stderr), short(p.Stderr))
	case p.Signal != 0 && r.Exit == 0:
		return fmt.Sprintf("the exit status is 0 after the command was killed by signal %d", p.Signal)
	case p.Signal == 0 && r.Exit != p.Exit:
		return fmt.Sprintf("the exit status is %d, expected %d; error output %s", r.Exit, p.Exit, short(r.Stderr))
	}
	return ""
}
