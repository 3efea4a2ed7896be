package server_test

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/DataDog/orchestrion/internal/binpath"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/nbt"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// clientChild is a process that needs a job server; it says what it is connected to, and uses the connection
// once told to.
func clientChild() {
	binpath.Orchestrion = os.Getenv("VERIF_ORCHESTRION")
	ctx := context.Background()
	conn, err := client.FromEnvironment(ctx, os.Getenv("VERIF_WORK"))
	if err != nil {
		fmt.Printf("error: %v\n", err)
		os.Exit(1)
	}
	fmt.Println("url", os.Getenv(client.EnvVarJobserverURL))
	if n, _ := os.Stdin.Read(make([]byte, 1)); n == 0 {
		os.Exit(0)
	}
	id := fmt.Sprint(os.Getpid())
	ctx, cancel := context.WithTimeout(ctx, patience)
	defer cancel()
	res, err := client.Request(ctx, conn, nbt.StartRequest{ImportPath: id, BuildID: id})
	if err != nil || res.FinishToken == "" {
		fmt.Printf("error: %+v %v\n", res, err)
		os.Exit(1)
	}
	fmt.Println("fine")
	os.Exit(0)
}

// goChild stands in for the go command that runs a client.
func goChild() {
	runtime.LockOSThread() // the death of the thread counts
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=client")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL} // but not the server
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	if cmd.Run() != nil {
		os.Exit(1)
	}
	os.Exit(0)
}

// serving lists the processes that serve a beacon.
func serving(beacon string) (pids []string) {
	files, _ := filepath.Glob("/proc/[0-9]*/cmdline")
	for _, f := range files {
		if text, err := os.ReadFile(f); err == nil && strings.Contains(string(text), "\x00-url-file="+beacon+"\x00") && strings.Contains(string(text), "\x00server\x00") {
			pids = append(pids, strings.Split(f, "/")[2])
		}
	}
	return pids
}

type member struct {
	Delay int  // milliseconds
	Kill  int  `json:",omitempty"` // milliseconds after which it is killed
	Stays bool `json:",omitempty"` // until all have connected
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	url   string
	err   error
}

func (m *member) line() (string, error) {
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		s, err := m.out.ReadString('\n')
		ch <- res{strings.TrimSpace(s), err}
	}()
	select {
	case r := <-ch:
		return r.s, r.err
	case <-time.After(2 * patience):
		return "", fmt.Errorf("no answer")
	}
}

// group is a number of processes of the same build.
type group struct {
	Members []*member
	Blank   bool // the beacon is there already
	dir     string
}

func (w *group) run() error {
	tmp := filepath.Join(w.dir, "tmp")
	work := filepath.Join(w.dir, "work")
	vh.Must(os.MkdirAll(tmp, 0o755))
	vh.Must(os.MkdirAll(work, 0o755))
	beacon := filepath.Join(work, ".orchestrion-jobserver")
	if w.Blank {
		vh.Must(os.WriteFile(beacon, nil, 0o644))
	}
	defer func() {
		_ = os.RemoveAll(work)
		for end := time.Now().Add(patience); len(serving(beacon)) > 0; time.Sleep(10 * time.Millisecond) {
			if time.Now().After(end) {
				for _, pid := range serving(beacon) {
					_ = exec.Command("kill", "-9", pid).Run()
				}
			}
		}
		_ = os.RemoveAll(w.dir)
	}()
	bin := filepath.Join(w.dir, "bin")
	vh.Must(os.MkdirAll(bin, 0o755))
	vh.Must(os.Symlink(self, filepath.Join(bin, "go")))
	var wg sync.WaitGroup
	for _, m := range w.Members {
		m.cmd = exec.Command(filepath.Join(bin, "go"), "build", ".")
		m.cmd.Env = append(os.Environ(), "VERIF_CHILD=go", "VERIF_GO="+realGo, "VERIF_WORK="+work, "TMPDIR="+tmp, "ORCHESTRION_JOBSERVER_URL=", "PATH="+bin+":"+os.Getenv("PATH"), "GOROOT=")
		m.cmd.Dir = w.dir
		var err error
		m.in, err = m.cmd.StdinPipe()
		vh.Must(err)
		out, err := m.cmd.StdoutPipe()
		vh.Must(err)
		m.out = bufio.NewReader(out)
		wg.Go(func() {
			time.Sleep(time.Duration(m.Delay) * time.Millisecond)
			vh.Must(m.cmd.Start())
			if m.Kill > 0 {
				time.Sleep(time.Duration(m.Kill) * time.Millisecond)
				_ = m.cmd.Process.Kill()
				_ = m.cmd.Wait()
				return
			}
			s, err := m.line()
			url, ok := strings.CutPrefix(s, "url ")
			if err != nil || !ok {
				m.err = fmt.Errorf("a process gets no connection: %s (%v)", s, err)
				_ = m.cmd.Process.Kill()
				_ = m.cmd.Wait()
				return
			}
			m.url = url
			if !m.Stays {
				m.in.Close()
				if err := m.cmd.Wait(); err != nil {
					m.err = fmt.Errorf("a process fails: %w", err)
				}
			}
		})
	}
	wg.Wait()
	url := ""
	for _, m := range w.Members {
		if m.err != nil {
			return m.err
		}
		if m.url != "" && url != "" && m.url != url {
			return fmt.Errorf("processes of the same build are connected to %s and %s", url, m.url)
		}
		if m.url != "" {
			url = m.url
		}
	}
	for end := time.Now().Add(patience); url != ""; time.Sleep(10 * time.Millisecond) {
		n := len(serving(beacon))
		if n == 1 {
			break
		}
		if n == 0 || time.Now().After(end) {
			return fmt.Errorf("there are %d job servers for the build", n)
		}
	}
	for _, m := range w.Members {
		if !m.Stays || m.url == "" {
			continue
		}
		_, err := m.in.Write([]byte("x"))
		vh.Must(err)
		if s, err := m.line(); err != nil || s != "fine" {
			return fmt.Errorf("a process can not use its connection: %s (%v)", s, err)
		}
		if err := m.cmd.Wait(); err != nil {
			return fmt.Errorf("a process fails: %w", err)
		}
	}
	if url != "" && len(serving(beacon)) != 1 {
		return fmt.Errorf("the job server ended with its clients")
	}
	if err := os.RemoveAll(work); err != nil {
		return nil // the server may write there
	}
	for end := time.Now().Add(patience); len(serving(beacon)) > 0; time.Sleep(10 * time.Millisecond) {
		if time.Now().After(end) {
			return fmt.Errorf("the job server is still there %v after the working directory was removed", patience)
		}
	}
	left, err := os.ReadDir(tmp)
	vh.Must(err)
	if len(left) > 0 {
		return fmt.Errorf("the job server ended, but %v remains in the temporary directory", left)
	}
	return nil
}

var realGo string

func TestC30_Clients(t *testing.T) {
	var err error
	realGo, err = exec.LookPath("go")
	vh.Must(err)
	root := t.TempDir()
	vh.Run(t, vh.Opts{
		Rule:  "four concurrent builds each of processes that need a job server at nearly the same time, some of which end (or are killed) early; non-trivial: all with at least two processes that ask",
		Quick: 40, Thorough: 400,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		var ws []*group
		for range 4 {
			w := &group{Blank: g.pct(20)}
			spread := 1 + g.n(150)
			for range 1 + g.n(5) {
				m := &member{Delay: g.n(spread), Stays: g.pct(70)}
				if g.pct(15) {
					m.Kill = 1 + g.n(200)
				}
				w.Members = append(w.Members, m)
			}
			ws = append(ws, w)
		}
		c.Desc(ws)
		errs := make([]error, len(ws))
		var wg sync.WaitGroup
		for i, w := range ws {
			var err error
			w.dir, err = os.MkdirTemp(root, "group")
			vh.Must(err)
			wg.Go(func() { errs[i] = w.run() })
		}
		wg.Wait()
		for i, w := range ws {
			if errs[i] != nil {
				c.Violation("build %d: %v", i, errs[i])
			}
			if len(w.Members) > 1 {
				c.Nontrivial(fmt.Sprint(i, len(w.Members), w.Members[0].Delay, w.Members[1].Delay))
			}
		}
	})
}
