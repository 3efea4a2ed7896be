// Package server_test starts actual job server processes, and clients of them.
package server_test

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"github.com/nats-io/nats.go"
	"pgregory.net/rapid"
)

type gen struct{ t *rapid.T }

func (g *gen) n(k int) int {
	return int((rapid.Uint32().Draw(g.t, "n") * 2654435761 >> 8) % uint32(k))
}
func (g *gen) pct(p int) bool          { return g.n(100) < p }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }

// patience is how long anything may take that should be immediate.
const patience = 25 * time.Second

// self is this executable, which is run for other processes, too.
var self, _ = os.Executable()

func TestMain(m *testing.M) {
	if child := os.Getenv("VERIF_CHILD"); child != "go" && filepath.Base(os.Args[0]) == "go" {
		// Servers use the go command, too.
		vh.Must(syscall.Exec(os.Getenv("VERIF_GO"), os.Args, os.Environ()))
	}
	switch os.Getenv("VERIF_CHILD") {
	case "client":
		clientChild()
	case "go":
		goChild()
	case "locks":
		lockChild()
	default:
		os.Exit(m.Run())
	}
}

// proc is a process of the job server.
type proc struct {
	cmd     *exec.Cmd
	out     bytes.Buffer
	done    chan struct{}
	started time.Time
	ended   time.Time
}

func (p *proc) over() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return p.over()
	}
}

// op is one thing that is done to servers.
type op struct {
	Op     string
	N      int `json:",omitempty"` // number of processes
	Delay  int `json:",omitempty"` // milliseconds between them
	Client int `json:",omitempty"`
}

type scenario struct {
	Timeout int // seconds
	Beacon  string
	Ops     []op
	Final   string
}

func (g *gen) scenario() scenario {
	s := scenario{Timeout: 3 + g.n(2), Beacon: g.pick("", "", "blank"), Final: g.pick("idle", "idle", "remove", "remove", "interrupt", "terminate", "hangup")}
	start := func(what string) op {
		o := op{Op: what, N: 1 + g.n(4)}
		if g.pct(50) {
			o.Delay = g.n(60)
		}
		return o
	}
	s.Ops = append(s.Ops, start("start"))
	slow := false
	for range g.n(5) {
		switch k := g.n(100); {
		case k < 20:
			s.Ops = append(s.Ops, op{Op: "connect"})
		case k < 35:
			s.Ops = append(s.Ops, op{Op: "disconnect", Client: g.n(4)})
		case k < 60:
			s.Ops = append(s.Ops, start("ask"))
		case k < 75:
			if !slow && s.Timeout < 8 {
				s.Ops = append(s.Ops, op{Op: g.pick("hold", "blink")})
			}
			slow = true
		case k < 86:
			s.Ops = append(s.Ops, start("replace"))
		case k < 93:
			if !slow {
				s.Timeout = 8 // so that it is clear why the server ends
				s.Ops = append(s.Ops, op{Op: "early removal"})
			}
		default:
			s.Ops = append(s.Ops, start("replace while paused"))
		}
	}
	return s
}

type world struct {
	scenario
	dir     string
	beacon  string
	procs   []*proc
	server  *proc // the one that is serving
	url     string
	clients []*nats.Conn
	classes map[string]int
	trace   []string
}

func (w *world) log(format string, args ...any) {
	w.trace = append(w.trace, fmt.Sprintf(format, args...))
}

func (w *world) spawn(n, delay int) []*proc {
	var l []*proc
	for i := range n {
		if i > 0 && delay > 0 {
			time.Sleep(time.Duration(delay) * time.Millisecond)
		}
		p := &proc{done: make(chan struct{}), started: time.Now()}
		p.cmd = exec.Command(os.Getenv("VERIF_ORCHESTRION"), "server", fmt.Sprintf("-inactivity-timeout=%ds", w.Timeout), "-url-file="+w.beacon)
		p.cmd.Env = append(os.Environ(), "TMPDIR="+filepath.Join(w.dir, "tmp"))
		p.cmd.Dir = w.dir
		p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
		vh.Must(p.cmd.Start())
		go func() {
			_ = p.cmd.Wait()
			p.ended = time.Now()
			close(p.done)
		}()
		l = append(l, p)
	}
	w.procs = append(w.procs, l...)
	return l
}

func dial(url string) (*nats.Conn, error) {
	return nats.Connect(url, nats.UserInfo(client.Username, client.NoPassword), nats.NoReconnect(), nats.Timeout(patience/2))
}

// connect makes another client connected to the server.
func (w *world) connect() error {
	conn, err := dial(w.url)
	if err != nil {
		return fmt.Errorf("the server can not be reached at %s: %w", w.url, err)
	}
	w.clients = append(w.clients, conn)
	return nil
}

// alive checks that the server serves its clients.
func (w *world) alive() error {
	for _, conn := range w.clients {
		if _, err := conn.RequestMsg(&nats.Msg{Subject: "clients"}, patience); err != nil {
			return fmt.Errorf("a connected client gets no answer: %w", err)
		}
	}
	if w.server.over() {
		return fmt.Errorf("the server ended though %d clients are connected", len(w.clients))
	}
	return nil
}

// settle waits until only one of the new processes (or none, if there is a server) remains, and checks that
// it is what the beacon leads to. A first client gets connected.
func (w *world) settle(l []*proc) error {
	end := time.Now().Add(patience)
	for {
		var left []*proc
		for _, p := range l {
			if !p.over() {
				left = append(left, p)
			}
		}
		url, err := os.ReadFile(w.beacon)
		switch {
		case len(left) == 1 && w.server == nil && err == nil && len(url) > 0:
			w.server, w.url = left[0], string(url)
			late := time.Since(w.server.started) > time.Duration(w.Timeout)*time.Second/2
			if err := w.connect(); err != nil {
				if late {
					return errSlow
				}
				return err
			}
			if late {
				return errSlow
			}
			return w.exits(l)
		case len(left) == 0 && w.server != nil:
			if string(url) != w.url {
				return fmt.Errorf("the beacon has changed from %q to %q (%v)", w.url, url, err)
			}
			return w.exits(l)
		case len(left) == 0 && time.Since(l[0].started) < time.Duration(w.Timeout)*time.Second:
			return fmt.Errorf("none of %d new server processes remains", len(l))
		case len(left) == 0:
			return errSlow // They may have gone due to inactivity.
		}
		if time.Now().After(end) {
			return fmt.Errorf("%d of %d new server processes remain, and the beacon has %q (%v)", len(left), len(l), url, err)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

var errSlow = errors.New("too slow")

// exits checks the exit status of processes that are not needed.
func (w *world) exits(l []*proc) error {
	for _, p := range l {
		if p.over() && p.cmd.ProcessState.ExitCode() != 0 {
			return fmt.Errorf("a server process that was not needed exits with status %d:\n%s", p.cmd.ProcessState.ExitCode(), p.out.String())
		}
	}
	return nil
}

// gone waits for the server to end, and checks what it leaves.
func (w *world) gone(d time.Duration, why string, beacon bool) error {
	if !w.server.wait(d) {
		return fmt.Errorf("the server is still there %v after %s", d, why)
	}
	if beacon {
		if text, err := os.ReadFile(w.beacon); !errors.Is(err, fs.ErrNotExist) {
			return fmt.Errorf("the server ended after %s, but its beacon is still there (%q, %v)", why, text, err)
		}
	}
	if code := w.server.cmd.ProcessState.ExitCode(); code != 0 || strings.Contains(w.server.out.String(), "panic:") {
		return fmt.Errorf("the server ended with status %d after %s:\n%s", code, why, w.server.out.String())
	}
	return nil
}

func (w *world) closeAll() {
	for _, c := range w.clients {
		c.Close()
	}
	w.clients = nil
}

// run returns what is wrong.
func (w *world) run() error {
	T := time.Duration(w.Timeout) * time.Second
	vh.Must(os.MkdirAll(filepath.Join(w.dir, "tmp"), 0o755))
	w.beacon = filepath.Join(w.dir, "beacon")
	if w.Beacon == "blank" {
		vh.Must(os.WriteFile(w.beacon, nil, 0o644))
	}
	for _, o := range w.Ops {
		w.log("%+v", o)
		switch o.Op {
		case "start":
			if err := w.settle(w.spawn(o.N, o.Delay)); err != nil {
				return err
			}
		case "connect":
			if err := w.connect(); err != nil {
				return err
			}
		case "disconnect":
			if len(w.clients) > 1 {
				i := o.Client % len(w.clients)
				w.clients[i].Close()
				w.clients = append(w.clients[:i:i], w.clients[i+1:]...)
			}
		case "ask":
			if err := w.settle(w.spawn(o.N, o.Delay)); err != nil {
				return err
			}
		case "hold":
			time.Sleep(T + T/3)
		case "blink":
			at := time.Now()
			w.closeAll()
			time.Sleep(T / 4)
			if err := w.connect(); time.Since(at) > T/2 {
				return errSlow
			} else if err != nil {
				return err
			}
			time.Sleep(T + T/3)
		case "replace while paused":
			// The server finds out late that its beacon was removed.
			old := w.server
			vh.Must(old.cmd.Process.Signal(syscall.SIGSTOP))
			for range 200 {
				if text, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", old.cmd.Process.Pid)); strings.Contains(string(text), ") T ") {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			vh.Must(os.Remove(w.beacon))
			w.closeAll()
			w.server = nil
			err := w.settle(w.spawn(o.N, o.Delay))
			_ = old.cmd.Process.Signal(syscall.SIGCONT)
			if err != nil {
				return err
			}
			if !old.wait(patience) {
				return fmt.Errorf("the server is still there after its beacon was removed")
			}
			time.Sleep(300 * time.Millisecond)
			if text, err := os.ReadFile(w.beacon); string(text) != w.url {
				return fmt.Errorf("the beacon of the server is gone or changed (%q, %v) once the previous one ended", text, err)
			}
		case "replace":
			// The beacon is removed while others ask for a server.
			vh.Must(os.Remove(w.beacon))
			old := w.server
			l := w.spawn(o.N, o.Delay)
			if err := w.gone(patience, "its beacon was removed", false); err != nil {
				return err
			}
			w.closeAll()
			w.server = nil
			if err := w.settle(l); err != nil {
				if !errors.Is(err, errSlow) {
					err = fmt.Errorf("after the beacon was removed: %w (the previous server ended %v after the first of the new ones started)", err, old.ended.Sub(l[0].started))
				}
				return err
			}
		case "early removal":
			// The beacon is removed, and that of the next server as soon as it is there.
			vh.Must(os.Remove(w.beacon))
			if err := w.gone(patience, "its beacon was removed", true); err != nil {
				return err
			}
			w.closeAll()
			w.server = w.spawn(1, 0)[0]
			for end := time.Now().Add(patience); ; {
				if st, err := os.Stat(w.beacon); err == nil && st.Size() > 0 {
					break
				}
				if time.Now().After(end) {
					return fmt.Errorf("the server does not write its beacon")
				}
				time.Sleep(50 * time.Microsecond)
			}
			at := time.Now()
			vh.Must(os.Remove(w.beacon))
			if w.server.wait(patience); !w.server.over() || w.server.ended.Sub(at) > T-time.Second {
				return fmt.Errorf("the server did not end in %v after its beacon was removed at once", w.server.ended.Sub(at))
			}
			if err := w.gone(0, "its beacon was removed at once", true); err != nil {
				return err
			}
			w.server = nil
			if err := w.settle(w.spawn(1, 0)); err != nil {
				return err
			}
		}
		w.classes[o.Op]++
		if err := w.alive(); err != nil {
			return err
		}
	}
	w.log("%s", w.Final)
	switch w.Final {
	case "idle":
		at := time.Now()
		w.closeAll()
		if err := w.gone(T+patience, "all clients were gone", true); err != nil {
			return err
		}
		if d := w.server.ended.Sub(at); d < T {
			return fmt.Errorf("the server ended %v after its last client was gone, the timeout is %v", d, T)
		}
	case "remove":
		vh.Must(os.Remove(w.beacon))
		if err := w.gone(patience, "its beacon was removed", true); err != nil {
			return err
		}
	case "interrupt", "terminate", "hangup":
		sig := map[string]syscall.Signal{"interrupt": syscall.SIGINT, "terminate": syscall.SIGTERM, "hangup": syscall.SIGHUP}[w.Final]
		vh.Must(w.server.cmd.Process.Signal(sig))
		if err := w.gone(patience, "it was interrupted", true); err != nil {
			return err
		}
	}
	w.classes["then "+w.Final]++
	for _, p := range w.procs {
		if !p.wait(patience) {
			return fmt.Errorf("another server process is still there in the end")
		}
	}
	left, err := os.ReadDir(filepath.Join(w.dir, "tmp"))
	vh.Must(err)
	if len(left) > 0 {
		return fmt.Errorf("all servers ended, but %v remains in the temporary directory", left)
	}
	return nil
}

func (w *world) cleanup() {
	w.closeAll()
	for _, p := range w.procs {
		if !p.over() {
			_ = p.cmd.Process.Kill()
			<-p.done
		}
	}
	_ = os.RemoveAll(w.dir)
}

func TestC30_Servers(t *testing.T) {
	// Processes started without a terminal may ignore hangups, and so would the servers.
	signal.Notify(make(chan os.Signal, 1), syscall.SIGHUP)
	root := t.TempDir()
	vh.Run(t, vh.Opts{
		Rule:  "twenty concurrent histories each of processes that are asked to serve the same beacon at nearly the same time, clients that come and go, and removals of the beacon (at any time, also while others ask); non-trivial: all with at least two processes asking at a time",
		Quick: 3, Thorough: 60,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		var l []scenario
		for range 20 {
			l = append(l, g.scenario())
		}
		c.Desc(l)
		ws := make([]*world, len(l))
		errs := make([]error, len(l))
		var wg sync.WaitGroup
		for i, s := range l {
			dir, err := os.MkdirTemp(root, "case")
			vh.Must(err)
			ws[i] = &world{scenario: s, dir: dir, classes: map[string]int{}}
			wg.Go(func() {
				defer ws[i].cleanup()
				errs[i] = ws[i].run()
			})
		}
		wg.Wait()
		for i, w := range ws {
			for k, n := range w.classes {
				for range n {
					c.Class(k)
				}
			}
			if errors.Is(errs[i], errSlow) {
				c.Class("too slow to tell")
				continue
			}
			if errs[i] != nil {
				c.Violation("after %s (timeout %d s): %v", strings.Join(w.trace, ", "), w.Timeout, errs[i])
			}
			for _, o := range l[i].Ops {
				if o.N > 1 {
					c.Nontrivial(fmt.Sprintf("%+v", l[i]))
				}
			}
		}
	})
}
