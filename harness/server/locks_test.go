package server_test

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/DataDog/orchestrion/internal/filelock"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// step is what is done with a lock: "R" and "W" lock it, "U" unlocks it, after some time.
type step struct {
	Op    string
	After int // microseconds
}

// lockChild runs the programs for some locks of the same file.
func lockChild() {
	var progs [][]step
	vh.Must(json.Unmarshal([]byte(os.Getenv("VERIF_PROGRAMS")), &progs))
	dir := os.Getenv("VERIF_WORK")
	log, err := os.OpenFile(filepath.Join(dir, "log"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o644)
	vh.Must(err)
	ctx := context.Background()
	var wg sync.WaitGroup
	for i, prog := range progs {
		wg.Go(func() {
			mu := filelock.MutexAt(filepath.Join(dir, "file"))
			say := func(format string, args ...any) {
				_, err := fmt.Fprintf(log, "%d.%d %s\n", os.Getpid(), i, fmt.Sprintf(format, args...))
				vh.Must(err)
			}
			fail := func(op string, err error) {
				if err != nil {
					say("error %s: %v", op, err)
					os.Exit(1)
				}
			}
			read := func() int {
				_, err := mu.Seek(0, io.SeekStart)
				fail("seek", err)
				text, err := io.ReadAll(mu)
				fail("read", err)
				n, _ := strconv.Atoi(strings.TrimSpace(string(text)))
				return n
			}
			held, seen := "", 0
			for _, s := range prog {
				time.Sleep(time.Duration(s.After) * time.Microsecond)
				if held == "R" || held == "W" {
					if n := read(); n != seen {
						say("error: the contents changed from %d to %d while the file was locked (%s)", seen, n, held)
						os.Exit(1)
					}
					if held == "W" {
						_, err := mu.Seek(0, io.SeekStart)
						fail("seek", err)
						_, err = fmt.Fprintf(mu, "%d\n", seen+1)
						fail("write", err)
						seen++
					}
				}
				if held != s.Op && held != "" {
					say("-%s", held)
				}
				switch s.Op {
				case "R":
					fail("read lock", mu.RLock(ctx))
				case "W":
					fail("write lock", mu.Lock(ctx))
				case "U":
					fail("unlock", mu.Unlock(ctx))
				}
				if s.Op == "U" {
					held = ""
					continue
				}
				if held != s.Op {
					held = s.Op
					say("+%s", held)
					seen = read()
				}
			}
			if held != "" {
				say("-%s", held)
			}
			fail("unlock", mu.Unlock(ctx))
		})
	}
	wg.Wait()
	os.Exit(0)
}

func TestC30_Locks(t *testing.T) {
	root := t.TempDir()
	vh.Run(t, vh.Opts{
		Rule:  "two to four processes with one to three locks each of the same file, running programs that lock, upgrade, downgrade, and unlock; all count what they write in the file; non-trivial: some write lock was waited for",
		Quick: 60, Thorough: 1500,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		dir, err := os.MkdirTemp(root, "locks")
		vh.Must(err)
		defer os.RemoveAll(dir)
		var all [][][]step
		for range 2 + g.n(3) {
			var progs [][]step
			for range 1 + g.n(3) {
				var prog []step
				held := ""
				for range 3 + g.n(12) {
					s := step{g.pick("R", "W", "U", "U"), g.n(1500)}
					if held == "W" {
					}
					if held = s.Op; held == "U" {
						held = ""
					}
					prog = append(prog, s)
				}
				progs = append(progs, prog)
			}
			all = append(all, progs)
		}
		c.Desc(all)
		var cmds []*exec.Cmd
		for _, progs := range all {
			text, err := json.Marshal(progs)
			vh.Must(err)
			cmd := exec.Command(self)
			cmd.Env = append(os.Environ(), "VERIF_CHILD=locks", "VERIF_WORK="+dir, "VERIF_PROGRAMS="+string(text))
			vh.Must(cmd.Start())
			cmds = append(cmds, cmd)
		}
		stuck := time.AfterFunc(2*patience, func() {
			for _, cmd := range cmds {
				_ = cmd.Process.Kill()
			}
		})
		failed := false
		for _, cmd := range cmds {
			failed = cmd.Wait() != nil || failed
		}
		timely := stuck.Stop()
		text, err := os.ReadFile(filepath.Join(dir, "log"))
		vh.Must(err)
		held := map[string]string{}
		last := ""
		contended := false
		for _, l := range strings.Split(strings.TrimSpace(string(text)), "\n") {
			id, what, _ := strings.Cut(l, " ")
			switch {
			case strings.HasPrefix(what, "error"):
				c.Violation("%s", l)
			case what[0] == '-':
				delete(held, id)
			default:
				for other, how := range held {
					if how == "W" || what == "+W" {
						c.Violation("%s is granted while %s holds %s", l, other, how)
					}
				}
				held[id] = what[1:]
				contended = contended || what == "+W" && last != "" && last != id
				last = id
			}
		}
		if !timely {
			c.Violation("the processes do not finish")
		}
		if failed {
			c.Violation("a process fails")
		}
		if contended {
			c.Nontrivial(string(text))
		}
		if n, err := os.ReadFile(filepath.Join(dir, "file")); err != nil || strings.TrimSpace(string(n)) != fmt.Sprint(count(all)) && count(all) > 0 {
			c.Violation("%d increments were made under the write lock, the file has %q (%v)", count(all), n, err)
		}
	})
}

// count is how often the programs increment the number in the file.
func count(all [][][]step) (n int) {
	for _, progs := range all {
		for _, prog := range progs {
			held := ""
			for _, s := range prog {
				if held == "W" {
					n++
				}
				held = s.Op
			}
		}
	}
	return n
}
