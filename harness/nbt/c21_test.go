package nbt_test

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/nbt"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// patience is how long an answer that is due may take before it counts as never.
const patience = 90 * time.Second

type key struct{ path, id string }

// model of one build.
type build struct {
	token   string
	done    bool
	files   map[nbt.Label][]byte
	err     string
	pending []*waiter
}

type waiter struct {
	returned atomic.Bool
	ch       chan struct{}
	res      *nbt.StartResponse
	err      error
}

func begin(conn *client.Client, k key) *waiter {
	w := &waiter{ch: make(chan struct{})}
	go func() {
		defer close(w.ch)
		ctx, cancel := context.WithTimeout(context.Background(), 2*patience)
		defer cancel()
		w.res, w.err = client.Request(ctx, conn, nbt.StartRequest{ImportPath: k.path, BuildID: k.id})
		w.returned.Store(true)
	}()
	return w
}

func (w *waiter) wait() bool {
	select {
	case <-w.ch:
		return true
	case <-time.After(patience):
		return false
	}
}

func finish(conn *client.Client, req nbt.FinishRequest) error {
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	_, err := client.Request(ctx, conn, req)
	return err
}

// checkResult compares what a waiter got with the outcome of the build.
func checkResult(c *vh.Case, k key, b *build, w *waiter) {
	if b.err != "" {
		if w.err == nil {
			c.Violation("the build of %v failed with %q, but a waiter got %+v", k, b.err, w.res)
		}
		if b.err != "?" && !strings.Contains(w.err.Error(), b.err) {
			c.Violation("the build of %v failed with %q, but a waiter got error %v", k, b.err, w.err)
		}
		return
	}
	if w.err != nil {
		c.Violation("the build of %v succeeded, but a waiter got error %v", k, w.err)
	}
	if w.res.FinishToken != "" {
		c.Violation("a second requester of %v was told to build it", k)
	}
	if len(w.res.Files) != len(b.files) {
		c.Violation("the build of %v produced %d files, but a waiter got %v", k, len(b.files), w.res.Files)
	}
	for label, want := range b.files {
		got, err := os.ReadFile(w.res.Files[label])
		if err != nil || !bytes.Equal(got, want) {
			c.Violation("file %s of %v: a waiter got %d bytes (%v), the builder produced %d other bytes", label, k, len(got), err, len(want))
		}
	}
}

func TestC21_Histories(t *testing.T) {
	srv, err := jobserver.New(context.Background(), &jobserver.Options{NoListener: true})
	vh.Must(err)
	defer srv.Shutdown()
	conns := make([]*client.Client, 4)
	for i := range conns {
		conns[i], err = srv.Connect()
		vh.Must(err)
	}
	dir := t.TempDir()
	serial := 0
	vh.Run(t, vh.Opts{
		Rule:  "histories of (bursts of) start requests and successful, failed, forged, repeated, file-less and unreadable finishes over several packages and build identities from 4 connections, against a model; non-trivial: some build had at least two waiters when it finished",
		Quick: 1250, Thorough: 5000,
	}, func(c *vh.Case) {
		serial++
		// Package paths and identities that are easily confused once joined: one path extends another
		// by what one identity has in front of another.
		sep := rapid.SampledFrom([]string{"", ":", "@", "/", "|", " ", "#", "-", "_", "=", ",", "\n", "\t"}).Draw(c.T, "separator")
		base := fmt.Sprintf("example.com/p%dz", serial)
		paths := []string{base, base + sep + "x", base + sep + "x" + sep + "id", base + "/q", base + " [x.test]"}
		ids := []string{"id", "x" + sep + "id", "a/b", "a/b/c", "id" + sep + "id"}
		switch rapid.IntRange(0, 2).Draw(c.T, "keys") {
		case 0:
			paths, ids = paths[:2], ids[:2]
		case 1:
			paths, ids = paths[:3], ids[:3]
		}
		builds := map[key]*build{}
		var hist []string
		note := func(f string, a ...any) {
			hist = append(hist, fmt.Sprintf(f, a...))
			c.Desc(hist)
		}
		conn := func() *client.Client { return conns[rapid.IntRange(0, 3).Draw(c.T, "connection")] }
		genKey := func() key {
			return key{rapid.SampledFrom(paths).Draw(c.T, "path"), rapid.SampledFrom(ids).Draw(c.T, "id")}
		}
		// settle verifies nobody returned before the outcome is known, and then collects everyone.
		early := func(k key, b *build) {
			for _, w := range b.pending {
				if w.returned.Load() {
					c.Violation("a waiter for %v returned (%+v, %v) before the build was finished", k, w.res, w.err)
				}
			}
		}
		settle := func(k key, b *build) {
			if len(b.pending) > 1 {
				c.Nontrivial(strings.Join(hist, ";"))
			}
			for _, w := range b.pending {
				if !w.wait() {
					c.Violation("a waiter for %v never got an answer after the build was finished", k)
				}
				checkResult(c, k, b, w)
			}
			b.pending = nil
		}
		nfile := 0
		newFile := func() (string, []byte) {
			nfile++
			p := filepath.Join(dir, fmt.Sprintf("out%d", nfile))
			size := rapid.SampledFrom([]int{0, 1, 17, 5000, 200000}).Draw(c.T, "size")
			data := bytes.Repeat([]byte(fmt.Sprintf("%d.%d,", serial, nfile)), size/4+1)[:size]
			vh.Must(os.WriteFile(p, data, 0o644))
			return p, data
		}
		complete := func(k key, b *build, how string) {
			early(k, b)
			req := nbt.FinishRequest{ImportPath: k.path, BuildID: k.id, FinishToken: b.token}
			wantErr := false
			var sources []string
			switch how {
			case "ok":
				b.files = map[nbt.Label][]byte{}
				req.Files = map[nbt.Label]string{}
				labels := []nbt.Label{nbt.LabelArchive}
				if rapid.Bool().Draw(c.T, "asmhdr") {
					labels = append(labels, nbt.LabelAsmhdr)
				}
				for _, l := range labels {
					p, data := newFile()
					req.Files[l], b.files[l] = p, data
					sources = append(sources, p)
				}
			case "failed":
				msg := rapid.SampledFrom([]string{"exit status 2", "boom\nline two: \"quoted\"", " ", "a"}).Draw(c.T, "message")
				req.Error = &msg
				b.err = msg
			case "failed with files":
				msg := "late failure"
				p, _ := newFile()
				req.Error, req.Files = &msg, map[nbt.Label]string{nbt.LabelArchive: p}
				b.err = msg
			case "nothing":
				b.err, wantErr = "?", true
			case "unreadable":
				p, _ := newFile()
				req.Files = map[nbt.Label]string{nbt.LabelArchive: p, nbt.LabelAsmhdr: filepath.Join(dir, "missing")}
				b.err, wantErr = "?", true
			}
			b.done = true
			err := finish(conn(), req)
			if (err != nil) != wantErr {
				c.Violation("finish (%s) of %v by the token holder: error %v, want one: %v", how, k, err, wantErr)
			}
			// The go command reuses and removes the originals.
			for i, s := range sources {
				if i%2 == 0 {
					os.Remove(s)
				} else {
					vh.Must(os.WriteFile(s, []byte("overwritten"), 0o644))
				}
			}
			settle(k, b)
		}
		outcomes := []string{"ok", "ok", "ok", "failed", "failed with files", "nothing", "unreadable"}
		for i := rapid.IntRange(1, 25).Draw(c.T, "steps"); i > 0; i-- {
			k := genKey()
			b := builds[k]
			switch op := rapid.IntRange(0, 9).Draw(c.T, "op"); {
			case op <= 4: // a burst of starts
				n := rapid.IntRange(1, 5).Draw(c.T, "burst")
				note("start x%d %v", n, k)
				var ws []*waiter
				for j := 0; j < n; j++ {
					ws = append(ws, begin(conn(), k))
				}
				if b == nil {
					b = &build{}
					builds[k] = b
					// Exactly one of them is told to build it.
					deadline := time.After(patience)
					for b.token == "" {
						for j, w := range ws {
							if w.returned.Load() {
								<-w.ch
								if w.err != nil || w.res == nil || w.res.FinishToken == "" {
									c.Violation("nobody is building %v, but a requester got (%+v, %v)", k, w.res, w.err)
								}
								b.token = w.res.FinishToken
								ws = append(ws[:j:j], ws[j+1:]...)
								break
							}
						}
						if b.token == "" {
							select {
							case <-deadline:
								c.Violation("no requester of %v was told to build it", k)
							case <-time.After(50 * time.Microsecond):
							}
						}
					}
				}
				b.pending = append(b.pending, ws...)
				if b.done {
					settle(k, b)
				}
			case op <= 6: // finish by the holder
				if b == nil || b.done {
					continue
				}
				how := rapid.SampledFrom(outcomes).Draw(c.T, "outcome")
				note("finish %s %v", how, k)
				complete(k, b, how)
			case op == 7: // forged or foreign token
				token := "forged"
				for k2, b2 := range builds {
					if k2 != k && rapid.Bool().Draw(c.T, "foreign") {
						token = b2.token
						break
					}
				}
				if rapid.IntRange(0, 4).Draw(c.T, "empty") == 0 {
					token = ""
				}
				note("finish with a wrong token %v", k)
				p, _ := newFile()
				if b != nil && token == b.token {
					continue
				}
				if err := finish(conn(), nbt.FinishRequest{ImportPath: k.path, BuildID: k.id, FinishToken: token, Files: map[nbt.Label]string{nbt.LabelArchive: p}}); err == nil {
					c.Violation("a finish of %v with a token that is not its own was accepted", k)
				}
				if b != nil && !b.done {
					early(k, b)
				}
			case op == 8: // repeated finish with something else
				if b == nil || !b.done {
					continue
				}
				note("finish again %v", k)
				p, _ := newFile()
				req := nbt.FinishRequest{ImportPath: k.path, BuildID: k.id, FinishToken: b.token, Files: map[nbt.Label]string{nbt.LabelArchive: p}}
				if rapid.Bool().Draw(c.T, "as failure") {
					msg := "second thoughts"
					req.Error = &msg
				}
				_ = finish(conn(), req)
				b.pending = append(b.pending, begin(conn(), k))
				settle(k, b)
			case op == 9: // malformed
				note("malformed")
				w := begin(conn(), key{"", "x"})
				if !w.wait() || w.err == nil {
					c.Violation("a start without import path was accepted: %+v", w.res)
				}
				w = begin(conn(), key{k.path, ""})
				if !w.wait() || w.err == nil {
					c.Violation("a start without build identity was accepted: %+v", w.res)
				}
			}
		}
		// Everything in progress ends, so no waiter leaks into the next case.
		note("drain")
		for k, b := range builds {
			if !b.done {
				complete(k, b, "ok")
			}
		}
	})
}

// Finishes race with starts and with each other.
func TestC21_Races(t *testing.T) {
	srv, err := jobserver.New(context.Background(), &jobserver.Options{NoListener: true})
	vh.Must(err)
	defer srv.Shutdown()
	conns := make([]*client.Client, 8)
	for i := range conns {
		conns[i], err = srv.Connect()
		vh.Must(err)
	}
	dir := t.TempDir()
	serial := 0
	vh.Run(t, vh.Opts{
		Rule:  "2..16 simulated compile processes per package all request, build when told to and finish (possibly twice, with different contents) with generated delays; one builder each, everybody sees the first finish; non-trivial: at least 4 processes",
		Quick: 750, Thorough: 3000,
	}, func(c *vh.Case) {
		serial++
		npkgs := rapid.IntRange(1, 3).Draw(c.T, "packages")
		procs := rapid.IntRange(2, 16).Draw(c.T, "processes")
		delays := rapid.SliceOfN(rapid.IntRange(0, 20), procs, procs).Draw(c.T, "delays")
		build := rapid.IntRange(0, 20).Draw(c.T, "build time")
		double := rapid.Bool().Draw(c.T, "double finish")
		fails := rapid.IntRange(0, 3).Draw(c.T, "fails") == 0
		c.Desc(fmt.Sprintf("%d packages, %d processes, delays %v, build %d, double %v, fails %v", npkgs, procs, delays, build, double, fails))
		type outcome struct {
			builder bool
			content string
			err     error
		}
		results := make([][]outcome, npkgs)
		var wg sync.WaitGroup
		for p := 0; p < npkgs; p++ {
			results[p] = make([]outcome, procs)
			for i := 0; i < procs; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(delays[i]) * 50 * time.Microsecond)
					conn := conns[(i+p)%len(conns)]
					o := &results[p][i]
					k := key{fmt.Sprintf("race.example/%d/%d", serial, p), "id"}
					w := begin(conn, k)
					if !w.wait() {
						o.err = fmt.Errorf("no answer")
						return
					}
					if w.err != nil {
						o.err = w.err
						return
					}
					if w.res.FinishToken == "" {
						data, err := os.ReadFile(w.res.Files[nbt.LabelArchive])
						o.content, o.err = string(data), err
						return
					}
					o.builder = true
					time.Sleep(time.Duration(build) * 50 * time.Microsecond)
					o.content = strings.Repeat(fmt.Sprintf("%d.%d.%d ", serial, p, i), 3000)
					file := filepath.Join(dir, fmt.Sprintf("r%d.%d", p, i))
					o.err = os.WriteFile(file, []byte(o.content), 0o644)
					req := nbt.FinishRequest{ImportPath: k.path, BuildID: k.id, FinishToken: w.res.FinishToken, Files: map[nbt.Label]string{nbt.LabelArchive: file}}
					if fails {
						msg := "it broke"
						req.Files, req.Error = nil, &msg
					}
					var fin sync.WaitGroup
					if double {
						fin.Add(1)
						go func() { defer fin.Done(); _ = finish(conn, req) }()
					}
					if err := finish(conn, req); err != nil {
						o.err = err
					}
					fin.Wait()
				}()
			}
		}
		wg.Wait()
		for p := range results {
			builders := 0
			content := ""
			for _, o := range results[p] {
				if o.builder {
					builders++
					content = o.content
					if o.err != nil {
						c.Violation("the builder of package %d could not finish: %v", p, o.err)
					}
				}
			}
			if builders != 1 {
				c.Violation("package %d was built by %d processes", p, builders)
			}
			for i, o := range results[p] {
				switch {
				case o.builder:
				case fails && (o.err == nil || !strings.Contains(o.err.Error(), "it broke")):
					c.Violation("package %d failed to build, but process %d got error %v", p, i, o.err)
				case !fails && (o.err != nil || o.content != content):
					c.Violation("process %d got %d bytes (%v) of package %d, its builder produced %d", i, len(o.content), o.err, p, len(content))
				}
			}
		}
		if procs >= 4 {
			c.Nontrivial(fmt.Sprint(npkgs, procs, delays, build, double, fails))
		}
	})
}
