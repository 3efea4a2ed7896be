// Package vh is the small runtime shared by all property checks: it drives
// rapid with the run's seed and case counts, counts what was generated,
// records violations for the driver, and keeps known findings apart.
package vh

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type testStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Rule        string         `json:"rule"`
	Samples     []any          `json:"samples"`
	Classes     map[string]int `json:"classes"`
	seen        map[uint64]struct{}
}

type violation struct {
	Test string `json:"test"`
	Msg  string `json:"msg"`
	Case any    `json:"case"`
}

var (
	mu    sync.Mutex
	state = struct {
		Tests      map[string]*testStats `json:"tests"`
		Violations []violation           `json:"violations"`
		KnownHits  []string              `json:"known_hits"`
		Infra      string                `json:"infra,omitempty"`
	}{Tests: map[string]*testStats{}}
)

func flush() {
	path := os.Getenv("VERIF_OUT")
	if path == "" {
		return
	}
	data, err := json.Marshal(state)
	if err != nil {
		// A sample that cannot be marshalled must not hide a verdict.
		for _, st := range state.Tests {
			st.Samples = nil
		}
		for i := range state.Violations {
			state.Violations[i].Case = fmt.Sprintf("%#v", state.Violations[i].Case)
		}
		data, _ = json.Marshal(state)
	}
	_ = os.WriteFile(path, data, 0o644)
}

// Thorough tells whether this is the deep tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed is the run's seed.
func Seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

// Infra aborts the run: the environment, not the code under test, failed.
func Infra(format string, args ...any) {
	mu.Lock()
	state.Infra = fmt.Sprintf(format, args...)
	flush()
	mu.Unlock()
	fmt.Fprintln(os.Stderr, "INFRA: "+state.Infra)
	os.Exit(3)
}

// Must aborts the run when the environment fails.
func Must(err error) {
	if err != nil {
		_, file, line, _ := runtime.Caller(1)
		Infra("%s:%d: %v", file, line, err)
	}
}

// Case is one generated case.
type Case struct {
	*rapid.T
	test *testStats
	name string
	desc any

	manual, counted bool
}

// Desc sets what the case is, for samples and replay files. It may be called
// repeatedly as the case is built.
func (c *Case) Desc(v any) { c.desc = v; current.Store(&v) }

var current atomic.Pointer[any]

// Risky writes down the current case before something that may crash the process.
func Risky() {
	if v, path := current.Load(), os.Getenv("VERIF_OUT"); v != nil && path != "" {
		data, _ := json.Marshal(*v)
		_ = os.WriteFile(path+".current", data, 0o644)
	}
}

// Nontrivial counts this case as non-trivial, identified by key.
func (c *Case) Nontrivial(key any) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v", key)
	mu.Lock()
	defer mu.Unlock()
	if c.counted && !c.manual {
		return
	}
	c.counted = true
	k := h.Sum64()
	if _, ok := c.test.seen[k]; ok {
		return
	}
	c.test.seen[k] = struct{}{}
	c.test.Nontrivial++
	if n := c.test.Nontrivial; c.desc != nil && (n <= 2 || n == 17 || n == 60) {
		c.test.Samples = append(c.test.Samples, snapshot(c.desc))
	}
}

// snapshot detaches the value from later mutations.
func snapshot(v any) any {
	data, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	var out any
	_ = json.Unmarshal(data, &out)
	return out
}

// Class counts cases per class, to see what the generator produces.
func (c *Case) Class(label string) {
	mu.Lock()
	defer mu.Unlock()
	c.test.Classes[label]++
}

// Violation reports that the property does not hold for this case.
func (c *Case) Violation(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	record(c.name, msg, c.desc)
	c.Fatalf("VIOLATED: %s", format) // the same text for every case, or else rapid takes a smaller case for another failure
}

func record(test, msg string, desc any) {
	mu.Lock()
	defer mu.Unlock()
	if desc != nil {
		desc = snapshot(desc)
	}
	state.Violations = []violation{{Test: test, Msg: msg, Case: desc}}
	flush()
}

// Opts tunes a property.
type Opts struct {
	Rule     string // how cases are made and what is non-trivial
	Quick    int    // cases in the quick tier
	Thorough int    // cases per round in the deep tier
}

// Run checks a property over generated cases. In the deep tier it repeats with
// derived seeds until the budget is used up.
func Run(t *testing.T, o Opts, prop func(c *Case)) {
	t.Helper()
	st := stats(t.Name(), o.Rule)
	body := func(rt *rapid.T) {
		c := &Case{T: rt, test: st, name: t.Name()}
		mu.Lock()
		st.Evaluations++
		mu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				switch fmt.Sprintf("%T", r) {
				case "rapid.stopTest", "rapid.invalidData":
				default:
					stack := string(debug.Stack())
					if i := strings.Index(stack, "panic("); i >= 0 {
						stack = stack[i:]
					}
					if len(stack) > 3000 {
						stack = stack[:3000]
					}
					record(t.Name(), fmt.Sprintf("panic: %v\n%s", r, stack), c.desc)
				}
				panic(r)
			}
		}()
		prop(c)
	}
	defer func() { mu.Lock(); flush(); mu.Unlock() }()

	if os.Getenv("VERIF_REPLAY") != "" {
		rapid.Check(t, body)
		return
	}
	checks, budget := o.Quick, 0.0
	if Thorough() {
		checks = o.Thorough
		budget, _ = strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	}
	set("rapid.checks", strconv.Itoa(checks))
	seed := Seed()
	if seed == 0 {
		seed = 424242
	}
	start := time.Now()
	for round := 0; ; round++ {
		set("rapid.seed", strconv.Itoa(seed+round*1_000_003))
		rapid.Check(t, body)
		if t.Failed() || time.Since(start).Seconds() >= budget {
			return
		}
	}
}

// Manual registers a check that does its own enumeration of cases.
func Manual(t *testing.T, rule string) *Case {
	return &Case{test: stats(t.Name(), rule), name: t.Name(), manual: true}
}

// Eval counts one evaluation of a manual case.
func (c *Case) Eval() { mu.Lock(); c.test.Evaluations++; mu.Unlock() }

// Report reports a violation of a manual case.
func (c *Case) Report(t *testing.T, format string, args ...any) {
	t.Helper()
	msg := fmt.Sprintf(format, args...)
	record(c.name, msg, c.desc)
	t.Fatalf("VIOLATED: %s", msg)
}

// Done writes the counters of a manual case.
func Done() { mu.Lock(); flush(); mu.Unlock() }

func stats(name, rule string) *testStats {
	mu.Lock()
	defer mu.Unlock()
	st := state.Tests[name]
	if st == nil {
		st = &testStats{Rule: rule, Classes: map[string]int{}, seen: map[uint64]struct{}{}, Samples: []any{}}
		state.Tests[name] = st
	}
	return st
}

func set(name, val string) {
	if err := flag.Set(name, val); err != nil {
		Infra("flag %s: %v", name, err)
	}
}

// Known tells whether the finding with this key is listed for the property
// (known-findings.txt), and if so notes that it was met.
func Known(property, key string) bool {
	knownOnce.Do(loadKnown)
	what, ok := known[property+"\x00"+key]
	if !ok {
		return false
	}
	mu.Lock()
	defer mu.Unlock()
	line := property + " [" + key + "] " + what
	for _, k := range state.KnownHits {
		if k == line {
			return true
		}
	}
	state.KnownHits = append(state.KnownHits, line)
	return true
}

var (
	knownOnce sync.Once
	known     map[string]string
)

// loadKnown reads lines "known: property=C01 key=some-key what fails".
func loadKnown() {
	known = map[string]string{}
	f, err := os.Open(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		rest, ok := strings.CutPrefix(sc.Text(), "known: property=")
		if !ok {
			continue
		}
		parts := strings.SplitN(rest, " ", 3)
		if len(parts) != 3 {
			continue
		}
		key, ok := strings.CutPrefix(parts[1], "key=")
		if ok {
			known[parts[0]+"\x00"+key] = parts[2]
		}
	}
}
