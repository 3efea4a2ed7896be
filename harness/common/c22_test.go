package common_test

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/DataDog/orchestrion/internal/jobserver/common"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// ---- cycle graph: sequential histories against a reachability reference ----

type refGraph map[string]map[string]bool

func (g refGraph) reaches(from, to string) bool {
	seen := map[string]bool{}
	stack := []string{from}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if n == to {
			return true
		}
		if seen[n] {
			continue
		}
		seen[n] = true
		for m := range g[n] {
			stack = append(stack, m)
		}
	}
	return false
}

func (g refGraph) add(from, to string) {
	if g[from] == nil {
		g[from] = map[string]bool{}
	}
	g[from][to] = true
}

func nodeName(i int) string { return fmt.Sprintf("example.com/n%d", i) }

func TestC22_GraphHistory(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "random histories of add/remove edge over 2..9 nodes compared step by step with plain reachability; non-trivial: an edge was refused because of an indirect cycle (length>2)",
		Quick: 24000, Thorough: 96000,
	}, func(c *vh.Case) {
		n := rapid.IntRange(2, 9).Draw(c.T, "nodes")
		steps := rapid.IntRange(1, 60).Draw(c.T, "steps")
		removeBias := rapid.IntRange(0, 4).Draw(c.T, "removeBias")
		var g common.Graph
		ref := refGraph{}
		var hist []string
		indirect := false
		for i := 0; i < steps; i++ {
			from := nodeName(rapid.IntRange(0, n-1).Draw(c.T, "from"))
			to := nodeName(rapid.IntRange(0, n-1).Draw(c.T, "to"))
			if rapid.IntRange(0, 9).Draw(c.T, "op") < removeBias {
				hist = append(hist, "remove "+from+" "+to)
				c.Desc(hist)
				g.RemoveEdge(from, to)
				if ref[from] != nil {
					delete(ref[from], to)
				}
				continue
			}
			hist = append(hist, "add "+from+" "+to)
			c.Desc(hist)
			cyclic := ref.reaches(to, from)
			err := g.AddEdge(from, to)
			switch {
			case cyclic && err == nil:
				c.Violation("step %d: edge %s -> %s closes a cycle but was accepted", i, from, to)
			case !cyclic && err != nil:
				c.Violation("step %d: edge %s -> %s closes no cycle but was refused: %v", i, from, to, err)
			}
			if cyclic {
				if from != to && !ref[to][from] {
					indirect = true
				}
			} else {
				ref.add(from, to)
			}
		}
		if indirect {
			c.Nontrivial(strings.Join(hist, ";"))
		}
	})
}

func TestC22_GraphConcurrent(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "edges added from several goroutines at once; accepted edges must be acyclic and every refused edge must close a cycle with them; non-trivial: at least one refusal and one acceptance",
		Quick: 1800, Thorough: 7200,
	}, func(c *vh.Case) {
		n := rapid.IntRange(3, 7).Draw(c.T, "nodes")
		type edge struct{ from, to string }
		edges := rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) edge {
			return edge{nodeName(rapid.IntRange(0, n-1).Draw(rt, "from")), nodeName(rapid.IntRange(0, n-1).Draw(rt, "to"))}
		}), 4, 40).Draw(c.T, "edges")
		workers := rapid.IntRange(2, 6).Draw(c.T, "workers")
		c.Desc(fmt.Sprintf("%d workers, edges %v", workers, edges))
		var g common.Graph
		ok := make([]bool, len(edges))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := w; i < len(edges); i += workers {
					ok[i] = g.AddEdge(edges[i].from, edges[i].to) == nil
				}
			}()
		}
		close(start)
		wg.Wait()
		ref := refGraph{}
		acc := 0
		for i, e := range edges {
			if ok[i] {
				acc++
				ref.add(e.from, e.to)
			}
		}
		for i, e := range edges {
			closes := ref.reaches(e.to, e.from)
			if ok[i] && closes {
				c.Violation("accepted edges contain a cycle through %s -> %s", e.from, e.to)
			}
			if !ok[i] && !closes {
				c.Violation("edge %s -> %s was refused but closes no cycle among all the accepted ones", e.from, e.to)
			}
		}
		if acc > 0 && acc < len(edges) {
			c.Nontrivial(fmt.Sprint(edges, workers))
		}
	})
}

// ---- single flight cache ----

func TestC22_CacheSequential(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "sequences of loads over few keys with failing and succeeding loaders against a map; non-trivial: some key failed, then succeeded, then was hit",
		Quick: 9000, Thorough: 36000,
	}, func(c *vh.Case) {
		var stats common.CacheStats
		cache := common.NewCache[*int](&stats)
		model := map[string]*int{}
		failed := map[string]bool{}
		var hist []string
		interesting := false
		n := rapid.IntRange(1, 30).Draw(c.T, "n")
		var hits, total uint64
		for i := 0; i < n; i++ {
			key := rapid.SampledFrom([]string{"", "a", "b", "a\x00b", "A"}).Draw(c.T, "key")
			outcome := rapid.SampledFrom([]string{"ok", "err", "err+value", "nil"}).Draw(c.T, "outcome")
			hist = append(hist, key+":"+outcome)
			c.Desc(hist)
			calls := 0
			boom := errors.New("boom")
			var loaded *int
			v, err := cache.Load(key, func() (*int, error) {
				calls++
				switch outcome {
				case "err":
					return nil, boom
				case "err+value":
					x := i
					return &x, boom
				case "nil":
					return nil, nil
				}
				x := i
				loaded = &x
				return loaded, nil
			})
			total++
			want, present := model[key]
			if present {
				hits++
				if calls != 0 {
					c.Violation("the loader of %q ran again after a success", key)
				}
				if err != nil || v != want {
					c.Violation("load of %q after a success returned (%v, %v), not the cached value", key, v, err)
				}
				if failed[key] {
					interesting = true
				}
				continue
			}
			if calls != 1 {
				c.Violation("the loader of %q ran %d times, want once", key, calls)
			}
			switch outcome {
			case "err", "err+value":
				if !errors.Is(err, boom) {
					c.Violation("the loader of %q failed but its caller got error %v", key, err)
				}
				failed[key] = true
			default:
				if err != nil || v != loaded {
					c.Violation("the loader of %q succeeded but its caller got (%v, %v)", key, v, err)
				}
				model[key] = loaded
			}
		}
		if stats.Count() != total || stats.Hits() != hits {
			c.Violation("statistics say %d hits of %d, but there were %d of %d", stats.Hits(), stats.Count(), hits, total)
		}
		if interesting {
			c.Nontrivial(strings.Join(hist, ";"))
		}
	})
}

type loadScript struct {
	Key   int
	Pause int // milliseconds*0.1 before loading
	Work  int
	Fail  bool
}

func TestC22_CacheConcurrent(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "2..12 goroutines load 1..3 keys at once with generated delays and failures; loaders of a key never overlap, none runs after a success, every caller gets the value or the error of its own loader; non-trivial: two callers waited for the same successful load",
		Quick: 1500, Thorough: 6000,
	}, func(c *vh.Case) {
		nkeys := rapid.IntRange(1, 3).Draw(c.T, "keys")
		scripts := rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) loadScript {
			return loadScript{
				Key:   rapid.IntRange(0, nkeys-1).Draw(rt, "key"),
				Pause: rapid.IntRange(0, 8).Draw(rt, "pause"),
				Work:  rapid.IntRange(0, 8).Draw(rt, "work"),
				Fail:  rapid.IntRange(0, 2).Draw(rt, "fail") == 0,
			}
		}), 2, 12).Draw(c.T, "scripts")
		c.Desc(scripts)
		var stats common.CacheStats
		cache := common.NewCache[int](&stats)
		type result struct {
			ran int
			v   int
			err error
		}
		results := make([]result, len(scripts))
		inflight := make([]atomic.Int32, nkeys)
		succeeded := make([]atomic.Int32, nkeys)
		var bad atomic.Pointer[string]
		report := func(s string) { bad.CompareAndSwap(nil, &s) }
		boom := make([]error, len(scripts))
		for i := range boom {
			boom[i] = fmt.Errorf("boom %d", i)
		}
		var wg sync.WaitGroup
		for i, s := range scripts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(s.Pause) * 100 * time.Microsecond)
				r := &results[i]
				r.v, r.err = cache.Load(fmt.Sprint("k", s.Key), func() (int, error) {
					r.ran++
					if inflight[s.Key].Add(1) != 1 {
						report(fmt.Sprintf("two loaders of key %d ran at once", s.Key))
					}
					defer inflight[s.Key].Add(-1)
					if succeeded[s.Key].Load() != 0 {
						report(fmt.Sprintf("the loader of key %d ran after a success", s.Key))
					}
					time.Sleep(time.Duration(s.Work) * 100 * time.Microsecond)
					if s.Fail {
						return 0, boom[i]
					}
					succeeded[s.Key].Add(1)
					return 1000 + i, nil
				})
			}()
		}
		wg.Wait()
		if b := bad.Load(); b != nil {
			c.Violation("%s", *b)
		}
		value := map[int]int{}
		shared := map[int]int{}
		var hits uint64
		for i, r := range results {
			s := scripts[i]
			switch {
			case r.ran > 1:
				c.Violation("loader %d ran %d times", i, r.ran)
			case r.ran == 1 && s.Fail && !errors.Is(r.err, boom[i]):
				c.Violation("loader %d failed but its caller got (%d, %v)", i, r.v, r.err)
			case r.ran == 1 && !s.Fail && (r.err != nil || r.v != 1000+i):
				c.Violation("loader %d succeeded but its caller got (%d, %v)", i, r.v, r.err)
			case r.ran == 0 && r.err != nil:
				c.Violation("caller %d got error %v of somebody else's load", i, r.err)
			}
			if r.ran == 0 {
				hits++
			}
			if r.err == nil {
				if prev, ok := value[s.Key]; ok && prev != r.v {
					c.Violation("callers of key %d got different values %d and %d", s.Key, prev, r.v)
				}
				value[s.Key] = r.v
				shared[s.Key]++
			}
		}
		if stats.Hits() != hits || stats.Count() != uint64(len(scripts)) {
			c.Violation("statistics say %d hits of %d, but there were %d of %d", stats.Hits(), stats.Count(), hits, len(scripts))
		}
		for k, n := range shared {
			if n > 1 {
				var ks []string
				for _, s := range scripts {
					ks = append(ks, fmt.Sprint(s))
				}
				sort.Strings(ks)
				c.Nontrivial(fmt.Sprint(k, ks))
				break
			}
		}
	})
}

// TestC22_CacheBurst is about callers that come at the very same time, over and over again with new caches.
func TestC22_CacheBurst(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "bursts of 2..8 goroutines that load 1..2 keys of a new cache at the very same time but for a few spins, 40 times per case; the loader of a key runs once, and everyone gets its value; non-trivial: several load the same key",
		Quick: 250, Thorough: 1500,
	}, func(c *vh.Case) {
		n := rapid.IntRange(2, 8).Draw(c.T, "goroutines")
		nkeys := rapid.IntRange(1, 2).Draw(c.T, "keys")
		spins := rapid.SliceOfN(rapid.IntRange(0, 40), n, n).Draw(c.T, "spins")
		c.Desc(map[string]any{"spins": spins, "keys": nkeys})
		if n > nkeys {
			c.Nontrivial(fmt.Sprint(nkeys, spins))
		}
		for round := range 40 {
			var stats common.CacheStats
			cache := common.NewCache[int](&stats)
			var ready, sink atomic.Int32
			loads := make([]atomic.Int32, nkeys)
			got := make([]int, n)
			var wg sync.WaitGroup
			for i := range n {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ready.Add(1)
					for tries := 0; ready.Load() < int32(n) && tries < 1_000_000; tries++ {
						if tries%100 == 99 {
							runtime.Gosched()
						}
					}
					for range spins[i] {
						sink.Add(1)
					}
					got[i], _ = cache.Load(fmt.Sprint("k", i%nkeys), func() (int, error) {
						loads[i%nkeys].Add(1)
						return round*100 + i, nil
					})
				}()
			}
			wg.Wait()
			for k := range loads {
				if l := loads[k].Load(); l != 1 {
					c.Violation("the loader of key %d was called %d times", k, l)
				}
			}
			for i := range got {
				if got[i] != got[i%nkeys] {
					c.Violation("caller %d got %d, caller %d of the same key %d", i, got[i], i%nkeys, got[i%nkeys])
				}
			}
			if stats.Count() != uint64(n) || stats.Hits() != uint64(n-nkeys) {
				c.Violation("%d loads with %d hits are counted, expected %d and %d", stats.Count(), stats.Hits(), n, n-nkeys)
			}
		}
	})
}

func TestC22_CacheIndependentKeys(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "a chain of loads where the loader of each key needs the next key (possibly from another goroutine) must complete: a slow key never blocks another; non-trivial: chain of at least 2 keys",
		Quick: 600, Thorough: 2400,
	}, func(c *vh.Case) {
		n := rapid.IntRange(1, 8).Draw(c.T, "n")
		order := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7}[:n]).Draw(c.T, "order")
		nested := rapid.SliceOfN(rapid.Bool(), n, n).Draw(c.T, "other goroutine")
		c.Desc(fmt.Sprintf("order %v other goroutine %v", order, nested))
		var stats common.CacheStats
		cache := common.NewCache[int](&stats)
		var load func(i int) (int, error)
		load = func(i int) (int, error) {
			return cache.Load(fmt.Sprint("key", order[i]), func() (int, error) {
				if i+1 == n {
					return 1, nil
				}
				if !nested[i] {
					v, err := load(i + 1)
					return v + 1, err
				}
				ch := make(chan int)
				go func() { v, _ := load(i + 1); ch <- v }()
				return 1 + <-ch, nil
			})
		}
		done := make(chan int, 1)
		go func() { v, _ := load(0); done <- v }()
		select {
		case v := <-done:
			if v != n {
				c.Violation("nested loads gave %d, want %d", v, n)
			}
		case <-time.After(60 * time.Second):
			c.Violation("loads of distinct keys block each other")
		}
		if n > 1 {
			c.Nontrivial(fmt.Sprint(order, nested))
		}
	})
}
