package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	registerAPI("C01", "fault_enumeration", checkC01)
	registerAPI("C02", "exploration", checkC02)
}

func checkC01(c *Ctx) {
	c.Rule = "in-process, through the program's own file system interface: for random scenarios (strategy, sizes, previous entry, other entries, need for eviction, chunking) one store with an error, a half write, a kill before and a kill after every single file system call it makes, and with a source failing at several offsets; then the cache's content, the next lookup and the next store are checked; concurrent histories of writers, failing writers and readers (through the lookup and directly) with injected delays under the race detector, every body read must be complete and each name's history linearizable (porcupine) as a register whose failed writes have no effect; whole projects with bodies arriving in parts or cut off, slow conversion tools, threads and kills, while a monitor reads all entries every millisecond: each is always a complete body, and the following run succeeds; distinct: (scenario, call, fault), concurrent rounds and watched runs"
	c.Assume = []string{"a rename is atomic, a kill keeps the effects of completed file system calls (no power loss)"}
	apiCheck(c, "c01", c.N(160, 3000))
	watchCache(c)
}

// watchCache runs whole projects with bodies arriving in parts, many threads and slow tools, some of them killed or cut
// off, while a monitor reads every entry of the cache again and again: each must always be a complete body.
func watchCache(c *Ctx) {
	n := c.N(24, 300)
	var reads, entriesSeen atomic.Int64
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("watch", ci)
		x := NewWorld(r, fmt.Sprintf("w%dx", ci), worldOpt{Articles: 2 + r.IntN(4), Images: 4 + r.IntN(8), Tmpls: 4, Maths: 3, Share: 0.6, RelSvg: true})
		mk := func() (*Env, []string) {
			e := c.NewEnv()
			cfg := x.Cfg(e.ToolCfg()).With("command-template-image-processing", "", "worker-threads", pick(r, 1, 4, 16))
			return e, []string{"project", e.Project(cfg, x.Titles)}
		}
		e0, a0 := mk()
		defer e0.Close()
		w0 := x.Wiki()
		ref := e0.Run(w0, RunOpt{}, a0...)
		if !ref.Success() {
			c.Fail("C01: fault-free run failed: %s", ref.Brief())
			return
		}
		final := cacheSnap(e0)
		served := map[string]bool{}
		for _, q := range ref.Reqs {
			served[q.RespSum] = true
		}
		for round := 0; round < 3; round++ {
			e, args := mk()
			w := x.Wiki()
			var rmu sync.Mutex
			w.FaultFn = func(q *Req) *Fault {
				rmu.Lock()
				defer rmu.Unlock()
				switch k := r.IntN(20); {
				case round > 0 && k == 0:
					return &Fault{Kind: "truncate", AtBytes: r.IntN(40)}
				case round > 0 && k == 1:
					return &Fault{Kind: "chunktrunc"}
				case k < 15:
					d := time.Duration(r.IntN(25)) * time.Millisecond
					return &Fault{Kind: "half", Mid: func() { time.Sleep(d) }}
				}
				return nil
			}
			e.Plan = []ToolRule{{Tool: "convtool", Action: "sleepmid", Ms: 5 + r.IntN(40)}}
			stop := make(chan struct{})
			var wg sync.WaitGroup
			wg.Add(1)
			seenEntries := map[string]bool{}
			look := func(when string) {
				for k, v := range cacheSnap(e) {
					reads.Add(1)
					seenEntries[k] = true
					want, known := final[k]
					if !known || v == want || served[hash([]byte(v))] {
						continue // unknown: not an entry a reader would ask for
					}
					if b, err := os.ReadFile(filepath.Join(e.Cache, k)); err == nil && string(b) == v || when != "after the run" {
						c.Violate("C01:watch:"+strings.SplitN(k, "/", 2)[0], fmt.Sprintf("%s the entry %s holds %d bytes that are no complete body: %q, expected %q", when, k, len(v), clip(v, 200), clip(final[k], 200)), map[string]any{"case": ci, "round": round, "articles": x.Pages})
					}
				}
			}
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Millisecond):
						look("during the run")
					}
				}
			}()
			opt := RunOpt{}
			if round == 2 {
				at := time.Duration(20+r.IntN(300)) * time.Millisecond
				opt.KillAt = func(kill func()) { time.AfterFunc(at, kill) }
			}
			res := e.Run(w, opt, args...)
			close(stop)
			wg.Wait()
			look("after the run")
			entriesSeen.Add(int64(len(seenEntries)))
			// what is left must do for a later run without faults
			w.FaultFn = nil
			e.Plan = nil
			again := e.Run(w, RunOpt{}, args...)
			if !again.Success() {
				c.Violate("C01:watch:again", "the run after a disturbed one failed: "+again.Brief(), map[string]any{"case": ci, "round": round, "articles": x.Pages})
			}
			look("after a second run")
			key := ""
			if len(seenEntries) > 0 {
				key = fmt.Sprintf("watch/%d/%d/%v", ci, round, res.Success())
			}
			c.Case(key)
			e.Close()
		}
	})
	c.Count("watched_entry_reads", reads.Load())
	c.Count("watched_entries", entriesSeen.Load())
}

func checkC02(c *Ctx) {
	c.Rule = "in-process: random histories of stores (sizes around the limit, overwriting, impossible ones), lookups, ageing and changes of the limit, against a model of the limit, the eviction order (least recently stored or used / largest) and necessity; threads storing concurrently with the limit checked at every rename; black box: projects run repeatedly with small limits, the folder's size after each run and the absence of evictions with strategy none; non-trivial: at least one eviction; distinct: (history)"
	c.Assume = []string{"uses less than 10 ms apart may count in either order (file time resolution)", "reaching the limit exactly may or may not evict"}
	apiCheck(c, "c02", c.N(400, 8000))
	n := c.N(40, 400)
	var ok atomic.Int64
	defer func() {
		if ok.Load() == 0 {
			c.Fail("C02: no run of the program succeeded")
		}
	}()
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("bb", ci)
		x := NewWorld(r, fmt.Sprintf("e%dx", ci), worldOpt{Articles: 2 + r.IntN(3), Images: 6 + r.IntN(10), Tmpls: 3, Maths: 2, Share: 0.4})
		strategy := pick(r, "lru", "largest", "none")
		big := []byte(strings.Repeat("B", 1500000))
		w := x.Wiki()
		// some images of considerable size: the limit is in whole megabytes
		var nn []string
		for n := range w.Images {
			if strings.HasSuffix(n, ".png") || strings.HasSuffix(n, ".jpg") {
				nn = append(nn, n)
			}
		}
		sort.Strings(nn)
		total := 0
		for i, n := range nn {
			if i%2 == 0 {
				w.Images[n] = append(append([]byte{}, w.Images[n]...), big[:200000+r.IntN(1200000)]...)
			}
			total += len(w.Images[n])
		}
		e := c.NewEnv()
		defer e.Close()
		limit := int64(2000000)
		cfg := x.Cfg(e.BaseCfg()).With("cache-max-size", limit, "cache-eviction-strategy", strategy, "worker-threads", pick(r, 1, 4))
		if ci%4 == 3 {
			cfg = cfg.With("output-driver", "internal", "output-type", "stats-json")
		}
		args := []string{"project", e.Project(cfg, x.Titles)}
		replay := map[string]any{"case": ci, "pages": x.Pages, "strategy": strategy, "limit": limit}
		for pass := 0; pass < 2; pass++ {
			res := e.Run(w, RunOpt{}, args...)
			if !res.Success() {
				// a file that never fits or an entry evicted between its store and its use: reported errors are fine here
				c.Count("runs_failed", 1)
				c.Note("run_failed", res.Brief())
			} else {
				ok.Add(1)
			}
			var sum int64
			filepath.Walk(e.Cache, func(p string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() && !strings.Contains(p, "/.tmp/") {
					sum += fi.Size()
				}
				return nil
			})
			if strategy != "none" && sum > limit {
				c.Violate("C02:bb limit", fmt.Sprintf("after a run the cache has %d bytes, the limit is %d (%s)", sum, limit, strategy), replay)
				return
			}
			if strategy == "none" && pass == 1 && len(res.Reqs) > 0 {
				c.Violate("C02:bb none", "strategy none: the second run requested again: "+res.Reqs[0].Ident(), replay)
				return
			}
			k := ""
			if int64(total) > limit {
				k = fmt.Sprintf("bb/%d/%d", ci, pass)
			}
			c.Case(k)
		}
	})
	_ = time.Now
}
