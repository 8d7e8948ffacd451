package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/util"

	"github.com/anishathalye/porcupine"
)

type scenario struct {
	strategy         any
	limit            int64
	oldSize, newSize int // -1: no previous entry
	others           []int
	chunk            int
	folder           string
	missing          bool // the kind's folder does not exist yet
}

func runC01() {
	for i := 0; i < ncases && !tooMany(); i++ {
		if mine(i) {
			faultsC01(i)
		}
	}
	for i := 0; i < max(3, ncases/12) && !tooMany(); i++ {
		if mine(i) {
			concurrentC01(i)
		}
	}
}

// faultsC01 stores one body with a fault or a kill at every single file system call, and with a failing source.
func faultsC01(i int) {
	real := util.CurrentFilesystem
	defer func() { util.CurrentFilesystem = real }()
	r := newRand("c01", i)
	strategy := pick(r, config.CacheEvictionStrategyLru, config.CacheEvictionStrategyLargest, config.CacheEvictionStrategyNone)
	oldSize := pick(r, -1, 0, 10, 300, 5000, 70000)
	newSize := pick(r, 0, 1, 10, 300, 5000, 40000, 100000)
	nOthers := r.IntN(5)
	var others []int
	for k := 0; k < nOthers; k++ {
		others = append(others, pick(r, 0, 10, 400, 3000))
	}
	evict := r.IntN(2) == 0
	chunk := pick(r, 7, 1000, 32768, 1<<20)
	if newSize > 5000 && chunk == 7 {
		chunk = 4096
	}
	name := pick(r, "name.json", "a%2Fb:c", "Ü x.svg")
	setup := func() (string, map[string][]byte, string) {
		root := freshCache("cache")
		config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyNone
		util.CurrentFilesystem = real
		for k, s := range others {
			_, err := cache.CacheToFile(pick(r, "images", "articles"), fmt.Sprintf("other%d", k), &chunkReader{b: body(k+1, s), chunk: 50000, failAt: -1})
			must(err)
		}
		if oldSize >= 0 {
			_, err := cache.CacheToFile("images", name, &chunkReader{b: body(100, oldSize), chunk: 50000, failAt: -1})
			must(err)
		}
		before := entries(root)
		config.Current.CacheEvictionStrategy = strategy
		config.Current.CacheMaxSize = 1 << 40
		if evict {
			var t int64
			for _, b := range before {
				t += int64(len(b))
			}
			config.Current.CacheMaxSize = max(t-10, int64(newSize)+60)
		}
		rel := filepath.Join("images", util.SanitizeFilename(name))
		return root, before, rel
	}
	newBody := body(200, newSize)
	desc := fmt.Sprintf("strategy=%s old=%d new=%d others=%v evict=%v chunk=%d name=%q", strategy, oldSize, newSize, others, evict, chunk, name)
	verify := func(what, root string, before map[string][]byte, rel string, err error, killed, removeFault bool) {
		replay := map[string]any{"case": i, "scenario": desc, "fault": what}
		after := entries(root)
		for k, b := range after {
			old, known := before[k]
			switch {
			case k == rel && string(b) == string(newBody):
				if err != nil && !killed {
					viol("failed store visible", fmt.Sprintf("a store that reported an error (%v) left the new body [%s; %s]", err, what, desc), replay)
				}
			case k == rel && (!known || string(b) != string(old)):
				viol("partial", fmt.Sprintf("the entry is neither the old nor the new body (%d bytes; error: %v) [%s; %s]", len(b), err, what, desc), replay)
			case k != rel && !known:
				viol("stray", fmt.Sprintf("an unknown entry %s appeared [%s; %s]", k, what, desc), replay)
			case k != rel && string(b) != string(old):
				viol("other entry", fmt.Sprintf("the entry %s was changed by the store of another [%s; %s]", k, what, desc), replay)
			}
		}
		if err == nil && !killed {
			if string(after[rel]) != string(newBody) {
				viol("false success", fmt.Sprintf("a store reported success but holds %d of %d bytes [%s; %s]", len(after[rel]), len(newBody), what, desc), replay)
			}
			if t := temps(root); len(t) > 0 && !removeFault {
				viol("temp", fmt.Sprintf("temporary files are left after success: %v [%s; %s]", t, what, desc), replay)
			}
		}
	}
	store := func(failAt int) error {
		_, err := cache.CacheToFile("images", name, &chunkReader{b: newBody, chunk: chunk, failAt: failAt})
		return err
	}
	// undisturbed, recording the calls
	root, before, rel := setup()
	var calls []string
	util.CurrentFilesystem = &faultFS{Filesystem: real, hook: func(op, p string) action { calls = append(calls, op); return pass }}
	err := store(-1)
	verify("no fault", root, before, rel, err, false, false)
	if err != nil {
		viol("store", fmt.Sprintf("an undisturbed store failed: %v [%s]", err, desc), map[string]any{"case": i, "scenario": desc})
		return
	}
	for _, op := range calls {
		seen("operations", op)
	}
	n := 0
	for k := range calls {
		if calls[k] == "write" && k > 12 && k < len(calls)-8 && k%17 != 0 {
			continue // of very many equal writes only some
		}
		for _, a := range []action{fail, partial, dieNow, dieAfter} {
			if a == partial && calls[k] != "write" || tooMany() {
				continue
			}
			root, before, rel := setup()
			cnt := 0
			dead := false
			util.CurrentFilesystem = &faultFS{Filesystem: real, hook: func(op, p string) action {
				cnt++
				switch {
				case dead:
					return dieNow
				case cnt-1 != k:
					return pass
				case a == dieNow || a == dieAfter:
					dead = true
					if a == dieAfter {
						return pass
					}
				}
				return a
			}}
			err := store(-1)
			killed := a == dieNow || a == dieAfter
			util.CurrentFilesystem = real
			what := fmt.Sprintf("%s at call %d (%s)", map[action]string{fail: "error", partial: "half written", dieNow: "killed before", dieAfter: "killed after"}[a], k, calls[k])
			verify(what, root, before, rel, err, killed, calls[k] == "remove")
			seen("fault_sites", fmt.Sprintf("%d/%s", a, calls[k]))
			// what the next reader and the next writer see
			p, ok, gerr := cache.GetFile("images", name)
			if gerr != nil {
				viol("later lookup", fmt.Sprintf("a lookup after the fault failed: %v [%s; %s]", gerr, what, desc), nil)
			}
			if ok {
				b, _ := os.ReadFile(p)
				if id, whole := parse(b); !whole || id != 100 && id != 200 {
					viol("partial", fmt.Sprintf("a lookup after the fault yields an incomplete body [%s; %s]", what, desc), map[string]any{"case": i, "scenario": desc, "fault": what})
				}
			}
			config.Current.CacheMaxSize = 1 << 40
			if err := store(-1); err != nil {
				viol("later store", fmt.Sprintf("a store after the fault failed: %v [%s; %s]", err, what, desc), nil)
			} else if b := entries(root)[rel]; string(b) != string(newBody) {
				viol("false success", fmt.Sprintf("a store after the fault did not store the body [%s; %s]", what, desc), nil)
			}
			n++
			kase(fmt.Sprintf("%d/%d/%d", i, k, a))
		}
	}
	// the source fails
	for k, serr := range append(sourceErrors, sourceErrors...) {
		ats := []int{0, 1, len(newBody) / 2, len(newBody) - 1, len(newBody)}
		at := ats[r.IntN(len(ats))]
		joined := k >= len(sourceErrors)
		root, before, rel := setup()
		util.CurrentFilesystem = real
		_, err := cache.CacheToFile("images", name, &chunkReader{b: newBody, chunk: chunk, failAt: at, err: serr, joined: joined})
		what := fmt.Sprintf("source fails with %q after %d bytes (together with data: %v)", serr, at, joined)
		seen("source_errors", fmt.Sprint(serr, joined))
		if err == nil {
			viol("source error hidden", fmt.Sprintf("the source failed but the store reported success [%s; %s]", what, desc), map[string]any{"case": i, "scenario": desc})
		} else {
			verify(what, root, before, rel, err, false, false)
		}
		n++
		kase(fmt.Sprintf("%d/source/%d/%d", i, k, at))
	}
	count("fault_cases", n)
	if i == 0 {
		sample(map[string]any{"scenario": desc, "calls": calls})
	}
}

type regIn struct {
	write bool
	v     int
}

var register = porcupine.Model{
	Init: func() any { return 0 },
	Step: func(st, in, out any) (bool, any) {
		i := in.(regIn)
		if i.write {
			return true, i.v
		}
		return out.(int) == st.(int), st
	},
}

// concurrentC01: writers, failing writers and readers work on few names; every read body is complete, and each name's
// history is linearizable as a register whose failed writes have no effect.
func concurrentC01(round int) {
	real := util.CurrentFilesystem
	defer func() { util.CurrentFilesystem = real }()
	r := newRand("c01conc", round)
	root := freshCache("cache")
	_ = root
	limited := round%3 == 2
	config.Current.CacheMaxSize = 1 << 40
	config.Current.CacheEvictionStrategy = pick(r, config.CacheEvictionStrategyLru, config.CacheEvictionStrategyNone, config.CacheEvictionStrategyLargest)
	if limited {
		config.Current.CacheMaxSize = 60000
		config.Current.CacheEvictionStrategy = pick(r, config.CacheEvictionStrategyLru, config.CacheEvictionStrategyLargest)
	}
	var hookN atomic.Int64
	util.CurrentFilesystem = &faultFS{Filesystem: real, hook: func(op, p string) action {
		k := hookN.Add(1)
		if (k*2654435761)%7 == 0 {
			time.Sleep(time.Duration((k*40503)%300) * time.Microsecond)
		}
		return pass
	}}
	names := []string{"a.png", "b/c", "d%2F", "e"}[:1+r.IntN(4)]
	var mu sync.Mutex
	ops := map[string][]porcupine.Operation{}
	start := time.Now()
	now := func() int64 { return int64(time.Since(start)) }
	var partials, fails, reads atomic.Int64
	record := func(name string, g int, in regIn, out int, t0, t1 int64) {
		mu.Lock()
		ops[name] = append(ops[name], porcupine.Operation{ClientId: g, Input: in, Output: out, Call: t0, Return: t1})
		mu.Unlock()
	}
	replay := map[string]any{"round": round, "limited": limited, "strategy": fmt.Sprint(config.Current.CacheEvictionStrategy)}
	readPath := func(p string) int {
		b, err := os.ReadFile(p)
		if errors.Is(err, os.ErrNotExist) {
			return 0
		}
		must(err)
		id, ok := parse(b)
		if !ok {
			partials.Add(1)
			viol("partial", fmt.Sprintf("a reader running next to writers saw an incomplete body of %d bytes", len(b)), replay)
			return -1
		}
		return id
	}
	var wg sync.WaitGroup
	var running atomic.Int64
	for g := 0; g < 4; g++ {
		rg := newRand(fmt.Sprintf("c01w%d", g), round)
		wg.Add(1)
		running.Add(1)
		go func() {
			defer wg.Done()
			defer running.Add(-1)
			for i := 0; i < 14; i++ {
				name := pick(rg, names...)
				id := 1 + g*1000 + i
				b := body(id, pick(rg, 0, 5, 100, 3000, 20000))
				rd := &chunkReader{b: b, chunk: pick(rg, 50, 1000, 40000), failAt: -1}
				if len(b) > 5000 {
					rd.chunk = max(rd.chunk, 1000)
				}
				if rg.IntN(4) == 0 {
					rd.failAt = rg.IntN(len(b) + 1)
					rd.err = pick(rg, sourceErrors...)
				}
				rd.joined = rg.IntN(3) == 0
				pause := rg.IntN(3)
				rd.pause = func() {
					if pause == 0 {
						time.Sleep(50 * time.Microsecond)
					}
				}
				t0 := now()
				_, err := cache.CacheToFile("images", name, rd)
				t1 := now()
				switch {
				case err == nil && rd.failAt >= 0:
					viol("source error hidden", "a store whose source failed reported success", replay)
				case err != nil && rd.failAt < 0:
					viol("store", "a concurrent store failed: "+err.Error(), replay)
				case err == nil:
					record(name, g, regIn{true, id}, 0, t0, t1)
				default:
					fails.Add(1)
				}
			}
		}()
	}
	for g := 4; g < 8; g++ {
		rg := newRand(fmt.Sprintf("c01r%d", g), round)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60 || (running.Load() > 0 && i < 400); i++ {
				name := pick(rg, names...)
				t0 := now()
				v := 0
				if g%2 == 0 {
					p, ok, err := cache.GetFile("images", name)
					if err != nil {
						viol("lookup", "a concurrent lookup failed: "+err.Error(), replay)
						continue
					}
					if ok {
						v = readPath(p)
					} else {
						v = 0
					}
				} else {
					v = readPath(cache.GetFilePathInCache("images", name))
					time.Sleep(100 * time.Microsecond)
				}
				t1 := now()
				if v < 0 {
					return
				}
				reads.Add(1)
				if i < 60 {
					record(name, g, regIn{false, 0}, v, t0, t1)
				}
			}
		}()
	}
	wg.Wait()
	inter := 0
	if !limited {
		for name, os := range ops {
			res := porcupine.CheckOperationsTimeout(register, os, 20*time.Second)
			if res == porcupine.Illegal {
				viol("not linearizable", fmt.Sprintf("the history of %q has no sequential explanation (%d operations)", name, len(os)), replay)
			}
			seen("linearizability", string(res))
			for _, a := range os {
				for _, b := range os {
					if a.Input.(regIn).write && a.Call < b.Call && b.Call < a.Return {
						inter++
					}
				}
			}
		}
	}
	count("concurrent_reads", int(reads.Load()))
	count("overlapping_pairs", inter)
	count("failed_concurrent_stores", int(fails.Load()))
	kase(fmt.Sprintf("concurrent/%d/%d/%d", round, reads.Load(), inter))
}
