package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/util"
)

type ent struct {
	size int64
	used time.Time // last store or use
}

// runC02 runs random histories of stores and lookups against a model of the limit and the eviction order.
func runC02() {
	folders := []string{cache.ArticleCacheDirName, cache.ImageCacheDirName, cache.MathCacheDirName, cache.TemplateCacheDirName}
	for ci := 0; ci < ncases && !tooMany(); ci++ {
		if !mine(ci) {
			continue
		}
		r := newRand("c02", ci)
		root := freshCache("cache")
		strategy := pick(r, config.CacheEvictionStrategyLru, config.CacheEvictionStrategyLru, config.CacheEvictionStrategyLargest, config.CacheEvictionStrategyLargest, config.CacheEvictionStrategyNone)
		config.Current.CacheEvictionStrategy = strategy
		limit := int64(pick(r, 200, 1000, 5000, 40000))
		config.Current.CacheMaxSize = limit
		model := map[string]ent{}
		var hist []string
		now := time.Now()
		id := ci * 10000
		evictions, overwrites := 0, 0
		nnames := 2 + r.IntN(12)
		steps := 6 + r.IntN(30)
		small := r.IntN(3) > 0 // several entries fit
		hits := 0
		bad := func(sig, msg string) {
			viol(sig, fmt.Sprintf("%s [strategy %s, limit %d, history: %v]", msg, strategy, limit, hist), map[string]any{"case": ci, "history": hist, "strategy": fmt.Sprint(strategy), "limit": limit})
		}
	history:
		for st := 0; st < steps; st++ {
			f := pick(r, folders...)
			name := fmt.Sprintf("n%d", r.IntN(nnames))
			k := r.IntN(10)
			if known := sortedKeys(model); len(known) > 0 && (k <= 4 && r.IntN(5) > 0 || k == 5) {
				f, name = filepath.Split(pick(r, known...))
				f = filepath.Clean(f)
			}
			rel := filepath.Join(f, name)
			switch {
			case k == 0: // age an entry: all later uses are far more recent
				if e, ok := model[rel]; ok {
					t := now.Add(-time.Duration(1+r.IntN(5000)) * time.Minute)
					must(os.Chtimes(filepath.Join(root, rel), t, t))
					e.used = t
					model[rel] = e
					hist = append(hist, fmt.Sprintf("age %s %s", rel, now.Sub(t)))
				}
				continue
			case k == 1 && r.IntN(3) == 0: // the next run has another limit
				limit = int64(pick(r, 200, 1000, 5000, 40000))
				config.Current.CacheMaxSize = limit
				hist = append(hist, fmt.Sprintf("limit %d", limit))
				continue
			case k <= 4:
				time.Sleep(12 * time.Millisecond)
				_, ok, err := cache.GetFile(f, name)
				_, inModel := model[rel]
				hist = append(hist, fmt.Sprintf("get %s", rel))
				if err != nil || ok != inModel {
					bad("lookup", fmt.Sprintf("lookup of %s: found=%v, expected %v, %v", rel, ok, inModel, err))
					break history
				}
				if ok {
					hits++
					e := model[rel]
					e.used = time.Now()
					model[rel] = e
				}
				continue
			}
			// a store
			var size int
			if small {
				size = r.IntN(int(limit) / 6)
			} else if sk := r.IntN(6); sk == 0 {
				size = int(limit) - 40 - r.IntN(30)
			} else if sk == 1 {
				size = r.IntN(20)
			} else if sk == 2 {
				size = int(limit)/2 - r.IntN(40)
			} else if sk == 3 {
				size = int(limit) + r.IntN(200) // can never fit
			} else {
				size = r.IntN(int(limit) / 3)
			}
			size = max(size, 0)
			id++
			b := body(id, size)
			time.Sleep(12 * time.Millisecond)
			hist = append(hist, fmt.Sprintf("store %s %d", rel, len(b)))
			before := entries(root)
			_, err := cache.CacheToFile(f, name, &chunkReader{b: b, chunk: 1 + r.IntN(4000), failAt: -1})
			after := entries(root)
			n := int64(len(b))
			if err != nil {
				if n < limit || strategy == config.CacheEvictionStrategyNone {
					bad("store", fmt.Sprintf("the store of %d bytes failed: %v", n, err))
					break history
				}
				hist = append(hist, "(failed)")
				model2 := map[string]ent{}
				for k := range after {
					model2[k] = model[k]
				}
				model = model2
				continue
			}
			if got, ok := after[rel]; !ok || string(got) != string(b) {
				bad("stored", "the stored entry is missing or different after a successful store")
				break history
			}
			if _, ok := before[rel]; ok {
				overwrites++
			}
			var total int64
			for _, v := range after {
				total += int64(len(v))
			}
			var victims []string
			for k := range before {
				if _, ok := after[k]; !ok {
					victims = append(victims, k)
				}
			}
			for k := range after {
				if _, ok := before[k]; !ok && k != rel {
					bad("stray", "an unknown file appeared: "+k)
					break history
				}
			}
			if strategy == config.CacheEvictionStrategyNone {
				if len(victims) > 0 {
					bad("none", fmt.Sprintf("strategy none removed %v", victims))
					break history
				}
			} else {
				if total > limit {
					bad("limit", fmt.Sprintf("the entries have %d bytes after the store, the limit is %d", total, limit))
					break history
				}
				for _, v := range victims {
					for k := range after {
						if k == rel {
							continue
						}
						if strategy == config.CacheEvictionStrategyLargest && len(before[v]) < len(before[k]) {
							bad("order", fmt.Sprintf("%s (%d bytes) was removed while %s (%d bytes) was kept", v, len(before[v]), k, len(before[k])))
							break history
						}
						if strategy == config.CacheEvictionStrategyLru && model[v].used.After(model[k].used.Add(10*time.Millisecond)) {
							bad("order", fmt.Sprintf("%s was removed while the less recently used %s was kept", v, k))
							break history
						}
					}
				}
				// the last removal was necessary
				if len(victims) > 0 {
					var last int64 // size of the removed entry that was removed last
					for i, v := range victims {
						sz := int64(len(before[v]))
						switch {
						case i == 0:
							last = sz
						case strategy == config.CacheEvictionStrategyLargest:
							last = min(last, sz)
						}
					}
					if strategy == config.CacheEvictionStrategyLru {
						newest := model[victims[0]].used
						for _, v := range victims {
							if model[v].used.After(newest) {
								newest = model[v].used
							}
						}
						last = 0
						for _, v := range victims {
							if newest.Sub(model[v].used) < 10*time.Millisecond {
								last = max(last, int64(len(before[v])))
							}
						}
					}
					if total+last < limit {
						bad("needless", fmt.Sprintf("%v were removed although %d bytes with the last of them are within the limit %d", victims, total+last, limit))
						break history
					}
				}
			}
			evictions += len(victims)
			for _, v := range victims {
				delete(model, v)
			}
			model[rel] = ent{n, time.Now()}
			if t := temps(root); len(t) > 0 {
				bad("temp", fmt.Sprintf("temporary files are left: %v", t))
				break history
			}
		}
		count("evictions", evictions)
		count("overwrites", overwrites)
		count("lookups_that_hit", hits)
		key := ""
		if evictions > 0 || strategy == config.CacheEvictionStrategyNone {
			key = fmt.Sprint(hist)
		}
		kase(key)
		seen("strategies", fmt.Sprint(strategy))
		if ci == 0 {
			sample(map[string]any{"history": hist, "strategy": fmt.Sprint(strategy)})
		}
	}
	concurrentC02()
}

// concurrentC02: several threads store and look up; at every moment at which a body appears the limit holds.
func concurrentC02() {
	real := util.CurrentFilesystem
	defer func() { util.CurrentFilesystem = real }()
	for round := 0; round < max(2, ncases/25) && !tooMany(); round++ {
		if !mine(round) {
			continue
		}
		r := newRand("c02conc", round)
		root := freshCache("cache")
		limit := int64(pick(r, 1000, 5000, 20000))
		strategy := pick(r, config.CacheEvictionStrategyLru, config.CacheEvictionStrategyLargest)
		config.Current.CacheMaxSize = limit
		config.Current.CacheEvictionStrategy = strategy
		var checks int64
		util.CurrentFilesystem = &faultFS{Filesystem: real, after: func(op, path string) {
			if op != "rename" {
				return
			}
			checks++ // only ever called while the cache is locked; the race detector would tell otherwise
			if t := totalSize(root); t > limit {
				viol("limit", fmt.Sprintf("the entries have %d bytes right after a store by one of several threads, the limit is %d (%s)", t, limit, strategy), map[string]any{"round": round})
			}
		}}
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			rg := newRand(fmt.Sprintf("c02g%d", g), round)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 40; i++ {
					name := fmt.Sprintf("n%d", rg.IntN(10))
					if rg.IntN(3) == 0 {
						if _, _, err := cache.GetFile("images", name); err != nil {
							viol("lookup", "lookup failed: "+err.Error(), nil)
						}
						continue
					}
					b := body(g*1000+i, rg.IntN(int(limit)/2))
					if _, err := cache.CacheToFile("images", name, &chunkReader{b: b, chunk: 500, failAt: -1}); err != nil {
						viol("store", "a store failed: "+err.Error(), map[string]any{"round": round})
					}
				}
			}()
		}
		wg.Wait()
		for k, b := range entries(root) {
			if _, ok := parse(b); !ok {
				viol("mixed", "the entry "+k+" is not a complete body", nil)
			}
		}
		count("concurrent_stores_checked", int(checks))
		kase(fmt.Sprintf("concurrent/%d/%d", round, checks))
	}
}
