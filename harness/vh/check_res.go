package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	register("R01", "exploration", checkR01)
}

// mostAtOnce is the largest number of image tools that were running at the same time.
func mostAtOnce(ts []ToolCall) int {
	type ev struct {
		t int64
		d int
	}
	var evs []ev
	for _, t := range ts {
		if t.Tool != "pandoc" && t.T1 > t.T0 {
			evs = append(evs, ev{t.T0, 1}, ev{t.T1, -1})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t || evs[i].t == evs[j].t && evs[i].d < evs[j].d })
	n, m := 0, 0
	for _, e := range evs {
		n += e.d
		m = max(m, n)
	}
	return m
}

// checkR01: parallelism and open resources stay within what the number of workers needs.
func checkR01(c *Ctx) {
	c.Rule = "projects with hundreds of images, formulas and templates whose requests first meet missing pages, error statuses with bodies and rate limits (each recovered from), 1-8 workers, EPUB and statistics output, project and article command; observed by the server: requests waiting for their answer and connections open at the same time; by the tools: image tools running at the same time; half of the runs only may open a number of files that depends on the workers; non-trivial: at least 150 failing answers were recovered from or 100 requests made; distinct: (project, workers, kind of trouble)"
	c.Assume = []string{"the wiki serves HTTP/1.1 with keep-alive", "up to 2 idle connections per host and worker are fair"}
	n := c.N(32, 320)
	Par(n, 6, func(ci int) {
		if c.NViol() > 5 {
			return
		}
		r := c.Rand("res", ci)
		x := NewWorld(r, fmt.Sprintf("r%dx", ci), worldOpt{Articles: 6 + r.IntN(8), Images: 60 + r.IntN(60), Tmpls: 5, Maths: 6, Share: 0.3})
		for i := range x.Imgs {
			x.Imgs[i].Host = "commons.wikimedia.org"
		}
		for _, t := range x.Titles { // many small uses
			var sb strings.Builder
			sb.WriteString(x.Pages[t])
			sb.WriteString("== More ==\n")
			for k := 0; k < 12; k++ {
				fmt.Fprintf(&sb, "More [[File:%s|15px]] and {{%s|v%d}} end.\n\n", x.Imgs[r.IntN(len(x.Imgs))].Use(), "Unk"+itoa(k%3), k)
			}
			x.Pages[t] = sb.String()
		}
		workers := pick(r, 1, 2, 3, 4, 5, 8)
		hosts := []string{"en.wikipedia.org", "fr.wikipedia.org", "de.wikipedia.org", "commons.wikimedia.org"}
		trouble := pick(r, "missing", "status", "429", "429", "mixed", "mixed", "none")
		cmd := pick(r, "project", "project", "project", "article")
		typ := pick(r, "epub2", "epub3", "stats-json")
		w := x.Wiki()
		for _, h := range hosts {
			w.ArticleHosts[h] = true
		}
		var mu sync.Mutex
		seen := map[string]int{}
		fails := 0
		big := strings.Repeat("<p>error page</p>", pick(r, 1, 40, 2000))
		w.FaultFn = func(q *Req) *Fault {
			mu.Lock()
			defer mu.Unlock()
			k := q.Ident() + q.Body
			seen[k]++
			if q.Kind == "file" && q.Host != "commons.wikimedia.org" {
				fails++
				if trouble == "status" || trouble == "mixed" && len(k)%2 == 0 {
					return &Fault{Kind: "status", Status: []int{404, 500, 403, 503}[len(k)%4], Body: big}
				}
			} else if (trouble == "429" || trouble == "mixed") && seen[k] <= 2 {
				fails++
				return &Fault{Kind: "429", Status: 429, Header: map[string]string{"Retry-After": "0"}, Body: big}
			}
			return nil
		}
		w.DelayFn = func(q *Req) time.Duration { return time.Duration(len(q.Key)%4) * time.Millisecond }
		e := c.NewEnv()
		defer e.Close()
		cfg := x.Cfg(e.ToolCfg()).With("worker-threads", workers, "wikipedia-image-article-hosts", hosts, "cache-eviction-strategy", pick(r, "none", "lru", "largest"))
		if typ == "stats-json" {
			cfg = cfg.With("output-type", typ, "output-driver", "internal", "output-file", filepath.Join(e.OutDir, "s.json"))
		} else {
			cfg = cfg.With("output-type", typ)
		}
		limit := 0
		most := workers
		if chance(r, 0.6) { // without garbage collection nothing is closed that the program does not close itself
			limit = 48 + 16*workers
			e.XEnv = append(e.XEnv, "GOGC=off")
		}
		args := []string{"project", e.Project(cfg, x.Titles)}
		if cmd == "article" {
			conf := filepath.Join(e.Dir, "conf.json")
			out := e.Out
			if typ == "stats-json" {
				out = filepath.Join(e.OutDir, "s.json")
			}
			writeJSON(conf, cfg)
			args = []string{"article", x.Titles[0], "-c", conf, "-o", out}
			most = 1
			if limit > 0 {
				limit = 64
			}
		}
		// The first articles are only answered once all workers have one, so that each worker shows.
		together, alone := make(chan struct{}), false
		if cmd == "project" {
			var once sync.Once
			w.Hook = func(q *Req) {
				if q.Kind != "article" {
					return
				}
				if w.Waiting() >= min(workers, len(x.Titles)) {
					once.Do(func() { close(together) })
				}
				select {
				case <-together:
				case <-time.After(25 * time.Second):
					once.Do(func() { alone = true; close(together) })
				}
			}
		}
		for k := 0; k < 2; k++ { // the second run on the filled cache
			res := e.Run(w, RunOpt{NoFile: limit}, args...)
			replay := map[string]any{"case": ci, "run": k, "workers": workers, "command": cmd, "trouble": trouble, "limit_of_open_files": limit, "pages": x.Pages}
			wait, open, all := w.Load()
			tools := mostAtOnce(res.Tools)
			viol := func(kind, msg string) {
				c.Violate(fmt.Sprintf("R01:%s:%d", kind, ci), fmt.Sprintf("%s command, %d workers, trouble %q, limit of open files %d: %s", cmd, workers, trouble, limit, msg), replay)
			}
			if !res.Success() {
				viol("run", "the run failed: "+res.Brief())
				return
			}
			if alone {
				viol("workers", fmt.Sprintf("only %d requests were waiting at the same time while no article was answered", wait))
			}
			if wait > most {
				viol("requests", fmt.Sprintf("%d requests were waiting for their answer at the same time", wait))
			}
			if tools > most {
				viol("tools", fmt.Sprintf("%d image tools were running at the same time", tools))
			}
			nh := len(hosts) + 2
			if bound := most + nh*(2+most); open > bound {
				viol("connections", fmt.Sprintf("%d connections were open at the same time (%d requests, %d hosts, %d failing answers)", open, len(w.Log()), nh, fails))
			}
			key := ""
			if fails >= 150 || len(w.Log()) >= 100 {
				key = fmt.Sprintf("%d/%d/%s/%s/%d/%d", ci, workers, trouble, cmd, limit, k)
			}
			c.Case(key)
			c.Count("failing_answers", int64(fails))
			c.Seen("load", fmt.Sprintf("workers=%d waiting=%d tools=%d", most, wait, tools))
			c.mu.Lock()
			c.counters["max_rss_kb"] = max(c.counters["max_rss_kb"], res.MaxRSS)
			c.counters["max_open_connections"] = max(c.counters["max_open_connections"], int64(open))
			c.mu.Unlock()
			if ci < 4 {
				c.Sample(map[string]any{"workers": workers, "command": cmd, "trouble": trouble, "requests": len(w.Log()), "waiting_at_once": wait, "tools_at_once": tools, "connections_at_once": open, "connections": all, "limit_of_open_files": limit})
			}
		}
	})
}
