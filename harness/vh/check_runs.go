package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	register("B02", "exploration", checkB02)
	registerRace("B03", "exploration", checkB03)
}

// delays gives one of several styles of answer timing.
func delays(style int, seed uint64) func(q *Req) time.Duration {
	var mu sync.Mutex
	r := rand.New(rand.NewPCG(seed, 9))
	return func(q *Req) time.Duration {
		mu.Lock()
		defer mu.Unlock()
		switch style {
		case 1:
			return time.Duration(r.IntN(25)) * time.Millisecond
		case 2: // images slow: their uses in other articles overlap the download
			if q.Kind == "image" || q.Kind == "file" {
				return time.Duration(40+r.IntN(40)) * time.Millisecond
			}
		case 3: // one article far behind
			if q.Kind == "article" && r.IntN(3) == 0 {
				return 150 * time.Millisecond
			}
		case 4: // templates and formulas slow
			if q.Kind == "template" || strings.HasPrefix(q.Kind, "math") || q.Kind == "texcheck" {
				return time.Duration(10+r.IntN(30)) * time.Millisecond
			}
		}
		return 0
	}
}

// toolsOnce: every image was converted and processed exactly once.
func toolsOnce(res *Result) string {
	n := map[string]int{}
	for _, t := range res.Tools {
		if t.Tool == "convtool" || t.Tool == "imgtool" {
			n[t.Tool+" "+t.In]++
		}
	}
	var ks []string
	for k := range n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if n[k] > 1 {
			return fmt.Sprintf("%s was run %d times", k, n[k])
		}
	}
	return ""
}

// toolOverlap: no two tools worked on the same file at the same time.
func toolOverlap(res *Result) string {
	type iv struct {
		a, b int64
		s    string
	}
	by := map[string][]iv{}
	for _, t := range res.Tools {
		if t.In == "" {
			continue
		}
		for _, f := range []string{t.In, t.Out} {
			by[f] = append(by[f], iv{t.T0, t.T1, t.Tool + " " + strings.Join(t.Args, " ")})
			if t.In == t.Out {
				break
			}
		}
	}
	for f, l := range by {
		sort.Slice(l, func(i, j int) bool { return l[i].a < l[j].a })
		for i := 1; i < len(l); i++ {
			if l[i].a < l[i-1].b {
				return "two tools worked on " + f + " at the same time: " + l[i-1].s + " / " + l[i].s
			}
		}
	}
	return ""
}

// b02Scene is a project with its wiki, which can be set up any number of times.
type b02Scene struct {
	Titles []string
	Pages  map[string]string
	Imgs   []wImg
	Math   string
	Wiki   func() *Wiki
	Cfg    func(Cfg) Cfg
}

// docScene is a project of articles of the content generator.
func docScene(c *Ctx, ci int, titles ...string) b02Scene {
	title := func(k int) string {
		if len(titles) == 0 {
			return fmt.Sprintf("Doc %d %d", ci, k)
		}
		return fmt.Sprintf(titles[(ci+k)%len(titles)], ci, k)
	}
	x := b02Scene{Pages: map[string]string{}, Math: []string{"", "none", "template", "wikimedia"}[ci%4]}
	b := batchCfg{Math: x.Math, Tools: true}
	gen := func() (*Wiki, []*docCase) {
		r := c.Rand("docs", ci)
		w := NewWiki()
		var ds []*docCase
		for k := 0; k < 6; k++ {
			g := NewGen(r, fmt.Sprintf("q%dq", k), w, map[string]float64{"tmpl": 2, "ref": 2})
			g.mathSuf = mathSuffix(b.Math)
			g.imgConv, g.imgProc = map[string]bool{"svg": true, "pdf": true, "webp": true}, true
			ds = append(ds, &docCase{Title: title(k), Gen: g, F: g.Doc(2 + r.IntN(3))})
		}
		wikiFor(w, ds)
		return w, ds
	}
	_, ds := gen()
	for _, d := range ds {
		x.Titles = append(x.Titles, d.Title)
		x.Pages[d.Title] = d.F.src
	}
	x.Wiki = func() *Wiki {
		w, _ := gen()
		return w
	}
	x.Cfg = func(base Cfg) Cfg { return b.options(base) }
	return x
}

func checkB02(c *Ctx) {
	c.Rule = "random projects whose articles share images (all kinds, redirects, two hosts), templates and formulas, and projects of generated articles with every construct, with image tools configured; for each: a reference run (1 thread, no delays, empty cache), then runs with 2-16 threads under several delay styles and slowed-down tools on empty caches, a run on the cache filled by the previous run, and statistics runs; non-trivial: views of both runs compared and the wiki answered concurrently; distinct: (project, threads, delay style, order of completed requests)"
	c.Assume = []string{"wiki, image tools and converter are deterministic stand-ins"}
	n := c.N(20, 160)
	Par(n, 4, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("world", ci)
		var x b02Scene
		if ci%3 == 2 { // articles with every construct the generator knows
			x = docScene(c, ci)
		} else {
			y := NewWorld(r, fmt.Sprintf("k%dx", ci), worldOpt{Articles: 3 + r.IntN(10), Images: 2 + r.IntN(9), Tmpls: 4 + r.IntN(6), Maths: 2 + r.IntN(5), Share: 0.7, RelSvg: true})
			x = b02Scene{y.Titles, y.Pages, y.Imgs, y.Math, y.Wiki, y.Cfg}
		}
		mk := func(threads int, extra ...any) (*Env, string) {
			e := c.NewEnv()
			cfg := x.Cfg(e.ToolCfg()).With("worker-threads", threads, "svg-size-to-viewbox", ci%2 == 0).With(extra...)
			return e, e.Project(cfg, x.Titles)
		}
		e0, p0 := mk(1)
		defer e0.Close()
		ref := e0.Run(x.Wiki(), RunOpt{}, "project", p0)
		replay := map[string]any{"case": ci, "articles": x.Pages, "images": x.Imgs, "math": x.Math}
		if !ref.Success() {
			c.Violate(fmt.Sprintf("B02:ref:%d", ci), "the reference run failed: "+ref.Brief(), replay)
			return
		}
		want := bookView(e0, ref)
		imgs0 := Snapshot(filepath.Join(e0.Cache, "images"))
		nvar := c.N(3, 6)
		for v := 0; v < nvar; v++ {
			threads := pick(r, 2, 3, 5, 8, 16)
			style := 1 + (ci+v)%4
			e, p := mk(threads)
			if v%2 == 0 {
				e.XEnv = append(e.XEnv, "VH_TOOL_SLOW=15ms")
			}
			w := x.Wiki()
			w.DelayFn = delays(style, uint64(ci*100+v))
			res := e.Run(w, RunOpt{}, "project", p)
			tag := fmt.Sprintf("threads=%d delay=%d", threads, style)
			bad := ""
			switch {
			case !res.Success():
				bad = "the run failed: " + res.Brief()
			default:
				bad = viewDiff(want, bookView(e, res))
				if bad == "" {
					bad = toolsOnce(res)
				}
				if bad == "" {
					bad = toolOverlap(res)
				}
				if bad == "" {
					im := Snapshot(filepath.Join(e.Cache, "images"))
					for k, s := range imgs0 {
						if im[k] != s {
							bad = "image file " + k + " differs from the reference run's"
						}
					}
				}
			}
			if bad != "" {
				c.Violate(fmt.Sprintf("B02:%d:%s", ci, tag), tag+": "+bad, replay)
				e.Close()
				return
			}
			var ord []string
			reqs := append([]*Req(nil), res.Reqs...)
			sort.Slice(reqs, func(a, b int) bool { return reqs[a].Sent.Before(reqs[b].Sent) })
			for _, q := range reqs {
				ord = append(ord, q.Ident())
			}
			key := fmt.Sprintf("%d/%d/%d/%s", ci, threads, style, hashs(ord...))
			if w.maxInfl < 2 {
				key = ""
			} else {
				c.Seen("request_orders", hashs(ord...))
			}
			c.Case(key)
			if ci == 0 && v == 0 {
				c.Sample(map[string]any{"threads": threads, "delay_style": style, "requests_in_completion_order": len(ord), "max_concurrent_requests": w.maxInfl, "parts_compared": len(want)})
			}
			// the same command again on the cache just filled
			if v < 2 {
				res2 := e.Run(w, RunOpt{}, "project", p)
				bad := ""
				if !res2.Success() {
					bad = "the run on the filled cache failed: " + res2.Brief()
				} else {
					bad = viewDiff(want, bookView(e, res2))
				}
				if bad == "" {
					for _, t := range res2.Tools {
						if t.Tool != "pandoc" {
							bad = "a tool was run again for a cached image: " + t.Tool + " " + strings.Join(t.Args, " ")
						}
					}
				}
				if bad != "" {
					c.Violate(fmt.Sprintf("B02:%d:warm:%s", ci, tag), "second run on the same cache ("+tag+"): "+bad, replay)
					e.Close()
					return
				}
				c.Case(fmt.Sprintf("warm/%d/%d", ci, v))
			}
			e.Close()
		}
		// statistics output
		for _, typ := range []string{"stats-json", "stats-txt"} {
			var first string
			for k, threads := range []int{1, 4, 16} {
				e, p := mk(threads, "output-type", typ, "output-driver", "internal", "output-file", "")
				out := filepath.Join(e.OutDir, "stats."+typ[6:])
				w := x.Wiki()
				w.DelayFn = delays(k, uint64(ci))
				res := e.Run(w, RunOpt{}, "project", p, "-o", out)
				b, _ := os.ReadFile(out)
				bad := ""
				if !res.Success() || len(b) == 0 {
					bad = "statistics run failed: " + res.Brief()
				} else if k == 0 {
					first = string(b)
				} else if first != string(b) {
					bad = fmt.Sprintf("%s differs with %d threads: %s", typ, threads, viewDiff(strings.Split(first, "\n"), strings.Split(string(b), "\n")))
				}
				if bad == "" && k == 2 { // warm
					res := e.Run(w, RunOpt{}, "project", p, "-o", out)
					b2, _ := os.ReadFile(out)
					if !res.Success() || string(b2) != first {
						bad = typ + " differs on a filled cache: " + res.Brief()
					}
				}
				e.Close()
				if bad != "" {
					c.Violate(fmt.Sprintf("B02:%d:%s", ci, typ), bad, replay)
					return
				}
				c.Case(fmt.Sprintf("%s/%d/%d", typ, ci, threads))
			}
		}
	})
}

// checkB03: the race detector watches the real program while articles that share everything are processed.
func checkB03(c *Ctx) {
	c.Rule = "the program built with the race detector processes random projects whose articles share images, templates, formulas and cache entries, with 2-24 threads, several delay styles, small caches (eviction), outdated entries, EPUB and statistics output; non-trivial: at least two requests were in flight at once; distinct: (project, threads, delay style, request order)"
	c.Assume = []string{"the race detector sees only the executions that happened"}
	n := c.N(40, 260)
	Par(n, 4, func(ci int) {
		if c.NViol() > 5 {
			return
		}
		r := c.Rand("world", ci)
		x := NewWorld(r, fmt.Sprintf("k%dx", ci), worldOpt{Articles: 6 + r.IntN(14), Images: 2 + r.IntN(9), Tmpls: 4 + r.IntN(6), Maths: 2 + r.IntN(5), Share: 0.85, RelSvg: true})
		e := c.NewEnv()
		defer e.Close()
		e.Race, e.BinPath = true, c.BinRace
		e.CPULim = 200
		threads := pick(r, 2, 4, 8, 16, 24)
		cfg := x.Cfg(e.ToolCfg()).With("worker-threads", threads, "svg-size-to-viewbox", ci%2 == 0)
		args := []string{"project", "", "-o", e.Out}
		small := false
		switch ci % 6 {
		case 1:
			cfg = cfg.With("output-type", "stats-json", "output-driver", "internal")
			args[3] = filepath.Join(e.OutDir, "s.json")
		case 2:
			cfg = cfg.With("output-type", "stats-txt", "output-driver", "internal")
			args[3] = filepath.Join(e.OutDir, "s.txt")
		case 3, 4: // eviction while others read; the run may fail when an entry is evicted before its use
			small = true
			cfg = cfg.With("cache-max-size", 3000+r.IntN(20000), "cache-eviction-strategy", pick(r, "lru", "largest"))
		}
		args[1] = e.Project(cfg, x.Titles)
		if ci%4 == 3 {
			args = append(args, "-l", "trace")
		}
		w := x.Wiki()
		w.DelayFn = delays(ci%5, uint64(ci))
		for k := 0; k < 2; k++ {
			res := e.Run(w, RunOpt{}, args...)
			races := 0
			logs, _ := filepath.Glob(e.RaceLog + ".*")
			for _, l := range logs {
				b, _ := os.ReadFile(l)
				os.Remove(l)
				for _, rep := range strings.Split(string(b), "==================") {
					if strings.Contains(rep, "DATA RACE") {
						races++
						c.Seen("race_sites", raceSite(rep))
						c.Violate("B03:race:"+raceSite(rep), "data race: "+clip(rep, 2500), map[string]any{"case": ci, "threads": threads, "report": clip(rep, 6000)})
					}
				}
			}
			if res.Exit == 66 && races == 0 || strings.Contains(res.Stderr, "concurrent map") {
				c.Violate("B03:race:exit", "the run ended because of a race: "+res.Brief(), map[string]any{"case": ci})
			}
			if !small && !res.Success() && res.Exit != 66 {
				c.Violate(fmt.Sprintf("B03:run:%d", ci), "the run failed: "+res.Brief(), map[string]any{"case": ci})
			}
			key := ""
			if w.maxInfl >= 2 {
				var ord []string
				for _, q := range res.Reqs {
					ord = append(ord, q.Ident())
				}
				key = fmt.Sprintf("%d/%d/%d/%s", ci, threads, k, hashs(ord...))
			}
			c.Case(key)
			c.mu.Lock()
			if int64(w.maxInfl) > c.counters["max_concurrent_requests"] {
				c.counters["max_concurrent_requests"] = int64(w.maxInfl)
			}
			c.mu.Unlock()
			if ci%3 == 0 { // the second run finds every other entry outdated
				i := 0
				old := time.Now().Add(-100 * 24 * time.Hour)
				filepath.Walk(e.Cache, func(p string, fi os.FileInfo, err error) error {
					if err == nil && !fi.IsDir() {
						if i++; i%2 == 0 {
							os.Chtimes(p, old, old)
						}
					}
					return nil
				})
			}
		}
	})
	c.Sample(map[string]any{"race_detector": "GORACE halt_on_error=0, log_path per run", "runs": "see program_runs"})
}

// raceSite names what raced: the functions doing the two accesses, without libraries of the language itself.
func raceSite(rep string) string {
	var fs []string
	top := false
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous "), strings.HasPrefix(t, "Atomic "):
			top = true
		case top && strings.Contains(t, "(") && !strings.Contains(t, "/src/") && strings.Contains(strings.SplitN(t, "(", 2)[0]+".", "."):
			f := strings.TrimSuffix(t, "()")
			if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/") {
				continue
			}
			if strings.HasPrefix(f, "github.com/hauke96/sigolo/") {
				f = "logging library"
			}
			fs = append(fs, f)
			top = false
		}
	}
	sort.Strings(fs)
	if len(fs) == 2 && fs[0] == "logging library" && fs[1] == fs[0] {
		return "logging library"
	}
	return strings.Join(fs, "+")
}
