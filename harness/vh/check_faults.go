package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	register("F01", "fault_enumeration", checkF01)
	registerFS("F02", "fault_enumeration", checkF02)
	registerVT("H01", "fault_enumeration", checkH01)
}

const faultMark = "VHFAULT"

// faultSpec is one way a request can go wrong.
type faultSpec struct {
	Name string
	Only string // kinds of requests it applies to ("" = all)
	Lax  bool   // the program may accept the answer (used only for recovery)
	Mk   func(genuine *Req) *Fault
}

var apiKinds = "article file template"

func faultSpecs() []faultSpec {
	var out []faultSpec
	for _, st := range []int{404, 500, 403, 503, 400, 502, 204, 206, 201, 302, 410} {
		st := st
		out = append(out, faultSpec{Name: fmt.Sprintf("status %d", st), Mk: func(*Req) *Fault {
			return &Fault{Kind: "status", Status: st, Body: map[bool]string{true: "", false: "<html>" + faultMark + " error page</html>"}[st == 204]}
		}})
		if st == 500 || st == 404 || st == 206 {
			out = append(out, faultSpec{Name: fmt.Sprintf("status %d with plausible body", st), Mk: func(*Req) *Fault { return &Fault{Kind: "status", Status: st, Keep: true} }})
		}
	}
	out = append(out,
		faultSpec{Name: "reset", Mk: func(*Req) *Fault { return &Fault{Kind: "reset"} }},
		faultSpec{Name: "truncated at 0", Mk: func(*Req) *Fault { return &Fault{Kind: "truncate", AtBytes: 0} }},
		faultSpec{Name: "truncated in the middle", Mk: func(g *Req) *Fault { return &Fault{Kind: "truncate", AtBytes: g.RespLen / 2} }},
		faultSpec{Name: "truncated by one byte", Mk: func(g *Req) *Fault { return &Fault{Kind: "truncate", AtBytes: g.RespLen - 1} }},
		faultSpec{Name: "chunked and cut off", Mk: func(*Req) *Fault { return &Fault{Kind: "chunktrunc"} }},
		faultSpec{Name: "API error header", Only: apiKinds, Mk: func(*Req) *Fault {
			return &Fault{Kind: "apierror", Status: 200, Header: map[string]string{"mediawiki-api-error": "internal_api_error"}, Body: `{"error":{"code":"` + faultMark + `"}}`}
		}},
		faultSpec{Name: "API error header with plausible body", Only: apiKinds, Mk: func(*Req) *Fault {
			return &Fault{Kind: "apierror", Status: 200, Header: map[string]string{"mediawiki-api-error": "readonly"}, Keep: true}
		}},
		faultSpec{Name: "HTML instead of JSON", Only: apiKinds, Mk: func(*Req) *Fault {
			return &Fault{Kind: "nonjson", Status: 200, Body: "<!DOCTYPE html><html>" + faultMark + "</html>"}
		}},
		faultSpec{Name: "empty body instead of JSON", Only: apiKinds, Mk: func(*Req) *Fault { return &Fault{Kind: "nonjson", Status: 200} }},
		faultSpec{Name: "JSON cut off", Only: apiKinds, Mk: func(*Req) *Fault {
			return &Fault{Kind: "nonjson", Status: 200, Body: `{"parse":{"title":"` + faultMark + `","wikitext":{"*":"abc`}
		}},
		faultSpec{Name: "no location of the rendering", Only: "texcheck", Lax: true, Mk: func(*Req) *Fault { return &Fault{Kind: "nolocation", Status: 200, Body: "{}"} }},
		faultSpec{Name: "garbage instead of SVG", Only: "mathsvg", Lax: true, Mk: func(*Req) *Fault {
			return &Fault{Kind: "garbage", Status: 200, Body: "<html>" + faultMark + "<br></html"}
		}},
	)
	return out
}

func (f faultSpec) applies(q *Req) bool {
	if f.Only != "" {
		for _, k := range strings.Fields(f.Only) {
			if k == q.Kind {
				return true
			}
		}
		return false
	}
	if strings.HasPrefix(f.Name, "truncated") && q.RespLen < 2 {
		return false
	}
	return true
}

// fault returns a FaultFn for the identity; n = 0: every time, else only the n-th time.
func faultAt(ident string, n int, f *Fault) func(q *Req) *Fault {
	var mu sync.Mutex
	k := 0
	return func(q *Req) *Fault {
		if q.Ident() != ident {
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		k++
		if n == 0 || k == n {
			return f
		}
		return nil
	}
}

// scene is a world with everything needed to run it in one of several ways.
type scene struct {
	c    *Ctx
	x    *World
	mode string // epub, internal, stats-json, stats-txt, article
}

func (s scene) env(threads int, old bool) (*Env, []string, string) {
	e := s.c.NewEnv()
	cfg := s.x.Cfg(e.ToolCfg()).With("worker-threads", threads)
	out := e.Out
	switch s.mode {
	case "internal":
		must(os.WriteFile(filepath.Join(e.Dir, "style.css"), []byte("p{}"), 0o644))
		must(os.WriteFile(filepath.Join(e.Dir, "cover.png"), tinyPNG, 0o644))
		cfg = cfg.With("output-driver", "internal", "output-type", "epub3", "style-file", filepath.Join(e.Dir, "style.css"), "cover-image", filepath.Join(e.Dir, "cover.png"))
	case "stats-json", "stats-txt":
		cfg = cfg.With("output-driver", "internal", "output-type", s.mode)
		out = filepath.Join(e.OutDir, "stats."+s.mode[6:])
	}
	args := []string{"project", e.Project(cfg, s.x.Titles), "-o", out}
	if s.mode == "article" {
		p := filepath.Join(e.Dir, "conf.json")
		writeJSON(p, cfg)
		args = []string{"article", s.x.Titles[0], "-c", p, "-o", out}
	}
	if old {
		must(os.WriteFile(out, []byte("OLD BOOK"), 0o644))
	}
	return e, args, out
}

var tinyPNG = []byte("\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x01\x00\x00\x00\x01\x08\x06\x00\x00\x00\x1f\x15\xc4\x89\x00\x00\x00\rIDATx\x9cc\xf8\xff\xff?\x00\x05\xfe\x02\xfe\xa75\x81\x84\x00\x00\x00\x00IEND\xaeB`\x82")

// view is what the run produced.
func (s scene) view(e *Env, res *Result, out string) []string {
	switch s.mode {
	case "epub", "article":
		return bookView(e, res)
	case "internal":
		return epubView(out)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return []string{"no output file"}
	}
	return []string{string(b)}
}

func cacheSnap(e *Env) map[string]string {
	m := map[string]string{}
	for k, v := range Snapshot(e.Cache) {
		if !strings.HasPrefix(k, ".tmp/") {
			m[k] = v
		}
	}
	return m
}

// failedBadly judges a run that met a permanent failure.
func failedBadly(res *Result, out string, old bool, convBefore bool) string {
	if res.Success() {
		return "exit status 0 although a part could not be obtained"
	}
	if res.Claimed() {
		return "success was reported"
	}
	if res.Hang != "" {
		return "the run did not end"
	}
	if !convBefore && len(res.Calls("pandoc")) > 0 {
		return "the converter was started"
	}
	b, err := os.ReadFile(out)
	if old && (err != nil || string(b) != "OLD BOOK") {
		return fmt.Sprintf("the existing output file was changed to %q", clip(string(b), 100))
	}
	if !old && err == nil && len(b) > 0 && !convBefore {
		return fmt.Sprintf("an output file with %d bytes was written", len(b))
	}
	return ""
}

type toolFault struct {
	Tool, Action string
	Nth          int
}

// faultPlan enumerates the ways the baseline run can be disturbed.
func faultPlan(ref *Result) (reqs []*Req, tools []toolFault) {
	seen := map[string]bool{}
	for _, q := range ref.Reqs {
		if q.OK && !seen[q.Ident()] {
			seen[q.Ident()] = true
			reqs = append(reqs, q)
		}
	}
	n := map[string]int{}
	for _, t := range ref.Tools {
		n[t.Tool]++
		acts := []string{"fail", "failpartial", "signal", "failafter"}
		for _, a := range acts {
			tools = append(tools, toolFault{t.Tool, a, n[t.Tool]})
		}
	}
	return
}

func sampleOf[T any](r *rand.Rand, xs []T, n int) []T {
	if n <= 0 || len(xs) <= n {
		return xs
	}
	r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
	return xs[:n]
}

var modes = []string{"epub", "epub", "stats-json", "article", "internal", "epub", "stats-txt"}

func faultWorld(c *Ctx, ci int) (scene, *rand.Rand) {
	r := c.Rand("world", ci)
	x := NewWorld(r, fmt.Sprintf("k%dx", ci), worldOpt{Articles: 2 + r.IntN(3), Images: 3 + r.IntN(6), Tmpls: 3, Maths: 2, Share: 0.5})
	return scene{c, x, modes[ci%len(modes)]}, r
}

func checkF01(c *Ctx) {
	c.Rule = "small projects with all image kinds, templates, formulas and image tools; from a fault-free sequential run the list of successful requests and tool calls is taken, then each request x fault (status codes, resets, truncations, API error header, non-JSON) and each tool call x failure (exit status before/after/with partial output, killed, missing executable) is replayed with the fault injected permanently or once, with 1 or 6 threads, EPUB (both drivers), statistics and article commands, with and without an existing output file; non-trivial: the fault was really delivered; distinct: (project, request or tool call, fault, mode)"
	c.Assume = []string{"a one-time fault may also be overcome by repeating the request; then the result must equal the fault-free one"}
	specs := faultSpecs()
	n := c.N(7, 56)
	Par(n, 4, func(ci int) {
		s, r := faultWorld(c, ci)
		e0, a0, out0 := s.env(1, false)
		defer e0.Close()
		ref := e0.Run(s.x.Wiki(), RunOpt{}, a0...)
		replay := map[string]any{"case": ci, "articles": s.x.Pages, "images": s.x.Imgs, "math": s.x.Math, "mode": s.mode}
		if !ref.Success() {
			c.Violate(fmt.Sprintf("F01:ref:%d", ci), "the fault-free run failed: "+ref.Brief(), replay)
			return
		}
		want := s.view(e0, ref, out0)
		reqs, tools := faultPlan(ref)
		type job struct {
			q *Req
			f faultSpec
			t toolFault
		}
		var jobs []job
		for _, q := range reqs {
			for _, f := range specs {
				if !f.Lax && f.applies(q) {
					jobs = append(jobs, job{q: q, f: f})
				}
			}
		}
		jobs = sampleOf(r, jobs, c.N(110, 0))
		var tj []job
		for _, t := range tools {
			tj = append(tj, job{t: t})
		}
		jobs = append(jobs, sampleOf(r, tj, c.N(16, 0))...)
		for ji, j := range jobs {
			if c.NViol() > 10 {
				return
			}
			threads := []int{1, 1, 6}[ji%3]
			old := ji%2 == 0
			once := j.q != nil && ji%5 == 4
			e, args, out := s.env(threads, old)
			w := s.x.Wiki()
			name, conv, delivered := "", false, false
			if j.q != nil {
				nth := 0
				if once {
					nth = 1
				}
				w.FaultFn = faultAt(j.q.Ident(), nth, j.f.Mk(j.q))
				name = j.q.Kind + ": " + j.f.Name
			} else {
				e.Plan = []ToolRule{{Tool: j.t.Tool, Nth: j.t.Nth, Action: j.t.Action}}
				conv = j.t.Tool == "pandoc"
				name = j.t.Tool + ": " + j.t.Action
			}
			res := e.Run(w, RunOpt{}, args...)
			for _, q := range res.Reqs {
				delivered = delivered || q.Fault != ""
			}
			for _, t := range res.Tools {
				delivered = delivered || t.Fault != ""
			}
			bad := ""
			if delivered {
				if once && res.Success() {
					if bad = viewDiff(want, s.view(e, res, out)); bad != "" {
						bad = "the run succeeded with another result: " + bad
					}
				} else {
					bad = failedBadly(res, out, old && (!conv || j.t.Action != "failafter"), conv)
				}
				key := fmt.Sprintf("%d/%d/%s", ci, ji, name)
				c.Case(key)
				c.Seen("fault_kinds", name+"/"+s.mode)
				if ci == 0 && ji < 2 {
					c.Sample(map[string]any{"fault": name, "threads": threads, "mode": s.mode, "exit": res.Exit, "claimed": res.Claimed(), "converter_calls": len(res.Calls("pandoc"))})
				}
			}
			e.Close()
			if bad != "" {
				rp := map[string]any{"scene": replay, "fault": name, "threads": threads, "once": once}
				if j.q != nil {
					rp["request"] = j.q.URI
				}
				c.Violate("F01:"+s.mode+":"+name, fmt.Sprintf("%s (threads=%d mode=%s): %s; %s", name, threads, s.mode, bad, res.Brief()), rp)
			}
		}
		// missing executables
		miss := map[string]string{"pandoc-executable": "no-such-converter"}
		for _, im := range s.x.Imgs {
			if im.Ext == "svg" || im.Ext == "pdf" || im.Ext == "webp" {
				miss["command-template-"+im.Ext+"-to-png"] = "no-such-tool {INPUT} {OUTPUT}"
			} else {
				miss["command-template-image-processing"] = "/nonexistent/imgtool {INPUT} {OUTPUT}"
			}
		}
		var opts []string
		for o := range miss {
			opts = append(opts, o)
		}
		sort.Strings(opts)
		for _, o := range opts {
			if o == "pandoc-executable" && s.mode != "epub" && s.mode != "article" {
				continue
			}
			if s.mode == "article" {
				continue
			}
			used := o == "pandoc-executable"
			for _, t := range ref.Tools { // is a tool of that kind used at all?
				j := strings.Join(t.Args, " ")
				used = used || o == "command-template-image-processing" && t.Tool == "imgtool" || t.Tool == "convtool" && strings.HasPrefix(o, "command-template-"+strings.SplitN(j, " ", 2)[0]+"-")
			}
			if !used {
				continue
			}
			e, args, out := s.env(1, true)
			b, _ := os.ReadFile(args[1])
			var m Cfg
			must(json.Unmarshal(b, &m))
			m[o] = miss[o]
			writeJSON(args[1], m)
			res := e.Run(s.x.Wiki(), RunOpt{}, args...)
			if bad := failedBadly(res, out, true, o == "pandoc-executable"); bad != "" {
				c.Violate("F01:missing:"+o, "missing executable for "+o+": "+bad+"; "+res.Brief(), replay)
			}
			c.Case(fmt.Sprintf("missing/%d/%s", ci, o))
			c.Seen("fault_kinds", "missing "+o)
			e.Close()
		}
	})
}

// interrupted lists the images that a killed run left between download and the end of their processing: the content is
// the complete downloaded body or what the processing tool had written so far.
func interrupted(x *World, ref, now map[string]string) []string {
	var out []string
	bodies := map[string]bool{}
	for _, im := range x.Imgs {
		bodies[im.Body] = true
		bodies["PNG["+im.Body+"]"] = true
	}
	var ks []string
	for k := range now {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v, ok := ref[k]
		if !strings.HasPrefix(k, "images/") || !ok || v == now[k] || !strings.HasPrefix(v, "PROC[") {
			continue
		}
		if bodies[now[k]] || now[k] == "" && false || now[k] == "PROC[" || now[k] == "PROC" || now[k] == "" {
			out = append(out, k)
		}
	}
	return out
}

const killedWhileProcessing = "F02:killed-while-processing-image"

// recovers judges the cache an ended run left and what the same command makes of it with a healthy wiki.
func (s scene) recovers(e *Env, args []string, out string, ref map[string]string, want []string, killed bool) (bad string, known bool) {
	e.Plan = nil
	os.Remove(e.ToolLog + ".mark")
	now := cacheSnap(e)
	if killed {
		for _, k := range interrupted(s.x, ref, now) {
			known = true
			os.Remove(filepath.Join(e.Cache, k))
			delete(now, k)
		}
	}
	for k, v := range now {
		if strings.Contains(v, faultMark) && !strings.HasPrefix(v, "PNG[") { // a converted copy is renewed together with its source
			return fmt.Sprintf("the cache file %s holds an error answer: %q", k, clip(v, 200)), known
		}
	}
	res := e.Run(s.x.Wiki(), RunOpt{}, args...)
	if !res.Success() {
		return "the next run failed: " + res.Brief(), known
	}
	if d := viewDiff(want, s.view(e, res, out)); d != "" {
		return "the next run's result differs from an undisturbed run's: " + d, known
	}
	after := cacheSnap(e)
	for k, v := range ref {
		if w, ok := after[k]; !ok || w != v {
			return fmt.Sprintf("the cache file %s differs from an undisturbed run's after the next run: %q, expected %q", k, clip(w, 200), clip(v, 200)), known
		}
	}
	return "", known
}

func checkF02(c *Ctx) {
	c.Rule = "the projects and faults of F01 (plus unusable math answers) and SIGKILL of the whole process group at chosen moments: on arrival of a request, in the middle of an answer's body, a random time (0-20 ms) after an answer, before/during/after a tool's writing, at random times, when a cache file is put in place (rename system call, via strace), before any operation on a file (program built against a standard library with a hook; empty, filled, aged and too small cache), several kills in a row; afterwards the same command runs on the left-over cache with a healthy wiki and is compared with an undisturbed run (book, image files, whole cache); non-trivial: fault delivered or process really killed; distinct: (project, point, kind)"
	c.Assume = []string{"a kill never loses data already written (no power failure)"}
	specs := faultSpecs()
	strace := straceWorks(c)
	c.Note("strace_usable", strace)
	n := c.N(7, 28)
	Par(n, 4, func(ci int) {
		s, r := faultWorld(c, ci)
		e0, a0, out0 := s.env(1, false)
		defer e0.Close()
		ref := e0.Run(s.x.Wiki(), RunOpt{}, a0...)
		replay := map[string]any{"case": ci, "articles": s.x.Pages, "images": s.x.Imgs, "math": s.x.Math, "mode": s.mode}
		if !ref.Success() {
			c.Violate(fmt.Sprintf("F02:ref:%d", ci), "the fault-free run failed: "+ref.Brief(), replay)
			return
		}
		want := s.view(e0, ref, out0)
		snap := cacheSnap(e0)
		reqs, tools := faultPlan(ref)
		report := func(what, bad string, known bool) {
			if known {
				c.Violate(killedWhileProcessing, "an unprocessed image stays in the cache when the run is killed between download and processing ("+what+")", nil)
				c.Count("interrupted_image_processing", 1)
			}
			if bad != "" {
				c.Violate("F02:"+s.mode+":"+what, what+": "+bad, map[string]any{"scene": replay, "disturbance": what})
			}
		}
		type job func()
		var jobs []job
		// faults
		for _, q := range reqs {
			for _, f := range specs {
				if !f.applies(q) {
					continue
				}
				q, f := q, f
				jobs = append(jobs, func() {
					r := c.Rand("fault"+q.Ident()+f.Name, ci)
					e, args, out := s.env(pick(r, 1, 1, 6), false)
					defer e.Close()
					w := s.x.Wiki()
					w.FaultFn = faultAt(q.Ident(), 0, f.Mk(q))
					res := e.Run(w, RunOpt{}, args...)
					delivered := false
					for _, q := range res.Reqs {
						delivered = delivered || q.Fault != ""
					}
					if !delivered {
						return
					}
					threadsMany := strings.Contains(readFile(args[1]), `"worker-threads": 6`)
					bad, known := s.recovers(e, args, out, snap, want, threadsMany)
					report(q.Kind+": "+f.Name, bad, known)
					c.Case(fmt.Sprintf("%d/%s/%s", ci, q.Ident(), f.Name))
					c.Seen("disturbances", q.Kind+": "+f.Name)
				})
			}
		}
		jobs = sampleOf(r, jobs, c.N(60, 300))
		var tj []job
		for _, t := range tools {
			t := t
			tj = append(tj, func() {
				e, args, out := s.env(1, false)
				defer e.Close()
				e.Plan = []ToolRule{{Tool: t.Tool, Nth: t.Nth, Action: t.Action}}
				res := e.Run(s.x.Wiki(), RunOpt{}, args...)
				_ = res
				bad, known := s.recovers(e, args, out, snap, want, false)
				report(t.Tool+": "+t.Action, bad, known)
				c.Case(fmt.Sprintf("%d/%s/%d/%s", ci, t.Tool, t.Nth, t.Action))
				c.Seen("disturbances", t.Tool+": "+t.Action)
			})
		}
		jobs = append(jobs, sampleOf(r, tj, c.N(16, 0))...)
		// kills
		kill := func(what string, threads int, prep func(e *Env, w *Wiki, kill func()) func()) job {
			return func() {
				e, args, out := s.env(threads, false)
				defer e.Close()
				w := s.x.Wiki()
				var k func()
				var mu sync.Mutex
				fn := func() {
					mu.Lock()
					defer mu.Unlock()
					if k != nil {
						k()
					}
				}
				after := prep(e, w, fn)
				res := e.Run(w, RunOpt{KillAt: func(kill func()) {
					mu.Lock()
					k = kill
					mu.Unlock()
					if after != nil {
						go after()
					}
				}}, args...)
				if !res.Killed || res.Signal == "" {
					return
				}
				bad, known := s.recovers(e, args, out, snap, want, true)
				report("killed "+what, bad, known)
				c.Case(fmt.Sprintf("%d/killed/%s/%s", ci, what, hashs(fmt.Sprint(len(res.Reqs)), fmt.Sprint(len(res.Tools)))))
				c.Seen("disturbances", "killed "+strings.SplitN(what, "#", 2)[0])
				c.Count("kills", 1)
			}
		}
		var kj []job
		for i, q := range reqs {
			id := q.Ident()
			kj = append(kj, kill(fmt.Sprintf("on arrival of a %s request#%d", q.Kind, i), 1, func(e *Env, w *Wiki, kill func()) func() {
				w.Hook = func(q *Req) {
					if q.Ident() == id {
						kill()
					}
				}
				return nil
			}))
			if q.RespLen > 1 {
				kj = append(kj, kill(fmt.Sprintf("in the middle of a %s answer#%d", q.Kind, i), []int{1, 6}[i%2], func(e *Env, w *Wiki, kill func()) func() {
					w.FaultFn = faultAt(id, 1, &Fault{Kind: "half", Mid: func() { time.Sleep(60 * time.Millisecond); kill(); time.Sleep(20 * time.Millisecond) }})
					return nil
				}))
			}
			for _, us := range []int{300, 1500, 4000, 9000} {
				us := us + r.IntN(us)
				kj = append(kj, kill(fmt.Sprintf("%d us after a %s answer#%d", us, q.Kind, i), []int{1, 6}[i%2], func(e *Env, w *Wiki, kill func()) func() {
					w.Hook = func(q *Req) {
						if q.Ident() == id {
							go func() { time.Sleep(time.Duration(us) * time.Microsecond); kill() }()
						}
					}
					return nil
				}))
			}
		}
		cnt := map[string]int{}
		for i, t := range ref.Tools {
			cnt[t.Tool]++
			nth := cnt[t.Tool]
			for _, act := range []string{"sleep", "sleepmid", "sleepend"} {
				act, t := act, t
				kj = append(kj, kill(fmt.Sprintf("%s %s#%d", map[string]string{"sleep": "before the writing of", "sleepmid": "during the writing of", "sleepend": "after the writing of"}[act], t.Tool, i), 1, func(e *Env, w *Wiki, kill func()) func() {
					e.Plan = []ToolRule{{Tool: t.Tool, Nth: nth, Action: act, Ms: 3000}}
					return func() {
						for k := 0; k < 4000; k++ {
							if _, err := os.Stat(e.ToolLog + ".mark"); err == nil {
								kill()
								return
							}
							time.Sleep(time.Millisecond)
						}
					}
				}))
			}
		}
		for k := 0; k < c.N(10, 60); k++ {
			d := time.Duration(r.Int64N(int64(ref.Dur) + 1))
			kj = append(kj, kill(fmt.Sprintf("at a random time#%d", k), pick(r, 1, 4, 8), func(e *Env, w *Wiki, kill func()) func() {
				return func() { time.Sleep(d); kill() }
			}))
		}
		jobs = append(jobs, sampleOf(r, kj, c.N(70, 250))...)
		// probe of the known finding: killed while the processing tool works
		if ci == 0 {
			jobs = append(jobs, kill("before the writing of imgtool#probe", 1, func(e *Env, w *Wiki, kill func()) func() {
				e.Plan = []ToolRule{{Tool: "imgtool", Nth: 1, Action: "sleep", Ms: 8000}}
				return func() {
					for k := 0; k < 8000; k++ {
						if _, err := os.Stat(e.ToolLog + ".mark"); err == nil {
							kill()
							return
						}
						time.Sleep(time.Millisecond)
					}
				}
			}))
		}
		// kills when a file is put in place
		if strace && s.mode != "article" {
			var files []string
			for k := range snap {
				files = append(files, k)
			}
			sort.Strings(files)
			var sj []job
			for _, f := range files {
				for _, sys := range []string{"renameat,renameat2,rename", "openat", "unlinkat,unlink"} {
					f, sys := f, sys
					sj = append(sj, func() {
						e, args, out := s.env(pick(c.Rand("st"+f, ci), 1, 4), false)
						defer e.Close()
						e.Strace = []string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + sys, "-e", "inject=" + sys + ":signal=SIGKILL:when=1", "-P", filepath.Join(e.Cache, f)}
						res := e.Run(s.x.Wiki(), RunOpt{}, args...)
						e.Strace = nil
						if res.Success() || res.Signal == "" && res.Exit != 137 {
							return
						}
						bad, known := s.recovers(e, args, out, snap, want, true)
						what := "killed at " + strings.SplitN(sys, ",", 2)[0] + " of a file in " + filepath.Dir(f)
						report(what, bad, known)
						c.Case(fmt.Sprintf("%d/strace/%s/%s", ci, sys, f))
						c.Seen("disturbances", what)
						c.Count("kills", 1)
					})
				}
			}
			jobs = append(jobs, sampleOf(r, sj, c.N(16, 60))...)
		}
		// several kills in a row, then the healthy run
		for k := 0; k < c.N(3, 12); k++ {
			k := k
			jobs = append(jobs, func() {
				r := c.Rand("multi", ci*100+k)
				e, args, out := s.env(pick(r, 1, 4, 8), false)
				defer e.Close()
				kills := 0
				for i := 0; i < 4; i++ {
					d := time.Duration(r.Int64N(int64(ref.Dur) + 1))
					res := e.Run(s.x.Wiki(), RunOpt{KillAt: func(kill func()) { go func() { time.Sleep(d); kill() }() }}, args...)
					if res.Signal != "" {
						kills++
					}
				}
				if kills == 0 {
					return
				}
				bad, known := s.recovers(e, args, out, snap, want, true)
				report("killed several times", bad, known)
				c.Case(fmt.Sprintf("%d/multi/%d", ci, k))
				c.Seen("disturbances", "killed several times")
				c.Count("kills", int64(kills))
			})
		}
		for _, j := range jobs {
			if c.NViol() > 10 {
				return
			}
			j()
		}
	})
	storeSweep(c, "F02", fsKills, c.N(8, 40), c.N(60, 400))
	c.Sample(map[string]any{"compared_after_each_disturbance": []string{"converter arguments", "chapter documents", "image contents", "every cache file"}})
}

func readFile(p string) string { b, _ := os.ReadFile(p); return string(b) }

// straceWorks probes whether system calls of a process started here can be intercepted.
func straceWorks(c *Ctx) bool {
	e := c.NewEnv()
	defer e.Close()
	e.Strace = []string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=renameat", "-e", "inject=renameat:signal=SIGKILL:when=1", "-P", "/nonexistent"}
	res := e.Run(NewWiki(), RunOpt{}, "--version")
	return res.Success() && strings.Contains(res.Stdout+res.Stderr, "version")
}

// longWaits runs whole projects with waits longer than what is sensible to sleep for often, on the real clock.
func longWaits(c *Ctx) {
	waits := []int{7, 13, 22}
	if c.Thorough() {
		waits = []int{5, 9, 16, 31, 45, 61, 75, 125}
	}
	kinds := []string{"article", "image", "template", "math"}
	Par(len(waits)*2, 16, func(i int) {
		r := c.Rand("long", i)
		x := NewWorld(r, fmt.Sprintf("l%dx", i), worldOpt{Articles: 1, Images: 2, Tmpls: 2, Maths: 1, Share: 0.5})
		s := scene{c, x, "epub"}
		e, args, _ := s.env(1, false)
		defer e.Close()
		e.MayIdle = true
		w := x.Wiki()
		ref := e.Run(w, RunOpt{}, args...)
		if !ref.Success() || len(ref.Reqs) == 0 {
			c.Fail("H01 long waits: the fault-free run failed: %s", ref.Brief())
			return
		}
		t := ref.Reqs[r.IntN(len(ref.Reqs))]
		if l := kinds[i%len(kinds)]; true {
			for _, q := range ref.Reqs {
				if strings.Contains(q.Kind, l) {
					t = q
				}
			}
		}
		wait := waits[i/2]
		os.RemoveAll(e.Cache)
		must(os.MkdirAll(e.Cache, 0o755))
		n := 0
		var mu sync.Mutex
		w.FaultFn = func(q *Req) *Fault {
			mu.Lock()
			defer mu.Unlock()
			if q.Ident() != t.Ident() {
				return nil
			}
			n++
			if n > 1 {
				return nil
			}
			return &Fault{Kind: "429", Status: 429, Body: faultMark, Header: map[string]string{"Retry-After": itoa(wait)}}
		}
		res := e.Run(w, RunOpt{}, args...)
		var att []*Req
		for _, q := range res.Reqs {
			if q.Ident() == t.Ident() {
				att = append(att, q)
			}
		}
		what := fmt.Sprintf("%s answered with 429 and %d s", t.Kind, wait)
		replay := map[string]any{"articles": x.Pages, "request": t.URI, "wait": wait}
		switch {
		case !res.Success():
			c.Violate("H01:long:fail", what+": the run failed: "+res.Brief(), replay)
		case len(att) < 2:
			c.Violate("H01:long:repeat", what+": not repeated", replay)
		case att[1].Recv.Sub(att[0].Answer).Seconds() < float64(wait)-0.05:
			c.Violate("H01:long:wait", fmt.Sprintf("%s: repeated after %.2f s", what, att[1].Recv.Sub(att[0].Answer).Seconds()), replay)
		}
		c.Case(fmt.Sprintf("long/%s/%d", t.Ident(), wait))
		c.Count("long_real_waits", 1)
	})
}

// checkH01: rate limiting.
func checkH01(c *Ctx) {
	c.Rule = "small projects; 429 answers are injected at requests of every kind in sequences of 1-6 with announcements 0, 1, 2, none, garbage, padded or fractional numbers and with a body that must never be kept, sequentially (attempts compared field by field with their waits) and with several threads; also several kinds at once and 429 followed by another failure; long single waits on the real clock; besides, the real HTTP service in-process on a virtual clock (testing/synctest): GET and POST requests, alone and from several threads, through up to 130 answers with waits up to days; non-trivial: at least one 429 delivered; distinct: (project, request, sequence)"
	c.Assume = []string{"announcements below 2^63 ns (the platform's longest duration)", "waits are measured at the fake wiki as lower bounds on a real clock"}
	var bg sync.WaitGroup
	defer bg.Wait()
	bg.Add(2)
	go func() { defer bg.Done(); longWaits(c) }()
	go func() {
		defer bg.Done()
		virtualClock(c, "single", c.N(1500, 40000))
		virtualClock(c, "multi", c.N(400, 8000))
	}()
	n := c.N(8, 40)
	type ann struct {
		h    string
		has  bool
		wait float64
	}
	anns := []ann{{"1", true, 1}, {"0", true, 0}, {"", false, 2}, {"soon", true, 2}, {"2", true, 2}, {"1.5", true, 2}, {"Fri, 31 Dec 1999 23:59:59 GMT", true, 2}, {"", true, 2}, {"3", true, 3}}
	Par(n, 8, func(ci int) {
		r := c.Rand("world", ci)
		x := NewWorld(r, fmt.Sprintf("k%dx", ci), worldOpt{Articles: 2, Images: 3, Tmpls: 3, Maths: 2, Share: 0.5})
		s := scene{c, x, []string{"epub", "epub", "stats-json"}[ci%3]}
		e0, a0, out0 := s.env(1, false)
		defer e0.Close()
		ref := e0.Run(x.Wiki(), RunOpt{}, a0...)
		replay := map[string]any{"case": ci, "articles": x.Pages, "images": x.Imgs, "math": x.Math}
		if !ref.Success() {
			c.Violate(fmt.Sprintf("H01:ref:%d", ci), "the fault-free run failed: "+ref.Brief(), replay)
			return
		}
		want := s.view(e0, ref, out0)
		snap := cacheSnap(e0)
		reqs, _ := faultPlan(ref)
		byKind := map[string][]*Req{}
		for _, q := range reqs {
			byKind[q.Kind] = append(byKind[q.Kind], q)
		}
		var kinds []string
		for k := range byKind {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		var targets []*Req
		for _, k := range kinds {
			targets = append(targets, sampleOf(r, byKind[k], c.N(2, 4))...)
		}
		Par(len(targets)*2, 12, func(ti int) {
			if c.NViol() > 8 {
				return
			}
			r := c.Rand("seq", ci*1000+ti)
			t := targets[ti/2]
			many := ti%2 == 1
			var seq []ann
			k := 1 + r.IntN(3)
			if chance(r, 0.3) { // a long series without waiting
				for i := 0; i < 4+r.IntN(c.N(8, 40)); i++ {
					seq = append(seq, anns[1])
				}
				seq = append(seq, anns[r.IntN(len(anns))])
			} else {
				for i := 0; i < k; i++ {
					seq = append(seq, anns[r.IntN(len(anns))])
				}
			}
			threads := 1
			if many {
				threads = 6
			}
			e, args, out := s.env(threads, false)
			defer e.Close()
			w := x.Wiki()
			var mu sync.Mutex
			pos := map[string]int{}
			end := ""
			if chance(r, 0.15) {
				end = "500"
			}
			all := many && chance(r, 0.4) // every request of the kind is limited
			w.FaultFn = func(q *Req) *Fault {
				if q.Ident() != t.Ident() && !(all && q.Kind == t.Kind) {
					return nil
				}
				mu.Lock()
				defer mu.Unlock()
				i := pos[q.Ident()]
				pos[q.Ident()]++
				if i < len(seq) {
					f := &Fault{Kind: "429", Status: 429, Body: faultMark + " slow down"}
					if seq[i].has {
						f.Header = map[string]string{"Retry-After": seq[i].h}
					}
					return f
				}
				if end != "" {
					return &Fault{Kind: "status", Status: 500, Body: faultMark}
				}
				return nil
			}
			res := e.Run(w, RunOpt{}, args...)
			what := fmt.Sprintf("%s x%d, threads=%d", t.Kind, len(seq), threads)
			bad := ""
			// the attempts
			att := map[string][]*Req{}
			for _, q := range res.Reqs {
				att[q.Ident()] = append(att[q.Ident()], q)
			}
			n429 := 0
			for id, l := range att {
				for i, q := range l {
					if q.Fault != "429" {
						continue
					}
					n429++
					if i+1 >= len(l) {
						if many && end != "" {
							break // another request failed meanwhile, which ended the run
						}
						bad = fmt.Sprintf("%s was not repeated after answer %d (429)", id, i+1)
						break
					}
					p := l[i+1]
					if many { // attempts of different threads may be mixed
						continue
					}
					switch {
					case p.Method != q.Method || p.URI != q.URI || p.Host != q.Host || p.Body != q.Body:
						bad = fmt.Sprintf("repeated as %s %s %s %q instead of %s %s %s %q", p.Method, p.Host, p.URI, p.Body, q.Method, q.Host, q.URI, q.Body)
					case !reflect.DeepEqual(normHeader(p.Header), normHeader(q.Header)):
						bad = fmt.Sprintf("repeated with headers %v instead of %v", p.Header, q.Header)
					case p.Recv.Sub(q.Answer).Seconds() < seq[i].wait-0.05:
						bad = fmt.Sprintf("repeated after %.2f s, announced %q (expected at least %.0f s)", p.Recv.Sub(q.Answer).Seconds(), seq[i].h, seq[i].wait)
					}
				}
			}
			if !many && bad == "" && len(att[t.Ident()]) < len(seq)+1 {
				bad = fmt.Sprintf("only %d attempts after %d 429 answers", len(att[t.Ident()]), len(seq))
			}
			if bad == "" {
				if end == "" {
					if !res.Success() {
						bad = "the run failed: " + res.Brief()
					} else if bad = viewDiff(want, s.view(e, res, out)); bad == "" {
						now := cacheSnap(e)
						for k, v := range snap {
							if now[k] != v {
								bad = fmt.Sprintf("cache file %s is %q instead of %q", k, clip(now[k], 150), clip(v, 150))
							}
						}
					}
				} else if res.Success() || res.Claimed() {
					bad = "success although the request finally failed with status 500"
				}
			}
			for k, v := range cacheSnap(e) {
				if strings.Contains(v, faultMark) {
					bad = "the cache file " + k + " holds the body of a 429 answer"
				}
			}
			if bad != "" {
				c.Violate("H01:"+t.Kind+":"+clip(bad, 60), what+": "+bad, map[string]any{"scene": replay, "request": t.URI, "sequence": fmt.Sprint(seq), "end": end})
			}
			if n429 > 0 {
				c.Case(fmt.Sprintf("%d/%s/%v/%d/%s", ci, t.Ident(), seq, threads, end))
				c.Seen("kinds", t.Kind)
				c.Count("rate_limited_answers", int64(n429))
			} else {
				c.Case("")
			}
			if ci == 0 && ti == 0 {
				c.Sample(map[string]any{"request": t.Ident(), "announcements": fmt.Sprint(seq), "threads": threads, "attempts": len(att[t.Ident()])})
			}
		})
	})
}

func normHeader(h http.Header) http.Header {
	o := h.Clone()
	return o
}
