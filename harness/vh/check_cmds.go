package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// chapterView is everything a reader gets of one chapter, independent of the scratch directory.
func chapterView(e *Env, ch *ChapterObs) []string {
	norm := func(s string) string { return strings.ReplaceAll(s, e.Dir, "$DIR") }
	out := []string{norm(ch.Content)}
	var ks []string
	for k := range ch.Refs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, "image "+norm(k)+" = "+ch.Refs[k])
	}
	return out
}

// converterOptions are the options of a converter call which do not depend on the command.
func converterOptions(e *Env, t *ToolCall) []string {
	var out []string
	opts, _ := SplitPandocArgs(t.Args)
	for _, o := range opts {
		if o[0] != "--metadata" && o[0] != "-M" && o[0] != "-o" && o[0] != "--output" {
			out = append(out, strings.ReplaceAll(o[0]+" "+o[1], e.Dir, "$DIR"))
		}
	}
	sort.Strings(out)
	return out
}

// checkA01: the commands agree.
func checkA01(c *Ctx) {
	c.Rule = "projects of generated articles (all constructs, images, templates, formulas; titles with dots, quotes, ampersands, Unicode); every article is also rendered by the article command and from a file by the standalone command - on fresh caches, on the project's cache and twice in a row, at all logging levels, with and without diagnostics, from different working directories; the chapters, the files behind their images, the converter's options and the statistics are compared; non-trivial: all three commands handed a chapter to the converter; distinct: (article, variant)"
	c.Assume = []string{"wiki, image tools and converter are deterministic stand-ins", "titles are usable as file names"}
	n := c.N(48, 500)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		x := docScene(c, ci, "Doc %d %d", "St. Paul %d.%d", "Q&A & B; %d %d", "Élan „%d“ %d 日本", "\"Quoted\" ’%d’ %d", "Is it %d? No: %d", "100 %% of %d, %d!", "v%d.mediawiki %d", "A (%d) – [%d]")
		r := c.Rand("commands", ci)
		base := func(e *Env) Cfg {
			return x.Cfg(e.ToolCfg()).With("worker-threads", 1+ci%4, "toc-depth", ci%7, "svg-size-to-viewbox", ci%2 == 0)
		}
		replay := map[string]any{"case": ci, "pages": x.Pages}
		viol := func(kind, msg string) { c.Violate(fmt.Sprintf("A01:%s:%d", kind, ci), msg, replay) }
		e0 := c.NewEnv()
		defer e0.Close()
		ref := e0.Run(x.Wiki(), RunOpt{}, "project", e0.Project(base(e0), x.Titles))
		b0 := ref.Book()
		if !ref.Success() || b0 == nil || len(b0.Chapters) != len(x.Titles) {
			viol("project", "the project run failed: "+ref.Brief())
			return
		}
		w := x.Wiki()
		for k := 0; k < 2; k++ {
			ti := r.IntN(len(x.Titles))
			t := x.Titles[ti]
			want := chapterView(e0, &b0.Chapters[ti])
			for _, cmd := range []string{"article", "standalone", "project"} {
				e := c.NewEnv()
				conf := filepath.Join(e.Dir, "conf.json")
				writeJSON(conf, base(e))
				dir := filepath.Join(e.Dir, pick(r, "proj", "work dir", ".", "cache"))
				must(os.MkdirAll(dir, 0o755))
				reuse, force := "", false
				if dir != e.Cache && !strings.ContainsAny(t, `%<>:"/\|?*`) && chance(r, 0.2) { // an HTML file of an earlier run in the working directory
					d := dir
					if cmd == "project" {
						d = filepath.Join(e.Dir, "proj")
					}
					reuse = fmt.Sprintf("<html><body><h1>Earlier %d</h1></body></html>", ci)
					writeFile(filepath.Join(d, "html", t+".html"), reuse)
					force = chance(r, 0.5)
				}
				var args []string
				switch cmd {
				case "article":
					args = []string{"article", t, "-c", conf, "-o", e.Out}
				case "standalone":
					f := filepath.Join(e.Dir, "in put", t+pick(r, ".mediawiki", ".wiki", ".txt"))
					writeFile(f, x.Pages[t])
					if chance(r, 0.4) {
						f, _ = filepath.Rel(dir, f)
					}
					args = []string{"standalone", f, "-c", conf, "-o", e.Out}
				default:
					args = []string{"project", e.Project(base(e), []string{t})}
				}
				if force {
					args = append(args, pick(r, "-r", "--force-regenerate-html"))
				}
				level := pick(r, "", "debug", "trace", "info", "TRACE")
				if level != "" {
					args = append(args, pick(r, "-l", "--logging"), level)
				}
				if chance(r, 0.3) {
					args = append(args, pick(r, "--diagnostics-profiling", "--diagnostics-trace"))
				}
				prior := pick(r, "", "", "project", "other text")
				if reuse != "" || dir == e.Cache && prior == "other text" { // would be used again
					prior = ""
				}
				switch prior {
				case "project": // the whole book, on the same cache
					if res := e.Run(w, RunOpt{}, "project", e.Project(base(e), x.Titles)); !res.Success() {
						viol(cmd, "the project run failed: "+res.Brief())
						e.Close()
						return
					}
					if cmd == "project" {
						e.Project(base(e), []string{t})
					}
				case "other text": // an older state of the article
					f := filepath.Join(e.Dir, "older", t+".txt")
					writeFile(f, x.Pages[x.Titles[(ti+1)%len(x.Titles)]])
					if res := e.Run(w, RunOpt{Dir: dir}, "standalone", f, "-c", conf, "-r", "-o", e.Out); !res.Success() {
						viol(cmd, "the standalone run with another text failed: "+res.Brief())
						e.Close()
						return
					}
				}
				runs := 1 + r.IntN(2)
				for i := 0; i < runs; i++ {
					res := e.Run(w, RunOpt{Dir: dir}, args...)
					b := res.Book()
					if !res.Success() || b == nil {
						viol(cmd, fmt.Sprintf("run %d of the %s command failed: %s", i+1, cmd, res.Brief()))
						e.Close()
						return
					}
					if len(b.Chapters) != 1 || b.Chapters[0].Missing {
						viol(cmd, fmt.Sprintf("run %d of the %s command: the converter got no chapter: %q", i+1, cmd, b.Args))
						e.Close()
						return
					}
					if reuse != "" && !force {
						if !strings.Contains(b.Chapters[0].Content, "<h1>Earlier") {
							viol(cmd, fmt.Sprintf("the %s command does not use the HTML file of an earlier run in its working directory: %q", cmd, clip(b.Chapters[0].Content, 300)))
							e.Close()
							return
						}
						c.Count("chapters_reused", 1)
						continue
					}
					if d := viewDiff(want, chapterView(e, &b.Chapters[0])); d != "" {
						viol(cmd, fmt.Sprintf("the %s command (run %d, logging %q, earlier run: %q) yields another chapter of %q than the project: %s", cmd, i+1, level, prior, t, d))
						e.Close()
						return
					}
					if d := viewDiff(converterOptions(e0, b0), converterOptions(e, b)); d != "" {
						viol(cmd, fmt.Sprintf("the %s command passes other options to the converter than the project: %s", cmd, d))
						e.Close()
						return
					}
					c.Case(fmt.Sprintf("%d %s %s %d %s %s", ci, t, cmd, i, level, prior))
					c.Count("chapters_compared_"+cmd, 1)
				}
				e.Close()
			}
		}
		// statistics
		t := x.Titles[r.IntN(len(x.Titles))]
		typ := pick(r, "stats-json", "stats-txt")
		var got [2]string
		for i, cmd := range []string{"article", "project"} {
			e := c.NewEnv()
			out := filepath.Join(e.OutDir, "s."+strings.TrimPrefix(typ, "stats-"))
			cfg := base(e).With("output-type", typ, "output-driver", "internal")
			conf := filepath.Join(e.Dir, "conf.json")
			writeJSON(conf, cfg)
			args := []string{"project", e.Project(cfg, []string{t}), "-o", out}
			if cmd == "article" {
				args = []string{"article", t, "-c", conf, "-o", out, "-l", pick(r, "info", "debug", "trace")}
			}
			res := e.Run(w, RunOpt{}, args...)
			s, err := os.ReadFile(out)
			e.Close()
			if !res.Success() || err != nil || len(s) == 0 {
				viol("stats", fmt.Sprintf("no statistics (%v): %s", err, res.Brief()))
				return
			}
			got[i] = string(s)
		}
		if got[0] != got[1] {
			viol("stats", fmt.Sprintf("the statistics of the article command differ from those of the project: %q, %q", clip(got[0], 300), clip(got[1], 300)))
			return
		}
		c.Case(fmt.Sprintf("%d %s %s", ci, t, typ))
		c.Count("statistics_compared", 1)
		if ci < 3 {
			c.Sample(map[string]any{"articles": x.Titles, "article": t, "statistics": clip(got[0], 200)})
		}
	})
}

// checkW01: a run writes its output where it was told to and changes nothing but its cache and its output.
func checkW01(c *Ctx) {
	c.Rule = "runs of all commands and output types with the output given on the command line or in the project, absolute or relative, as a new file, an old file, a folder, in missing folders, with the wrong ending or not at all; with cache directories given absolutely, relatively or not at all, inside and beside the project; also failing runs; the whole scratch tree (project, configuration, styles, fonts, wikitext files, foreign files in and beside the cache) is compared before and after; non-trivial: the output was found at the requested place with the content of this run; distinct: (command, type, output variant, cache variant, outcome)"
	c.Assume = []string{"the converter writes exactly its output file (stand-in)", "the whole world of a run is below one scratch directory; writes to fixed system paths would not be seen"}
	n := c.N(320, 6000)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("where", ci)
		e := c.NewEnv()
		defer e.Close()
		os.RemoveAll(e.Cache)
		os.RemoveAll(e.OutDir)
		x := NewWorld(r, fmt.Sprintf("o%dx", ci), worldOpt{Articles: 1 + r.IntN(3), Images: r.IntN(3), Tmpls: 2, Maths: 1, Share: 0.5})
		cmd := []string{"project", "article", "standalone"}[ci%3]
		typ := pick(r, "epub2", "epub3", "stats-json", "stats-txt")
		if cmd == "standalone" {
			typ = pick(r, "epub2", "epub3")
		}
		driver := "pandoc"
		if strings.HasPrefix(typ, "stats") || typ == "epub3" && chance(r, 0.4) {
			driver = "internal"
		}
		proj := filepath.Join(e.Dir, "proj")
		cwd := pick(r, filepath.Join(e.Dir, "here"), proj, filepath.Join(e.Dir, "elsewhere"))
		must(os.MkdirAll(cwd, 0o755))
		home := cwd // where relative paths of the command line and default names belong
		fileDir := cwd
		if cmd == "project" {
			fileDir = proj
		}
		// the cache
		cfg := x.Cfg(e.ToolCfg()).With("output-type", typ, "output-driver", driver, "worker-threads", 1+r.IntN(4))
		confDir := filepath.Join(e.Dir, "conf")
		cacheDir := filepath.Join(e.Dir, "home", "xcache", "wiki2book")
		cv := pick(r, "default", "absolute", "relative", "in the project", "the working directory")
		switch cv {
		case "default":
			delete(cfg, "cache-dir")
		case "absolute":
			cacheDir = filepath.Join(e.Dir, "some cache", "x")
			cfg["cache-dir"] = cacheDir
		case "relative":
			cfg["cache-dir"] = "../rel cache"
			cacheDir = filepath.Join(e.Dir, "rel cache")
		case "in the project":
			cacheDir = filepath.Join(proj, ".wiki2book")
			cfg["cache-dir"] = cacheDir
		case "the working directory":
			cacheDir = filepath.Join(cwd, "c")
			cfg["cache-dir"] = cacheDir
		}
		// the output
		ext := map[string]string{"epub2": "epub", "epub3": "epub", "stats-json": "json", "stats-txt": "txt"}[typ]
		def := map[string]string{"epub2": "ebook.epub", "epub3": "ebook.epub", "stats-json": "stats.json", "stats-txt": "stats.txt"}[typ]
		ov := pick(r, "absolute", "relative", "deep", "old", "folder", "none", "other ending")
		inProject := cmd == "project" && chance(r, 0.5)
		rel := pick(r, "book."+ext, "my book."+ext, "../beside."+ext)
		outRoot := home
		if inProject {
			outRoot = fileDir
		}
		given, want := "", ""
		switch ov {
		case "absolute":
			given = filepath.Join(e.Dir, "out put", "b."+ext)
			want = given
		case "relative":
			given = rel
			want = filepath.Join(outRoot, rel)
		case "deep":
			given = filepath.Join("a", "b c", "d."+ext)
			want = filepath.Join(outRoot, given)
		case "old":
			given = rel
			want = filepath.Join(outRoot, rel)
			writeFile(want, "old content")
		case "folder":
			given = pick(r, "fol der", "../fold", filepath.Join(e.Dir, "abs fold"))
			d := given
			if !filepath.IsAbs(d) {
				d = filepath.Join(outRoot, d)
			}
			must(os.MkdirAll(d, 0o755))
			want = filepath.Join(d, def)
		case "none":
			want = filepath.Join(fileDir, def)
		case "other ending":
			given = "book.dat"
			want = filepath.Join(outRoot, given)
			if strings.HasPrefix(typ, "stats") { // replaced by the default, with a notice
				want = filepath.Join(fileDir, def)
			}
		}
		// files which must stay
		for _, f := range []string{"proj/notes.txt", "proj/html/keep.html", "elsewhere/keep.txt", "images/x.png", "here/images/x.png", "here/.tmp/y", "here/html/z.html", "proj/.tmp/y", "conf/z", "conf/style.css", "conf/font.ttf", "out put/other." + ext, "home/keep"} {
			writeFile(filepath.Join(e.Dir, f), "keep "+f)
		}
		writeFile(filepath.Join(filepath.Dir(cacheDir), "beside the cache.txt"), "keep")
		writeFile(filepath.Join(cacheDir, "foreign file.txt"), "keep")
		writeFile(filepath.Join(cacheDir, "notes", "foreign.txt"), "keep")
		if chance(r, 0.5) {
			cfg["style-file"], cfg["font-files"], cfg["cover-image"] = filepath.Join(confDir, "style.css"), []string{filepath.Join(confDir, "font.ttf")}, filepath.Join(e.Dir, "images/x.png")
		}
		titles := x.Titles
		if cmd != "project" {
			titles = titles[:1]
		}
		fail := chance(r, 0.2)
		var args []string
		if inProject {
			if given != "" {
				cfg["output-file"] = given
			}
		}
		switch cmd {
		case "project":
			p := cfg.With("articles", titles, "metadata", map[string]string{"title": "T"})
			if fail {
				p["articles"] = append(append([]string{}, titles...), "Missing article")
			}
			f := filepath.Join(proj, "book.json")
			writeJSON(f, p)
			if chance(r, 0.5) {
				f, _ = filepath.Rel(cwd, f)
			}
			args = []string{"project", f}
		default:
			f := filepath.Join(confDir, "c.json")
			if cv == "relative" {
				// relative to the configuration file
				cacheDir = filepath.Join(e.Dir, "rel cache")
			}
			writeJSON(f, cfg)
			args = []string{cmd, titles[0], "-c", f}
			if cmd == "article" && fail {
				args[1] = "Missing article"
			}
			if cmd == "standalone" {
				text := x.Pages[titles[0]]
				if fail {
					text += "\n[[File:Missing picture.png|thumb|x]]\n"
				}
				args[1] = writeFile(filepath.Join(e.Dir, "texts", "My text.mediawiki"), text)
			}
		}
		if given != "" && !inProject {
			args = append(args, pick(r, "-o", "--output"), given)
		}
		diag := ""
		if chance(r, 0.15) {
			diag = pick(r, "profiling", "trace")
			args = append(args, "--diagnostics-"+diag)
		}
		before := Snapshot(e.Dir)
		w := x.Wiki()
		w.DelayFn = delays(r.IntN(4), uint64(ci))
		res := e.Run(w, RunOpt{Dir: cwd}, args...)
		after := Snapshot(e.Dir)
		replay := map[string]any{"case": ci, "config": cfg, "args": args, "working directory": cwd, "expected output": want}
		viol := func(kind, msg string) { c.Violate("W01:"+kind, msg, replay) }
		relOf := func(p string) string { s, _ := filepath.Rel(e.Dir, p); return s }
		out, cache := relOf(want), relOf(cacheDir)
		if fail == res.Success() {
			viol("exit", fmt.Sprintf("unexpected outcome of a run which should succeed=%v: %s", !fail, res.Brief()))
			return
		}
		var changed []string
		for f, b := range after {
			if a, ok := before[f]; !ok || a != b {
				changed = append(changed, f)
			}
		}
		for f := range before {
			if _, ok := after[f]; !ok {
				changed = append(changed, f)
			}
		}
		sort.Strings(changed)
		sub := map[string]bool{"articles": true, "html": true, "stats": true, "images": true, "math": true, "templates": true, ".tmp": true}
		for _, f := range changed {
			if in, ok := strings.CutPrefix(f, cache+"/"); ok {
				d, _, deep := strings.Cut(in, "/")
				if deep && sub[d] {
					continue
				}
			}
			if f == out || strings.HasPrefix(f, "tool.log") || diag != "" && f == relOf(filepath.Join(cwd, map[string]string{"profiling": "profiling.prof", "trace": "trace.out"}[diag])) {
				continue
			}
			kind := "changed"
			if _, ok := before[f]; !ok {
				kind = "created"
			} else if _, ok := after[f]; !ok {
				kind = "removed"
			}
			viol(kind, fmt.Sprintf("the %s run %s %s, which is neither in its cache (%s) nor its output (%s)", cmd, kind, f, cache, out))
			return
		}
		if old, ok := before[out]; ok && fail && after[out] != old {
			viol("failed", fmt.Sprintf("the failing %s run changed the older output %s", cmd, out))
			return
		}
		if !fail {
			got, ok := after[out]
			good := ok && got != "" && got != before[out]
			if good && typ == "stats-json" {
				good = json.Valid([]byte(got))
			}
			if !good {
				viol("output", fmt.Sprintf("the output of the %s run (%s, output %s) is not at %s (%d bytes, existed before: %v): %s", cmd, typ, ov, out, len(got), before[out] != "", res.Brief()))
				return
			}
			if _, err := os.Stat(filepath.Join(cacheDir, ".tmp")); err == nil {
				viol("temporary", "temporary files were left behind in "+cache+"/.tmp")
				return
			}
			if !strings.Contains(res.Stdout+res.Stderr, "'"+want+"'") {
				viol("message", fmt.Sprintf("the success message does not name the output %q: %s", want, res.Brief()))
				return
			}
		}
		c.Case(fmt.Sprintf("%s %s %s %s %v %v", cmd, typ, ov, cv, fail, inProject))
		c.Count("runs_"+cmd, 1)
		c.Count("files_watched", int64(len(before)))
		if fail {
			c.Count("failing_runs", 1)
		}
		if ci < 3 {
			c.Sample(map[string]any{"args": args, "changed": changed})
		}
	})
}

func init() {
	register("A01", "exploration", checkA01)
	register("W01", "exploration", checkW01)
}
