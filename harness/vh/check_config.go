package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

func init() {
	register("G01", "exploration", checkG01)
	register("G02", "exploration", checkG02)
	register("G03", "exploration", checkG03)
}

// option describes one configuration option.
type option struct {
	Key  string
	Def  any
	Vals []any
}

const tmplIO = " --in {INPUT} --out {OUTPUT}"

func strs(s ...string) []string { return s }

// options are all options with their documented defaults and some other valid values.
func options(e *Env) []option {
	f := func(n string) string { return writeFile(filepath.Join(e.Dir, "files", n), "content "+n) }
	dir := func(n string) string {
		p := filepath.Join(e.Dir, "dirs", n)
		must(os.MkdirAll(p, 0o755))
		return p
	}
	exe := func(n string) string {
		p := filepath.Join(e.Dir, n, "pandoc")
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		os.Symlink(e.c.Self, p)
		return p
	}
	style, mathT := "", "rsvg-convert -o {OUTPUT} {INPUT}"
	if _, err := os.Stat("/usr/share/wiki2book/style.css"); err == nil {
		style = "/usr/share/wiki2book/style.css"
	}
	if _, err := os.Stat("/usr/share/wiki2book/rsvg-math.css"); err == nil {
		mathT = "rsvg-convert -s /usr/share/wiki2book/rsvg-math.css -o {OUTPUT} {INPUT}"
	}
	lists := func(l ...[]string) []any {
		var out []any
		for _, x := range l {
			out = append(out, x)
		}
		return out
	}
	return []option{
		{"force-regenerate-html", false, []any{true}},
		{"svg-size-to-viewbox", false, []any{true}},
		{"output-type", "epub2", []any{"epub3", "stats-json", "stats-txt"}},
		{"output-driver", "pandoc", []any{"internal"}},
		{"cache-dir", filepath.Join(e.Dir, "home", "xcache", "wiki2book"), []any{filepath.Join(e.Dir, "c1"), filepath.Join(e.Dir, "c 2"), filepath.Join(e.Dir, "c3", "deep")}},
		{"cache-max-size", 100000000.0, []any{50000000.0, 77777777.0, 9000000000.0, 99999999.0, 100000001.0, 4096.0}},
		{"cache-max-age", 40320.0, []any{5.0, 1000.0, 99999.0, 1440.0, 2500.0, 20000.0, 40319.0, 40321.0}},
		{"cache-eviction-strategy", "lru", []any{"largest", "none"}},
		{"style-file", style, []any{f("s1.css"), f("s 2.css"), f("s3.css")}},
		{"cover-image", "", []any{f("c1.png"), f("c2.png"), f("c3.png")}},
		{"command-template-svg-to-png", "rsvg-convert -o {OUTPUT} {INPUT}", []any{"", "convtool svgA" + tmplIO, "convtool svgB" + tmplIO, "convtool svgC" + tmplIO}},
		{"command-template-math-svg-to-png", mathT, []any{"convtool mathA" + tmplIO, "convtool mathB" + tmplIO, "convtool mathC" + tmplIO}},
		{"command-template-image-processing", "magick {INPUT} -resize 600x600> -quality 75 -define PNG:compression-level=9 -define PNG:compression-filter=0 -colorspace gray {OUTPUT}", []any{"", "imgtool procA" + tmplIO, "imgtool procB" + tmplIO, "imgtool procC" + tmplIO}},
		{"command-template-pdf-to-png", "magick -density 300 {INPUT} {OUTPUT}", []any{"", "convtool pdfA" + tmplIO, "convtool pdfB" + tmplIO}},
		{"command-template-webp-to-png", "magick {INPUT} {OUTPUT}", []any{"", "convtool webpA" + tmplIO, "convtool webpB" + tmplIO, "convtool webpC" + tmplIO}},
		{"pandoc-executable", "pandoc", []any{exe("p1"), exe("p 2"), exe("p3")}},
		{"pandoc-data-dir", "", []any{dir("d1"), dir("d2"), dir("d 3")}},
		{"font-files", strs(), lists(strs(f("f1.ttf")), strs(f("f2.ttf"), f("f1.ttf")), strs(f("f3,x.ttf"), f("f3,x.ttf"), f("f 4.ttf")))},
		{"ignored-templates", strs(), lists(strs("foo"), strs("bar", "foo"), strs("a,b", " x ", "baz", "baz"))},
		{"trailing-templates", strs(), lists(strs("foo"), strs("bar", "foo"), strs("x,y"))},
		{"ignored-image-params", strs(), lists(strs("alt"), strs("center", "alt"), strs("q,r", "alt", "alt"))},
		{"ignored-media-types", strs("gif", "mp3", "mp4", "pdf", "oga", "ogg", "ogv", "wav", "webm"), lists(strs("gif"), strs(), strs("mp4", "mp3"), strs("xyz", "pdf", "xyz"), strs("webm", "wav", "ogv", "ogg", "oga", "pdf", "mp4", "mp3", "gif"))},
		{"wikipedia-instance", "en", []any{"de", "fr", "simple"}},
		{"wikipedia-host", "wikipedia.org", []any{"wiki.test", "my-wiki.example.net", "w3.org"}},
		{"wikipedia-image-host", "upload.wikimedia.org", []any{"img.test", "pics.example.net", "upload2.wikimedia.org"}},
		{"wikipedia-math-rest-api", "https://wikimedia.org/api/rest_v1/media/math", []any{"https://math.test/api", "https://m2.test/x/y/math", "https://wikimedia.org/other"}},
		{"wikipedia-image-article-hosts", strs("commons.wikimedia.org", "en.wikipedia.org"), lists(strs("files.wikitest.org"), strs("en.wikipedia.org", "commons.wikimedia.org"), strs("a.wikitest.org", "b.wikitest.org", "files.wikitest.org"))},
		{"file-prefixes", strs("file", "image", "media"), lists(strs("file", "datei"), strs("media", "image", "file"), strs("file"))},
		{"allowed-link-prefixes", strs("arxiv", "doi"), lists(strs("doi", "arxiv"), strs(), strs("x"), strs("arxiv", "doi", "doi"))},
		{"category-prefixes", strs("category"), lists(strs("kategorie"), strs(), strs("category", "kategorie"), strs("a", "b"))},
		{"math-converter", "wikimedia", []any{"none", "template"}},
		{"toc-depth", 2.0, []any{0.0, 1.0, 3.0, 4.0, 5.0, 6.0}},
		{"worker-threads", 5.0, []any{1.0, 2.0, 3.0, 4.0, 6.0, 9.0, 40.0}},
		{"user-agent-template", "wiki2book {{VERSION}} (https://github.com/hauke96/wiki2book)", []any{"agent A/1", "B (x; y) {{V}}", "c"}},
	}
}

// cliArgs renders an option for the command line.
func cliArgs(r *rand.Rand, key string, v any) []string {
	switch x := v.(type) {
	case bool:
		if x && chance(r, 0.5) {
			return []string{"--" + key}
		}
		return []string{fmt.Sprintf("--%s=%v", key, x)}
	case []string:
		var out []string
		for _, s := range x {
			if chance(r, 0.5) {
				out = append(out, "--"+key+"="+s)
			} else {
				out = append(out, "--"+key, s)
			}
		}
		return out
	case float64:
		return []string{"--" + key, fmt.Sprintf("%.0f", x)}
	}
	if chance(r, 0.5) {
		return []string{"--" + key + "=" + v.(string)}
	}
	return []string{"--" + key, v.(string)}
}

func optEq(a, b any) bool {
	la, ok1 := a.([]string)
	lb, ok2 := b.([]string)
	if ok1 && ok2 {
		return strings.Join(la, "\x00") == strings.Join(lb, "\x00") && len(la) == len(lb)
	}
	return reflect.DeepEqual(a, b)
}

var typeDriver = map[string]bool{"epub2 pandoc": true, "epub3 pandoc": true, "epub3 internal": true, "stats-json internal": true, "stats-txt internal": true}

// effective parses the configuration the program prints with the log level debug.
func effective(out string) map[string]any {
	i := strings.Index(out, "Configuration:\n")
	if i < 0 {
		return nil
	}
	m := map[string]any{}
	if json.NewDecoder(strings.NewReader(out[i+len("Configuration:\n"):])).Decode(&m) != nil {
		return nil
	}
	for k, v := range m {
		if l, ok := v.([]any); ok {
			s := []string{}
			for _, x := range l {
				s = append(s, fmt.Sprint(x))
			}
			m[k] = s
		}
		if v == nil {
			m[k] = []string{}
		}
	}
	return m
}

// effects compares what the run did with the expected configuration.
func effects(e *Env, w *Wiki, res *Result, want map[string]any, img map[string]string) string {
	wantHost := want["wikipedia-instance"].(string) + "." + want["wikipedia-host"].(string)
	ua := want["user-agent-template"].(string)
	files := map[string][]string{}
	kinds := map[string]int{}
	for _, q := range res.Reqs {
		if q.Problem != "" {
			return "request " + q.Host + q.URI + ": " + q.Problem
		}
		kinds[q.Kind]++
		if (q.Kind == "article" || q.Kind == "template") && q.Host != wantHost {
			return q.Kind + " requested from " + q.Host + " instead of " + wantHost
		}
		got := q.Header.Get("User-Agent")
		if strings.Contains(ua, "{{VERSION}}") {
			a, b, _ := strings.Cut(ua, "{{VERSION}}")
			if !strings.HasPrefix(got, a) || !strings.HasSuffix(got, b) {
				return "user agent " + got
			}
		} else if got != ua {
			return "user agent " + got + " instead of " + ua
		}
		if q.Kind == "file" {
			files[q.Key] = append(files[q.Key], q.Host)
		}
		if q.Kind == "template" {
			for _, t := range want["ignored-templates"].([]string) {
				trailing := strings.Contains("\x00"+strings.Join(want["trailing-templates"].([]string), "\x00")+"\x00", "\x00"+t+"\x00") // both lists: unspecified
				if strings.HasPrefix(q.Key, "{{"+t) && !trailing {
					return "ignored template requested: " + q.Key
				}
			}
		}
	}
	for k, hs := range files {
		if !optEq(hs, want["wikipedia-image-article-hosts"]) {
			return fmt.Sprintf("%s searched at %q instead of %q", k, hs, want["wikipedia-image-article-hosts"])
		}
	}
	if len(files) != len(img) {
		return fmt.Sprintf("%d images requested instead of %d", len(files), len(img))
	}
	mc := want["math-converter"]
	if kinds["texcheck"] != 0 && (kinds["mathpng"] > 0) != (mc == "wikimedia") {
		return fmt.Sprintf("%d PNG renderings requested with the math converter %v", kinds["mathpng"], mc)
	}
	// tools
	for kind, key := range map[string]string{"svg": "command-template-svg-to-png", "webp": "command-template-webp-to-png", "png": "command-template-image-processing", "math": "command-template-math-svg-to-png"} {
		t := want[key].(string)
		n := 0
		for _, call := range res.Tools {
			if call.Tool == "pandoc" || kind != "png" && call.In == call.Out {
				continue
			}
			hit := kind != "math" && strings.HasSuffix(call.In, "/"+img[kind]) || kind == "math" && len(filepath.Base(call.In)) == 44
			if !hit {
				continue
			}
			n++
			line := call.Tool + " " + strings.Join(call.Args, " ")
			exp := strings.NewReplacer("{INPUT}", call.In, "{OUTPUT}", call.Out).Replace(t)
			if t == "" || line != exp {
				return fmt.Sprintf("the command for %s was %q instead of %q", kind, line, exp)
			}
		}
		exp := 1
		if t == "" || kind == "math" && (mc != "template" || kinds["texcheck"] == 0) {
			exp = 0
		}
		if n != exp {
			return fmt.Sprintf("%d tool calls for %s instead of %d (%s)", n, kind, exp, t)
		}
	}
	if fs, _ := os.ReadDir(filepath.Join(want["cache-dir"].(string), "articles")); len(fs) == 0 {
		return "nothing was stored in the cache directory " + want["cache-dir"].(string)
	}
	b := res.Book()
	if want["output-driver"] != "pandoc" {
		if b != nil {
			return "the converter was called with the internal driver"
		}
		return ""
	}
	if b == nil {
		return "the converter was not called"
	}
	if b.Exe != want["pandoc-executable"] {
		return "the converter is " + b.Exe
	}
	opts, _ := SplitPandocArgs(b.Args)
	got := map[string][]string{}
	for _, o := range opts {
		got[o[0]] = append(got[o[0]], o[1])
	}
	for _, x := range [][2]string{{"-t", "output-type"}, {"--css", "style-file"}, {"--epub-cover-image", "cover-image"}, {"--data-dir", "pandoc-data-dir"}, {"--epub-embed-font", "font-files"}, {"--toc-depth", "toc-depth"}} {
		exp := []string{}
		switch v := want[x[1]].(type) {
		case string:
			if v != "" {
				exp = []string{v}
			}
		case []string:
			exp = v
		case float64:
			if v > 0 {
				exp = []string{fmt.Sprintf("%.0f", v)}
			}
		}
		if !optEq(exp, append([]string{}, got[x[0]]...)) {
			return fmt.Sprintf("the converter got %s %q instead of %q", x[0], got[x[0]], exp)
		}
	}
	return ""
}

// checkG01: precedence of the sources.
func checkG01(c *Ctx) {
	c.Rule = "every option alone with all subsets of {config file, project file, command line} holding distinct values or the default, then random assignments of all options at once (lists with commas, blanks, repeated elements); the complete effective configuration printed by the program and its effects (requests, user agent, tool commands, converter arguments, cache directory) are compared with the expected one; distinct: (assignment)"
	c.Assume = []string{"the effective configuration printed with -l debug is compared where it is printed, effects are compared in any case"}
	type asg map[string]any
	type kase struct{ conf, proj, cli asg }
	mk := func(i int, r *rand.Rand, os []option) kase {
		k := kase{asg{}, asg{}, asg{}}
		single := len(os) * 10
		if i < single {
			o, m := os[i/10], i%10
			v := func(j int) any { return o.Vals[(j+i)%len(o.Vals)] }
			if m&1 != 0 {
				k.conf[o.Key] = v(0)
			}
			if m&2 != 0 {
				k.proj[o.Key] = v(1)
			}
			if m&4 != 0 {
				k.cli[o.Key] = v(2)
			}
			switch m {
			case 0:
				k.conf[o.Key], k.proj[o.Key] = v(0), o.Def
			case 8:
				k.proj[o.Key], k.cli[o.Key] = v(0), o.Def
			case 9:
				k.conf[o.Key], k.proj[o.Key], k.cli[o.Key] = v(0), o.Def, o.Def
			}
		} else {
			p := pick(r, 0.1, 0.4, 0.9)
			for _, o := range os {
				for _, s := range []asg{k.conf, k.proj, k.cli} {
					if chance(r, p) {
						if chance(r, 0.15) {
							s[o.Key] = o.Def
						} else {
							s[o.Key] = o.Vals[r.IntN(len(o.Vals))]
						}
					}
				}
			}
		}
		for s := range k.cli {
			if l, ok := k.cli[s].([]string); ok && len(l) == 0 {
				delete(k.cli, s)
			}
		}
		return k
	}
	probe := c.NewEnv()
	nopt := len(options(probe))
	probe.Close()
	n := nopt*10 + c.N(600, 12000)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("prec", ci)
		e := c.NewEnv()
		defer e.Close()
		os_ := options(e)
		k := mk(ci, r, os_)
		article := ci >= nopt*10 && chance(r, 0.2)
		if article {
			k.proj = asg{}
		}
		def := map[string]any{}
		for _, o := range os_ {
			def[o.Key] = o.Def
		}
		merge := func(upto int) map[string]any {
			m := map[string]any{}
			for _, o := range os_ {
				m[o.Key] = o.Def
				if v, ok := k.conf[o.Key]; ok {
					m[o.Key] = v
				}
				for j, s := range []asg{k.proj, k.cli} {
					if v, ok := s[o.Key]; ok && !optEq(v, o.Def) && j < upto {
						m[o.Key] = v
					}
				}
			}
			return m
		}
		// the configuration has to be valid after each source
		for upto := 0; upto < 3; upto++ {
			m := merge(upto)
			if !typeDriver[m["output-type"].(string)+" "+m["output-driver"].(string)] {
				for _, s := range []asg{k.conf, k.proj, k.cli} {
					delete(s, "output-type")
					delete(s, "output-driver")
				}
				if v := pick(r, "epub3", "stats-json", "stats-txt"); chance(r, 0.7) { // both from the same source
					s := []asg{k.conf, k.proj, k.cli}[r.IntN(3)]
					if !article || r.IntN(3) != 1 {
						s["output-type"], s["output-driver"] = v, "internal"
					}
				}
				if article {
					k.proj = asg{}
				}
			}
		}
		want := merge(2)
		w := NewWiki()
		hosts := want["wikipedia-image-article-hosts"].([]string)
		last := hosts[len(hosts)-1]
		ah := want["wikipedia-instance"].(string) + "." + want["wikipedia-host"].(string)
		w.ArticleHosts = map[string]bool{ah: true}
		for _, h := range hosts {
			w.ArticleHosts[h] = true
		}
		w.ImageHost = want["wikipedia-image-host"].(string)
		mu, _ := strings.CutPrefix(want["wikipedia-math-rest-api"].(string), "https://")
		mh, mp, _ := strings.Cut(mu, "/")
		w.MathHost, w.MathPath = mh, "/"+mp
		img := map[string]string{"png": fmt.Sprintf("P%d.png", ci), "svg": fmt.Sprintf("S%d.svg", ci), "webp": fmt.Sprintf("W%d.webp", ci)}
		w.AddPage(ah, "Art", "Text "+"[[File:"+img["png"]+"|20px]] [[File:"+img["svg"]+"|20px]] [[File:"+img["webp"]+"|20px]] {{foo}} {{bar}} {{baz}} <math>x</math>\n")
		for kind, nm := range img {
			body := "data " + nm
			if kind == "png" {
				body = string(tinyPNG)
			}
			w.AddImage(last, nm, []byte(body))
		}
		w.Expand = func(s string) string { return "T" }
		out := filepath.Join(e.Dir, "out", "o."+map[string]string{"stats-json": "json", "stats-txt": "txt"}[want["output-type"].(string)])
		var args []string
		cfgPath := filepath.Join(e.Dir, "conf.json")
		writeJSON(cfgPath, k.conf)
		var co []string
		for _, o := range os_ {
			if v, ok := k.cli[o.Key]; ok {
				co = append(co, o.Key)
				_ = v
			}
		}
		r.Shuffle(len(co), func(i, j int) { co[i], co[j] = co[j], co[i] })
		if article {
			args = []string{"article", "Art", "-o", out}
		} else {
			cfg := Cfg{"output-file": out}
			for kk, v := range k.proj {
				cfg[kk] = v
			}
			args = []string{"project", e.Project(cfg, []string{"Art"})}
		}
		if len(k.conf) > 0 || chance(r, 0.5) {
			args = append(args, "-c", cfgPath)
		}
		for _, o := range co {
			args = append(args, cliArgs(r, o, k.cli[o])...)
		}
		args = append(args, "-l", "debug")
		if chance(r, 0.5) { // options before the command
			args = append(append([]string{}, args[2:]...), args[:2]...)
		}
		res := e.Run(w, RunOpt{}, args...)
		replay := map[string]any{"case": ci, "config_file": k.conf, "project_file": k.proj, "command_line": args, "expected": want}
		viol := func(kind, msg string) { c.Violate("G01:"+kind, msg, replay) }
		got := effective(res.Stdout + res.Stderr)
		if got != nil {
			c.Count("printed_configurations", 1)
			for _, o := range os_ {
				g, ok := got[o.Key]
				if ok && !optEq(g, want[o.Key]) {
					viol("value of "+o.Key, fmt.Sprintf("%s is %q instead of %q (config file %q, project file %q, command line %q)", o.Key, g, want[o.Key], k.conf[o.Key], k.proj[o.Key], k.cli[o.Key]))
					return
				}
			}
			for kk := range got {
				if _, ok := want[kk]; !ok {
					c.Seen("options_without_check", kk)
				}
			}
		}
		if !res.Success() {
			viol("failed", "the run failed: "+res.Brief())
			return
		}
		if msg := effects(e, w, res, want, img); msg != "" {
			viol("effect", msg)
			return
		}
		var ks []string
		for _, s := range []asg{k.conf, k.proj, k.cli} {
			b, _ := json.Marshal(s)
			ks = append(ks, strings.ReplaceAll(string(b), e.Dir, "$D"))
		}
		c.Case(strings.Join(ks, "|"))
		for _, o := range os_ {
			src := ""
			for j, s := range []asg{k.conf, k.proj, k.cli} {
				if _, ok := s[o.Key]; ok {
					src += string("fpc"[j])
				}
			}
			if src != "" {
				c.Seen("option_x_sources", o.Key+" "+src)
			}
		}
		if ci == nopt*10 {
			c.Sample(replay)
		}
	})
}

// dirList lists every file and directory below d.
func dirList(d string) []string {
	var out []string
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(d, p)
			out = append(out, rel)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

// badOptions are invalid values per option; a nil entry stands for the option's absence.
var badOptions = []map[string]any{
	{"output-type": "epub4"}, {"output-type": "EPUB2"}, {"output-type": "pdf"}, {"output-type": ""}, {"output-type": "stats"},
	{"output-driver": "Pandoc"}, {"output-driver": "x"}, {"output-driver": ""},
	{"output-type": "epub2", "output-driver": "internal"}, {"output-driver": "internal"}, {"output-type": "stats-json"}, {"output-type": "stats-txt"},
	{"output-type": "epub5", "output-driver": "internal"}, {"output-type": "epub3", "output-driver": "none"},
	{"math-converter": ""}, {"math-converter": "foo"}, {"math-converter": "Template"},
	{"cache-eviction-strategy": ""}, {"cache-eviction-strategy": "LRU"}, {"cache-eviction-strategy": "fifo"},
	{"toc-depth": -1.0}, {"toc-depth": 7.0}, {"toc-depth": 1000.0}, {"worker-threads": 0.0}, {"worker-threads": -1.0},
	{"cache-max-size": 0.0}, {"cache-max-size": -5.0}, {"cache-max-age": 0.0}, {"cache-max-age": -1.0},
	{"command-template-math-svg-to-png": ""},
}

func init() {
	for _, k := range []string{"svg-to-png", "math-svg-to-png", "image-processing", "pdf-to-png", "webp-to-png"} {
		for _, v := range []string{"tool {INPUT}", "tool {OUTPUT}", "tool", "tool {input} {output}", "tool {INPUT {OUTPUT}", "tool INPUT OUTPUT", " "} {
			badOptions = append(badOptions, map[string]any{"command-template-" + k: v})
		}
	}
}

// checkG02: invalid configurations are rejected without any effect.
func checkG02(c *Ctx) {
	c.Rule = "every invalid value and combination x {config file, project file, command line} x {project, article, standalone}, with random valid values of other options from all sources, values of wrong JSON type, malformed, missing and unreadable files, wrong arguments: non-zero exit, no request, no tool, no new or changed file anywhere in the scratch world; boundary values and valid combinations must be accepted (a request is made); distinct: (what is wrong, source, command)"
	type bad struct {
		name string
		opts map[string]any
		raw  string // content of the file or command line
		kind string
	}
	var bads []bad
	for _, b := range badOptions {
		j, _ := json.Marshal(b)
		bads = append(bads, bad{string(j), b, "", "opts"})
	}
	for _, s := range []string{`{"toc-depth": "2"}`, `{"font-files": "x"}`, `{"worker-threads": 1.5}`, `{"output-type": 5}`, `{"cache-max-size": "many"}`, `{"force-regenerate-html": "yes"}`, `{"ignored-templates": [1]}`, `{"toc-depth": 2`, ``, `{} x`, `[]`, `"x"`, `{"toc-depth": 2,}`, `{'toc-depth': 2}`, "\xff\xfe", `toc-depth: 2`, `{"cache-max-age": 1e400}`} {
		bads = append(bads, bad{s, nil, s, "raw"})
	}
	for _, s := range []string{"missing", "directory", "dangling"} {
		bads = append(bads, bad{s, nil, s, "file"})
	}
	for _, s := range []string{"--toc-depth=x", "--toc-depth", "--no-such-option", "--worker-threads=1.5", "--cache-max-size=1k", "--force-regenerate-html=maybe", "-l=loud", "--logging=", "additional-argument", "--cache-max-age="} {
		bads = append(bads, bad{s, nil, s, "cli"})
	}
	type kase struct {
		b            bad
		source, cmd  string
		reps         int
		valid        bool
		validOptions map[string]any
	}
	var ks []kase
	for _, b := range bads {
		for _, src := range []string{"config", "project", "cli"} {
			if b.kind == "cli" && src != "cli" || (b.kind == "raw" || b.kind == "file") && src == "cli" {
				continue
			}
			for _, cmd := range []string{"project", "article", "standalone"} {
				if src == "project" && cmd != "project" {
					continue
				}
				ks = append(ks, kase{b: b, source: src, cmd: cmd})
			}
		}
	}
	for _, v := range []map[string]any{{"toc-depth": 0.0}, {"toc-depth": 6.0}, {"worker-threads": 1.0}, {"worker-threads": 200.0}, {"cache-max-size": 1.0}, {"cache-max-age": 1.0}, {"cache-eviction-strategy": "none"}, {"cache-eviction-strategy": "largest"}, {"cache-eviction-strategy": "lru"},
		{"output-type": "epub3"}, {"output-type": "epub3", "output-driver": "internal"}, {"output-type": "stats-json", "output-driver": "internal"}, {"output-type": "stats-txt", "output-driver": "internal"}, {"output-type": "epub2", "output-driver": "pandoc"}, {"output-type": "epub3", "output-driver": "pandoc"},
		{"math-converter": "none"}, {"math-converter": "template"}, {"math-converter": "wikimedia"},
		{"command-template-svg-to-png": ""}, {"command-template-svg-to-png": "x {OUTPUT}{INPUT}"}, {"command-template-image-processing": ""}, {"command-template-image-processing": "{INPUT} {OUTPUT}"}, {"command-template-pdf-to-png": ""}, {"command-template-webp-to-png": ""}, {"command-template-math-svg-to-png": "{OUTPUT} {INPUT}"}} {
		j, _ := json.Marshal(v)
		for _, src := range []string{"config", "project", "cli"} {
			for _, cmd := range []string{"project", "article"} {
				if src == "project" && cmd != "project" {
					continue
				}
				ks = append(ks, kase{b: bad{string(j), v, "", "opts"}, source: src, cmd: cmd, valid: true})
			}
		}
	}
	reps := c.N(1, 12)
	Par(len(ks)*reps, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		k := ks[ci%len(ks)]
		r := c.Rand("bad", ci)
		e := c.NewEnv()
		defer e.Close()
		src := map[string]Cfg{"config": {}, "project": {}, "cli": {}}
		cache := filepath.Join(e.Dir, "newcache")
		src[pick(r, "config", "cli")]["cache-dir"] = cache
		for _, o := range options(e) { // valid noise
			if o.Key == "output-type" || o.Key == "output-driver" || o.Key == "cache-dir" || strings.HasPrefix(o.Key, "wikipedia-") || o.Key == "pandoc-executable" {
				continue
			}
			if _, ok := k.b.opts[o.Key]; ok {
				continue
			}
			for _, s := range []string{"config", "project", "cli"} {
				if chance(r, 0.08) {
					src[s][o.Key] = o.Vals[r.IntN(len(o.Vals))]
				}
			}
		}
		for o, v := range k.b.opts {
			src[k.source][o] = v
		}
		conf := filepath.Join(e.Dir, "conf.json")
		writeJSON(conf, src["config"])
		out := filepath.Join(e.Dir, "new", pick(r, "out.epub", "o.json", "o.txt"))
		alone := writeFile(filepath.Join(e.Dir, "Alone.mediawiki"), "Text")
		var args []string
		proj := ""
		switch k.cmd {
		case "project":
			proj = e.Project(src["project"].With("output-file", out), []string{"Art"})
			args = []string{"project", proj}
		case "article":
			args = []string{"article", "Art", "-o", out}
		case "standalone":
			args = []string{"standalone", alone, "-o", out}
		}
		args = append(args, "-c", conf)
		target := conf
		if k.source == "project" {
			target = proj
		}
		switch k.b.kind {
		case "raw":
			must(os.WriteFile(target, []byte(k.b.raw), 0o644))
		case "file":
			os.Remove(target)
			if k.b.raw == "directory" {
				must(os.Mkdir(target, 0o755))
			} else if k.b.raw == "dangling" {
				must(os.Symlink(filepath.Join(e.Dir, "nowhere"), target))
			}
		}
		for o, v := range src["cli"] {
			args = append(args, cliArgs(r, o, v)...)
		}
		if k.b.kind == "cli" {
			args = append(args, k.b.raw)
		}
		w := NewWiki()
		w.AddPage("en.wikipedia.org", "Art", "Text")
		before := dirList(e.Dir)
		snap := Snapshot(e.Dir)
		res := e.Run(w, RunOpt{}, args...)
		replay := map[string]any{"case": ci, "wrong": k.b.name, "source": k.source, "command": k.cmd, "arguments": args, "config_file": src["config"], "project_file": src["project"]}
		viol := func(kind, msg string) {
			c.Violate("G02:"+kind, fmt.Sprintf("%s from the %s (%s): %s", k.b.name, k.source, k.cmd, msg), replay)
		}
		if k.valid {
			if len(res.Reqs) == 0 {
				viol("valid rejected", "no request was made: "+res.Brief())
				return
			}
			c.Count("valid_accepted", 1)
			c.Case("valid " + k.b.name + k.source + k.cmd + strings.Join(args, " "))
			return
		}
		if res.Success() || res.Claimed() {
			viol("accepted", "the run did not end with an error: "+res.Brief())
			return
		}
		if res.Crash != "" || res.Hang != "" {
			viol("crash", "the run crashed: "+res.Brief())
			return
		}
		if len(res.Reqs) > 0 || len(res.Tools) > 0 {
			viol("requests", fmt.Sprintf("%d requests and %d tool starts before the error", len(res.Reqs), len(res.Tools)))
			return
		}
		after := dirList(e.Dir)
		if a, b := strings.Join(before, "\n"), strings.Join(after, "\n"); a != b {
			viol("files", "files changed: "+firstNew(before, after))
			return
		}
		for f, b := range Snapshot(e.Dir) {
			if snap[f] != b {
				viol("files", "the file "+f+" was changed")
				return
			}
		}
		c.Count("invalid_rejected", 1)
		c.Case(k.b.name + "|" + k.source + "|" + k.cmd + "|" + strings.ReplaceAll(strings.Join(args, " "), e.Dir, ""))
		c.Seen("invalid_x_source_x_command", k.b.name+"|"+k.source+"|"+k.cmd)
		if ci == 0 {
			c.Sample(replay)
		}
	})
}

func firstNew(before, after []string) string {
	m := map[string]int{}
	for _, b := range before {
		m[b]++
	}
	for _, a := range after {
		if m[a] == 0 {
			return "new: " + a
		}
		m[a]--
	}
	for b, n := range m {
		if n > 0 {
			return "gone: " + b
		}
	}
	return ""
}

// checkG03: meaning of relative paths.
func checkG03(c *Ctx) {
	c.Rule = "random start, config and project directories (equal, nested, with blanks and Unicode), path options given relative (plain, ./, ../, nested) or absolute in the config file, the project file or both, config and project file named relative to the start directory, absolute or by bare name; files of the same relative names with different content lie in all three directories; the converter's arguments, the content it sees, the cache directory in use and the place of the output are compared with the expected ones, and nothing else may appear in the scratch world; distinct: (layout, options)"
	n := c.N(400, 10000)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("paths", ci)
		e := c.NewEnv()
		defer e.Close()
		root := filepath.Join(e.Dir, "w", "x")
		dirs := []string{}
		for i := 0; i < 3; i++ {
			d := filepath.Join(root, pick(r, "start", "con fig", "prøjekt", "a/b", "a", "日本/c d", "p+q", "x'y"))
			if i > 0 && chance(r, 0.2) {
				d = dirs[i-1]
			}
			if i > 0 && chance(r, 0.2) {
				d = filepath.Join(dirs[0], pick(r, "sub", "s u b/t"))
			}
			dirs = append(dirs, d)
		}
		S, C, P := dirs[0], dirs[1], dirs[2]
		for _, d := range dirs {
			must(os.MkdirAll(d, 0o755))
		}
		bases := append([]string{root, filepath.Join(e.Dir, "w")}, dirs...)
		rels := []string{"f.dat", "./f.dat", "sub/g.dat", "../up.dat", "sub dir/../f.dat", "../../f.dat", "ä/ö ü.dat"}
		put := func(rel string) { // the same name everywhere
			for _, b := range bases {
				p := filepath.Join(b, rel)
				must(os.MkdirAll(filepath.Join(b, "sub dir"), 0o755))
				if strings.HasPrefix(p, e.Dir+"/w") {
					writeFile(p, "content of "+p)
				}
			}
		}
		for _, rel := range rels {
			put(rel)
		}
		exeRels := []string{"./pandoc", "tools/pandoc", "./tools/pandoc", "../bin/pandoc", "tools/../pandoc", "to ols/ö/pandoc"}
		for _, rel := range exeRels {
			for _, b := range bases {
				if p := filepath.Join(b, rel); strings.HasPrefix(p, e.Dir+"/w") {
					must(os.MkdirAll(filepath.Dir(p), 0o755))
					must(os.MkdirAll(filepath.Join(b, "tools"), 0o755))
					os.Symlink(e.c.Self, p)
				}
			}
		}
		absf := writeFile(filepath.Join(e.Dir, "w", "abs o", "file.dat"), "absolute")
		absFile := func() string { return absf }
		article := chance(r, 0.3)
		conf, proj := Cfg{}, Cfg{}
		want := map[string][]string{}
		file := func() string {
			if chance(r, 0.2) {
				return absFile()
			}
			return rels[r.IntN(len(rels))]
		}
		res1 := func(base, p string) string {
			if filepath.IsAbs(p) {
				return p
			}
			return filepath.Clean(filepath.Join(base, p))
		}
		set := func(key, arg string, mk func() string) {
			if chance(r, 0.45) {
				v := mk()
				conf[key] = v
				want[arg] = []string{res1(C, v)}
			}
			if !article && chance(r, 0.45) {
				v := mk()
				proj[key] = v
				want[arg] = []string{res1(P, v)}
			}
		}
		set("style-file", "--css", file)
		set("cover-image", "--epub-cover-image", file)
		set("pandoc-data-dir", "--data-dir", func() string { return pick(r, "sub dir", "./sub dir", "sub dir/../sub dir") })
		set("pandoc-executable", "exe", func() string { return pick(r, exeRels...) })
		set("cache-dir", "cache", func() string {
			return pick(r, "cache", "./ca che", "../cc", "deep/er/cache", "../../c3", filepath.Join(e.Dir, "abs cache"))
		})
		for s, base := range map[string]string{"conf": C, "proj": P} {
			if s == "proj" && article || !chance(r, 0.4) {
				continue
			}
			var l, a []string
			for k := 1 + r.IntN(3); k > 0; k-- {
				f := file()
				l = append(l, f)
				a = append(a, res1(base, f))
			}
			if s == "conf" {
				conf["font-files"] = l
				if proj["font-files"] == nil {
					want["--epub-embed-font"] = a
				}
			} else {
				proj["font-files"] = l
				want["--epub-embed-font"] = a
			}
		}
		cache := filepath.Join(e.Dir, "home", "xcache", "wiki2book")
		if want["cache"] != nil {
			cache = want["cache"][0]
		}
		delete(want, "cache")
		exe := ""
		if want["exe"] != nil {
			exe = want["exe"][0]
		}
		delete(want, "exe")
		// tools off, as the sources allow
		for k, v := range e.BaseCfg() {
			if k != "cache-dir" {
				conf[k] = v
			}
		}
		way := func(p string) string { // how a file is named on the command line
			rel, err := filepath.Rel(S, p)
			must(err)
			switch r.IntN(3) {
			case 0:
				return p
			case 1:
				return "./" + rel
			}
			return rel
		}
		confPath, projPath := filepath.Join(C, "the config.json"), filepath.Join(P, "pro ject.json")
		writeJSON(confPath, conf)
		outName := pick(r, "book.epub", "out/book.epub", "../o ut.epub", "./x/y z/b.epub")
		absOut := chance(r, 0.2)
		if absOut {
			outName = filepath.Join(e.Dir, "w", "elsewhere", "b.epub")
		}
		var args []string
		out := ""
		if article {
			args = []string{"article", "Art", "-o", outName}
			out = res1(S, outName)
			if chance(r, 0.2) {
				args, out = args[:2], filepath.Join(S, "ebook.epub")
			}
		} else {
			proj["articles"] = []string{"Art"}
			proj["metadata"] = map[string]string{"title": "T"}
			args = []string{"project", way(projPath)}
			if chance(r, 0.6) {
				proj["output-file"] = outName
				out = res1(P, outName)
			}
			if out == "" || chance(r, 0.2) {
				o2 := pick(r, "cli.epub", "cli out/b.epub", "../cli.epub")
				args = append(args, "-o", o2)
				out = res1(S, o2)
			}
			writeJSON(projPath, proj)
		}
		args = append(args, "-c", way(confPath), "-l", "debug")
		w := NewWiki()
		w.AddPage("en.wikipedia.org", "Art", "Text [[File:P.png|20px]] {{foo}} <math>x</math>")
		w.AddImage("commons.wikimedia.org", "P.png", []byte("img"))
		w.Expand = func(string) string { return "T" }
		before := map[string]bool{}
		for _, p := range dirList(e.Dir) {
			before[p] = true
		}
		res := e.Run(w, RunOpt{Dir: S}, args...)
		cut := func(s string) string { return strings.ReplaceAll(s, e.Dir, "$D") }
		replay := map[string]any{"case": ci, "start": cut(S), "config_file": conf, "config_path": cut(confPath), "project_file": proj, "project_path": cut(projPath), "arguments": args}
		viol := func(kind, msg string) { c.Violate("G03:"+kind, cut(msg), replay) }
		if !res.Success() {
			viol("failed", "the run failed: "+res.Brief())
			return
		}
		b := res.Book()
		if b == nil {
			viol("failed", "the converter was not called")
			return
		}
		opts, _ := SplitPandocArgs(b.Args)
		got := map[string][]string{}
		for _, o := range opts {
			got[o[0]] = append(got[o[0]], o[1])
		}
		want["-o"] = []string{out}
		for _, k := range []string{"-o", "--css", "--epub-cover-image", "--data-dir", "--epub-embed-font"} {
			wv, gv := want[k], got[k]
			if k == "--css" && wv == nil && len(gv) == 1 && gv[0] == "/usr/share/wiki2book/style.css" {
				continue
			}
			ok := len(wv) == len(gv)
			for i := 0; ok && i < len(wv); i++ {
				ok = filepath.Clean(gv[i]) == wv[i] && filepath.IsAbs(gv[i])
				if ok && k != "-o" && b.Files[gv[i]] == "" {
					ok = false
				}
			}
			if !ok {
				viol("path of "+k, fmt.Sprintf("%s is %q instead of %q (start %s, config %s, project %s)", k, gv, wv, S, C, P))
				return
			}
		}
		if exe != "" && filepath.Clean(b.Exe) != exe {
			viol("executable", fmt.Sprintf("the converter is %q instead of %q (start %s, config %s, project %s)", b.Exe, exe, S, C, P))
			return
		}
		if fs, _ := os.ReadDir(filepath.Join(cache, "articles")); len(fs) == 0 {
			viol("cache", fmt.Sprintf("the cache is not at %s (%d entries, printed %v)", cache, len(fs), effective(res.Stdout + res.Stderr)["cache-dir"]))
			return
		}
		if _, err := os.Stat(out); err != nil {
			viol("output", "no output at "+out)
			return
		}
		for _, p := range dirList(e.Dir) {
			a := filepath.Join(e.Dir, p)
			if before[p] || strings.HasPrefix(p, "tool.log") || a == cache || strings.HasPrefix(a, cache+"/") || a == out || strings.HasPrefix(out, a+"/") || strings.HasPrefix(cache, a+"/") {
				continue
			}
			viol("stray file", "unexpected file "+p)
			return
		}
		if eff := effective(res.Stdout + res.Stderr); eff != nil {
			if filepath.Clean(fmt.Sprint(eff["cache-dir"])) != cache {
				viol("cache", fmt.Sprintf("the printed cache directory is %v", eff["cache-dir"]))
				return
			}
		}
		j1, _ := json.Marshal(conf)
		j2, _ := json.Marshal(proj)
		c.Case(cut(strings.Join(append(args, S, string(j1), string(j2)), "|")))
		c.Seen("directory_relations", fmt.Sprintf("start=config:%v start=project:%v config=project:%v article:%v", S == C, S == P, C == P, article))
		if ci == 0 {
			c.Sample(replay)
		}
	})
}
