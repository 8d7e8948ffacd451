package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// Content checks: documents composed by the generator are run through the real program in batches (one project, many
// articles); the oracle compares what the converter was handed with the document the generator expects.

type docCase struct {
	Title string
	Gen   *Gen
	F     frag
}

type batchCfg struct {
	Tools   bool   // image tools configured
	Math    string // math-converter
	Threads int
	Files   []string // file-prefixes
	IgnImg  []string // ignored-image-params
}

type contentOpt struct {
	Stream  string
	Focus   map[string]float64
	Batches int
	Docs    int
	Size    int
	View    View
	NoTools bool
	Delay   bool
	// Judge adds to the comparison of the documents; it returns a description of what is wrong, or "".
	Judge func(d *docCase, ch *ChapterObs, res *Result) string
	// Make replaces the generator's own documents.
	Make func(g *Gen) frag
	// Key names the non-trivial observation of a document ("" = trivial).
	Key func(d *docCase, events []string) string
	// Batch judges the run as a whole.
	Batch func(ds []*docCase, cfg batchCfg, w *Wiki, res *Result) string
	Cfg   func(i int) (batchCfg, Cfg)
}

var mathTitleRe = regexp.MustCompile(`<title>([0-9a-f]{40})</title>`)

// srcLabel names what an image source resolves to.
func srcLabel(ch *ChapterObs) func(string) string {
	return func(src string) string {
		if ch == nil {
			return strings.TrimPrefix(src, "LABEL:")
		}
		raw, ok := ch.Refs[src]
		if !ok {
			raw, ok = ch.Refs[strings.ReplaceAll(src, "&", "&amp;")]
		}
		if !ok || strings.HasPrefix(raw, "\x00") {
			return "MISSING " + src
		}
		if strings.HasPrefix(raw, "MATHPNG ") {
			return "MATH " + raw[8:]
		}
		if m := mathTitleRe.FindStringSubmatch(raw); m != nil {
			if strings.HasPrefix(raw, "PNG[") && strings.HasSuffix(raw, "]") {
				return "MATH " + m[1] + " conv"
			}
			return "MATH " + m[1] + " svg"
		}
		return raw
	}
}

func mathSuffix(conv string) string {
	return map[string]string{"none": " svg", "template": " conv"}[conv]
}

// wikiFor publishes the documents and their templates.
func wikiFor(w *Wiki, ds []*docCase) {
	bodies := map[string]tmplBody{trailingTmplName: {"note " + argMark + " end", ""}}
	for _, d := range ds {
		w.AddPage("en.wikipedia.org", d.Title, d.F.src)
		for n, b := range d.Gen.bodies {
			bodies[n] = b
		}
	}
	w.Expand = ExpandWith(func(n string) (tmplBody, bool) { b, ok := bodies[n]; return b, ok })
}

func (b batchCfg) apply(e *Env) Cfg {
	cfg := e.BaseCfg()
	if b.Tools {
		cfg = e.ToolCfg()
	}
	return b.options(cfg).With("worker-threads", b.Threads)
}

// options adds the options which the expectations depend on.
func (b batchCfg) options(cfg Cfg) Cfg {
	cfg = cfg.With("ignored-templates", []string{"navbox gone"}, "trailing-templates", []string{trailingTmplName})
	if b.Files != nil {
		cfg["file-prefixes"] = b.Files
	}
	if b.IgnImg != nil {
		cfg["ignored-image-params"] = b.IgnImg
	}
	if b.Math != "" {
		cfg["math-converter"] = b.Math
		if b.Math == "template" {
			cfg["command-template-math-svg-to-png"] = "convtool math --in {INPUT} --out {OUTPUT}"
		}
	}
	return cfg
}

func runDocs(c *Ctx, w *Wiki, b batchCfg, ds []*docCase) *Result {
	e := c.NewEnv()
	defer e.Close()
	var titles []string
	for _, d := range ds {
		titles = append(titles, d.Title)
	}
	return e.Run(w, RunOpt{}, "project", e.Project(b.apply(e), titles))
}

// judgeDoc compares one chapter with the expectation.
func judgeDoc(o *contentOpt, d *docCase, res *Result, idx int) (string, []string) {
	if !res.Success() {
		return "the run failed: " + res.Brief(), nil
	}
	book := res.Book()
	if book == nil || len(book.Chapters) <= idx {
		return "no chapter was handed to the converter: " + res.Brief(), nil
	}
	ch := &book.Chapters[idx]
	vw, vg := o.View, o.View
	vw.Src, vg.Src = srcLabel(nil), srcLabel(ch)
	want, wp := Canon("<h1>"+d.Title+"</h1>"+d.F.exp, vw)
	got, _ := Canon(bodyOf(ch.Content), vg)
	if len(wp) > 0 {
		panic("generator wrote a broken expectation: " + strings.Join(wp, "; ") + "\n" + d.F.exp)
	}
	if s := diffEvents(want, got); s != "" {
		return s, got
	}
	if o.Judge != nil {
		if s := o.Judge(d, ch, res); s != "" {
			return s, got
		}
	}
	return "", got
}

func (c *Ctx) Content(o contentOpt) {
	c.Assume = append(c.Assume, "wiki, template engine, image tools and converter are stand-ins; the program is the real binary", "documents are composed of the constructs the generator knows, with the expected document composed from the same choices")
	var fmu sync.Mutex
	feats := map[string]int{}
	// The last batches consist of long articles, in which counters and indices get large.
	long := 0
	if o.Make == nil {
		long = c.N(6, 60)
	}
	Par(o.Batches+long, 8, func(bi int) {
		if c.NViol() > 12 {
			return
		}
		bi = o.Batches + long - 1 - bi // long ones first
		r := c.Rand(o.Stream, bi)
		docs, size := o.Docs, o.Size
		if bi >= o.Batches {
			docs, size = 2, 60+20*(bi%4)
		}
		w := NewWiki()
		b := batchCfg{Threads: 1 + r.IntN(8)}
		if bi%3 == 1 && !o.NoTools {
			b.Tools = true
		}
		if !o.NoTools {
			b.Math = []string{"", "none", "template", "wikimedia"}[bi%4]
		}
		switch bi % 5 {
		case 2:
			b.Files = []string{"file", "image", "media", "datei", "bild"}
		case 4:
			b.Files = []string{"datei", "bild"}
		}
		if bi%2 == 0 {
			b.IgnImg = []string{"alt", "left", "right", "upright", "class="}
		}
		if o.Delay {
			dr := r.IntN(20)
			w.DelayFn = func(q *Req) time.Duration { return time.Duration(q.Seq*7919%(dr+1)) * time.Millisecond }
		}
		var ds []*docCase
		for k := 0; k < docs; k++ {
			f := map[string]float64{}
			for x, y := range o.Focus {
				f[x] = y
			}
			if !b.Tools {
				f["nopdf"] = 1
			}
			g := NewGen(r, fmt.Sprintf("q%dq", k), w, f)
			g.mathSuf = mathSuffix(b.Math)
			g.files, g.ignImg = b.Files, b.IgnImg != nil
			if b.Tools {
				g.imgConv = map[string]bool{"svg": true, "pdf": true, "webp": true}
				g.imgProc = true
			}
			d := &docCase{Title: fmt.Sprintf("Doc %d %d", bi, k), Gen: g}
			if o.Make != nil {
				d.F = o.Make(g)
			} else {
				n := 1 + r.IntN(size)
				if bi >= o.Batches {
					n = size
				}
				d.F = g.Doc(n)
			}
			ds = append(ds, d)
		}
		wikiFor(w, ds)
		res := runDocs(c, w, b, ds)
		batchOK := true
		for i, d := range ds {
			msg, got := judgeDoc(&o, d, res, i)
			if msg == "" {
				key := hashs(got...)
				if o.Key != nil {
					key = o.Key(d, got)
				}
				c.Case(key)
				c.Count("documents_compared", 1)
				c.Count("events_compared", int64(len(got)))
				c.Count("words_in_documents", int64(d.Gen.Words))
				if bi >= o.Batches {
					c.Count("long_documents", 1)
				}
				fmu.Lock()
				for k, n := range d.Gen.Feat {
					feats[k] += n
				}
				fmu.Unlock()
				if bi == 0 {
					c.Sample(map[string]any{"wikitext": clip(d.F.src, 600), "events": len(got)})
				}
				continue
			}
			batchOK = false
			if c.NViol() > 12 {
				return
			}
			// The same document alone: tells a wrong conversion from a mix-up between articles.
			res2 := runDocs(c, w, b, []*docCase{d})
			msg2, _ := judgeDoc(&o, d, res2, 0)
			if msg2 == "" {
				if !res.Success() {
					continue // another document of the batch is to blame, or the batch as a whole (below)
				}
				c.Violate(c.ID+":batch:"+hashs(d.F.src), "only in a project with other articles: "+msg, map[string]any{"batch": bi, "config": b, "wikitext": d.F.src})
				continue
			}
			src, m3 := shrink(c, w, b, &o, d, msg2)
			html := ""
			if bk := res2.Book(); bk != nil && len(bk.Chapters) > 0 {
				html = bodyOf(bk.Chapters[0].Content)
			}
			_ = src
			c.Violate(c.ID+":doc:"+hashs(d.F.src), m3+"\n  in: "+sourceLines(d.F.src, m3), map[string]any{"batch": bi, "config": b, "title": d.Title, "wikitext": d.F.src, "expected": d.F.exp, "chapter": html})
		}
		if batchOK && o.Batch != nil {
			if s := o.Batch(ds, b, w, res); s != "" {
				var srcs []string
				for _, d := range ds {
					srcs = append(srcs, d.F.src)
				}
				c.Violate(c.ID+":batch:"+hashs(srcs...), s, map[string]any{"batch": bi, "config": b, "wikitext": srcs})
			}
		}
		if !batchOK && !res.Success() && c.NViol() == 0 {
			c.Violate(fmt.Sprintf("%s:run:%d", c.ID, bi), "a project of articles that convert alone fails: "+res.Brief(), map[string]any{"batch": bi, "config": b})
		}
	})
	c.Note("constructs_used", feats)
}

// shrink is a hook for smaller replays; the documents are small enough to be shown as they are.
func shrink(c *Ctx, w *Wiki, b batchCfg, o *contentOpt, d *docCase, msg string) (string, string) {
	return d.F.src, msg
}

var anyWordRe = regexp.MustCompile(`q\d+q\d+`)

// sourceLines quotes the lines of the source around the words a message names.
func sourceLines(src, msg string) string {
	lines := strings.Split(src, "\n")
	hit := map[int]bool{}
	for _, w := range anyWordRe.FindAllString(msg, -1) {
		for i, l := range lines {
			if strings.Contains(l, w) {
				hit[i] = true
			}
		}
	}
	var ks []int
	for k := range hit {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var out []string
	for _, k := range ks {
		out = append(out, lines[k])
	}
	return strings.Join(out, "\n      ")
}
