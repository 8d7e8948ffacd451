package main

import (
	"archive/zip"
	"encoding/xml"
	"fmt"
	"html"
	"math/rand/v2"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func init() {
	register("E01", "exploration", checkE01)
	register("E02", "exploration", checkE02)
	register("E03", "exploration", checkE03)
	register("V01", "exploration", checkV01)
}

// metaText gives text as it may appear in book metadata.
func metaText(r *rand.Rand) string {
	if chance(r, 0.1) {
		return ""
	}
	parts := []string{"Stern", "=", "title=", "\"quoted\"", "'", "--toc", "-o x", "  two  blanks ", "é 日本", "&", "<b>", "\\", "$HOME", "{INPUT}", "%s", "\n", "\t", ",", ";", "🚀", "a/b", "@", "#"}
	s := ""
	for i := 0; i < 1+r.IntN(5); i++ {
		s += pick(r, parts...)
	}
	return s
}

func writeFile(p, s string) string {
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, []byte(s), 0o644))
	return p
}

// checkE01: the single converter call and its arguments.
func checkE01(c *Ctx) {
	c.Rule = "random projects and article runs with random subsets of the book options (type, contents depth, data directory, style, cover, any number of fonts, output file anywhere incl. blanks and not existing folders, converter given by name or by path with blanks) and metadata full of blanks, quotes, equal signs, dashes and line breaks; the recorded converter call is compared option by option, as is the order of events; non-trivial: the converter was called; distinct: (arguments)"
	n := c.N(400, 8000)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("book", ci)
		e := c.NewEnv()
		defer e.Close()
		x := NewWorld(r, fmt.Sprintf("k%dx", ci), worldOpt{Articles: 1 + r.IntN(6), Images: r.IntN(3), Tmpls: r.IntN(3), Maths: 1, Share: 0.5})
		article := chance(r, 0.2)
		cfg := e.BaseCfg().With("worker-threads", pick(r, 1, 2, 7), "math-converter", "none")
		typ := pick(r, "epub2", "epub3", "")
		if typ != "" {
			cfg["output-type"] = typ
		} else {
			typ = "epub2"
		}
		if chance(r, 0.3) {
			cfg["output-driver"] = "pandoc"
		}
		want := map[string][]string{"-t": {typ}, "-f": {"html"}}
		toc := 2
		if chance(r, 0.7) {
			toc = r.IntN(7)
			cfg["toc-depth"] = toc
		}
		if toc > 0 {
			want["--toc"] = []string{""}
			want["--toc-depth"] = []string{itoa(toc)}
		}
		base := filepath.Join(e.Dir, pick(r, "files", "fi les", "dät,ei=n"))
		file := func(n string) string { return writeFile(filepath.Join(base, n), "content of "+n+" "+itoa(ci)) }
		if chance(r, 0.4) {
			d := filepath.Join(base, "data dir")
			must(os.MkdirAll(d, 0o755))
			cfg["pandoc-data-dir"] = d
			want["--data-dir"] = []string{d}
		}
		if chance(r, 0.5) {
			cfg["style-file"] = file(pick(r, "style.css", "my style.css"))
			want["--css"] = []string{cfg["style-file"].(string)}
		}
		if chance(r, 0.5) {
			cfg["cover-image"] = file(pick(r, "cover.png", "co=ver 1.jpg"))
			want["--epub-cover-image"] = []string{cfg["cover-image"].(string)}
		}
		var fonts []string
		for k := r.IntN(5); k > 0; k-- {
			fonts = append(fonts, file(fmt.Sprintf("font %d.ttf", r.IntN(4))))
		}
		if len(fonts) > 0 {
			cfg["font-files"] = fonts
			want["--epub-embed-font"] = fonts
		}
		exe := "pandoc"
		if chance(r, 0.3) {
			exe = filepath.Join(e.Dir, "my tools", "pandoc")
			must(os.MkdirAll(filepath.Dir(exe), 0o755))
			must(os.Symlink(c.Self, exe))
			cfg["pandoc-executable"] = exe
		}
		out := filepath.Join(e.OutDir, pick(r, "book.epub", "a b/c=d.epub", "deep/er/x.epub", "no ending"))
		old := chance(r, 0.3)
		if old {
			writeFile(out, "old")
		}
		wantOut := out
		meta := map[string]string{"title": metaText(r), "author": metaText(r), "license": metaText(r), "language": metaText(r), "date": metaText(r)}
		var args []string
		titles := x.Titles
		if chance(r, 0.2) && len(titles) > 0 {
			titles = append(append([]string{}, titles...), titles[r.IntN(len(titles))])
		}
		if article {
			p := filepath.Join(e.Dir, "conf.json")
			writeJSON(p, cfg)
			titles = titles[:1]
			args = []string{"article", titles[0], "-c", p, "-o", out}
			meta = map[string]string{}
		} else {
			if chance(r, 0.1) {
				meta = map[string]string{"title": "only"}
			}
			cfg["metadata"] = meta
			if chance(r, 0.5) {
				args = []string{"project", e.Project(cfg, titles), "-o", out}
			} else {
				cfg["output-file"] = out
				args = []string{"project", e.Project(cfg, titles)}
			}
		}
		want["-o"] = []string{wantOut}
		want["--metadata"] = []string{"title=" + meta["title"], "author=" + meta["author"], "rights=" + meta["license"], "language=" + meta["language"], "date=" + meta["date"]}
		w := x.Wiki()
		w.DelayFn = delays(r.IntN(5), uint64(ci))
		res := e.Run(w, RunOpt{}, args...)
		replay := map[string]any{"case": ci, "config": cfg, "args": args, "articles": titles}
		viol := func(kind, msg string) { c.Violate("E01:"+kind, msg, replay) }
		calls := res.Calls("pandoc")
		if !res.Success() || len(calls) != 1 {
			viol("calls", fmt.Sprintf("%d converter calls: %s", len(calls), res.Brief()))
			return
		}
		b := calls[0]
		if b.Exe != exe {
			viol("executable", fmt.Sprintf("the converter was started as %q instead of %q", b.Exe, exe))
			return
		}
		if b.Cwd != e.Cache {
			viol("directory", fmt.Sprintf("the converter ran in %q instead of the cache directory", b.Cwd))
			return
		}
		opts, inputs := SplitPandocArgs(b.Args)
		got := map[string][]string{}
		alias := map[string]string{"--output": "-o", "--to": "-t", "--write": "-t", "--from": "-f", "--read": "-f", "-M": "--metadata", "-c": "--css", "-r": "-f", "-w": "-t", "--table-of-contents": "--toc"}
		for _, o := range opts {
			k := o[0]
			if alias[k] != "" {
				k = alias[k]
			}
			got[k] = append(got[k], o[1])
		}
		var keys []string
		for k := range got {
			keys = append(keys, k)
		}
		for k := range want {
			if got[k] == nil {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			a, g := want[k], got[k]
			if k == "--metadata" {
				a, g = append([]string{}, a...), append([]string{}, g...)
				sort.Strings(a)
				sort.Strings(g)
			}
			if strings.Join(a, "\x00") != strings.Join(g, "\x00") || len(a) != len(g) {
				viol("option "+k, fmt.Sprintf("option %s has the values %q instead of %q", k, g, a))
				return
			}
		}
		if len(inputs) != len(titles) || len(b.Chapters) != len(titles) {
			viol("inputs", fmt.Sprintf("%d chapter files for %d articles: %q", len(inputs), len(titles), inputs))
			return
		}
		for i, ch := range b.Chapters {
			if ch.Missing || !strings.Contains(ch.Content, "<h1>"+titles[i]+"</h1>") || !strings.Contains(ch.Content, "</html>") {
				viol("chapter", fmt.Sprintf("input %d (%s) is not the complete chapter of %q", i, inputs[i], titles[i]))
				return
			}
		}
		for f, h := range b.Files {
			if h == "" {
				viol("missing file", "the file "+f+" did not exist when the converter ran")
				return
			}
		}
		for _, q := range res.Reqs {
			if q.Recv.UnixNano() > b.T0 {
				viol("too early", "the converter ran before the request "+q.Ident())
				return
			}
		}
		if _, err := os.Stat(wantOut); err != nil {
			viol("output", "the output file is missing")
			return
		}
		c.Case(hashs(b.Args...))
		c.Seen("option_sets", strings.Join(keys, " "))
		if ci == 0 {
			c.Sample(b.Args)
		}
	})
}

// checkE02: the calls of the external image tools.
func checkE02(c *Ctx) {
	c.Rule = "random command templates per kind (several words, options with embedded and repeated placeholders, words with quotes, dollars and Unicode, empty) over projects with images of all kinds and names, cache directories with blanks; every recorded call must be the template of its kind with both placeholders replaced, word by word; expected calls are computed from the images used; a second run must make none; distinct: (template, image)"
	c.Assume = []string{"command templates separate their words by single blanks"}
	n := c.N(250, 5000)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("tools", ci)
		e := c.NewEnv()
		defer e.Close()
		e.Cache = filepath.Join(e.Dir, pick(r, "cache", "ca che", "cä  che dir", "c{INPUT}"))
		x := NewWorld(r, fmt.Sprintf("k%dx", ci), worldOpt{Articles: 1 + r.IntN(4), Images: 3 + r.IntN(9), Tmpls: 2, Maths: 3, Share: 0.6})
		x.Math = pick(r, "none", "template", "wikimedia")
		tmpl := func(tool, kind string) string {
			words := []string{"-x", "\"a", "b\"", "'", "$HOME", "*", "600x600>", "ä", "--o=p", ";", "&&", "{INPUTX}", "\\", "%s", "{", "-"}
			in, out := pick(r, "--in {INPUT}", "--in={INPUT}"), pick(r, "--out {OUTPUT}", "--out={OUTPUT}")
			parts := []string{in, out}
			if chance(r, 0.5) {
				parts = []string{out, in}
			}
			for k := r.IntN(4); k > 0; k-- {
				parts = append(parts, pick(r, words...))
			}
			if chance(r, 0.2) {
				parts = append(parts, pick(r, "--again={INPUT}", "x{OUTPUT}y{INPUT}z", "{OUTPUT}{OUTPUT}"))
			}
			r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
			return tool + " " + kind + " " + strings.Join(parts, " ")
		}
		t := map[string]string{}
		for _, k := range []string{"svg", "pdf", "webp", "proc"} {
			if chance(r, 0.75) {
				tool := "convtool"
				if k == "proc" {
					tool = "imgtool"
				}
				t[k] = tmpl(tool, k)
			}
		}
		t["math"] = tmpl("convtool", "math")
		typ := "epub2"
		cfg := Cfg{"cache-dir": e.Cache, "worker-threads": pick(r, 1, 1, 4), "math-converter": x.Math,
			"command-template-svg-to-png": t["svg"], "command-template-pdf-to-png": t["pdf"], "command-template-webp-to-png": t["webp"],
			"command-template-math-svg-to-png": t["math"], "command-template-image-processing": t["proc"], "output-type": typ}
		pdf := chance(r, 0.5)
		if pdf {
			cfg["ignored-media-types"] = []string{"gif"}
		}
		w := x.Wiki()
		args := []string{"project", e.Project(cfg, x.Titles)}
		res := e.Run(w, RunOpt{}, args...)
		replay := map[string]any{"case": ci, "config": cfg, "pages": x.Pages}
		viol := func(kind, msg string) { c.Violate("E02:"+kind, msg, replay) }
		if !res.Success() {
			viol("failed", "the run failed: "+res.Brief())
			return
		}
		// the calls that are expected: kind, name of the input file, name of the resulting file
		want := map[string]int{}
		san := func(s string) string {
			return strings.NewReplacer("%", "%25", "<", "%3C", ">", "%3E", ":", "%3A", "\"", "%22", "/", "%2F", "\\", "%5C", "|", "%7C", "?", "%3F", "*", "%2A").Replace(s)
		}
		used := map[string]bool{}
		for _, q := range res.Reqs {
			if q.Kind == "image" && q.OK {
				used[q.Key] = true
			}
		}
		for _, im := range x.Imgs {
			if !used[InstPath(im.Host)+"/"+normTitle(im.Name)] {
				continue
			}
			name := san(strings.ReplaceAll(im.Use(), " ", "_"))
			conv := im.Ext
			if conv == "svg" || conv == "pdf" || conv == "webp" {
				if t[conv] != "" {
					want[conv+" "+name+" "+name+".png"]++
					name += ".png"
				} else if conv != "webp" {
					continue
				}
			}
			if t["proc"] != "" {
				want["proc "+name+" "+name]++
			}
		}
		if x.Math == "template" {
			for _, q := range res.Reqs {
				if q.Kind == "mathsvg" && q.OK {
					want["math "+q.Key+".svg "+q.Key+".png"]++
				}
			}
		}
		got := map[string]int{}
		content := map[string]string{}
		for _, call := range res.Tools {
			if call.Tool == "pandoc" {
				continue
			}
			kind := ""
			if len(call.Args) > 0 {
				kind = call.Args[0]
			}
			if t[kind] == "" {
				viol("unknown call", fmt.Sprintf("a call of no configured kind: %s %q", call.Tool, call.Args))
				return
			}
			abs := func(p string) string {
				if !filepath.IsAbs(p) {
					return filepath.Join(call.Cwd, p)
				}
				return filepath.Clean(p)
			}
			if call.In == "" || call.Out == "" || filepath.Dir(abs(call.In)) != filepath.Join(e.Cache, "images") || !strings.HasPrefix(abs(call.Out), e.Cache+"/") {
				viol("paths", fmt.Sprintf("input %q or output %q of a call is no cache file: %s %q", call.In, call.Out, call.Tool, call.Args))
				return
			}
			ws := strings.Split(t[kind], " ")
			repl := strings.NewReplacer("{INPUT}", call.In, "{OUTPUT}", call.Out)
			for i := range ws {
				ws[i] = repl.Replace(ws[i])
			}
			if strings.Join(ws, "\x00") != strings.Join(append([]string{call.Tool}, call.Args...), "\x00") {
				viol("words", fmt.Sprintf("the template %q was run as %s %q", t[kind], call.Tool, call.Args))
				return
			}
			if !call.InExists {
				viol("no input", fmt.Sprintf("the input of %s %q does not exist", call.Tool, call.Args))
				return
			}
			in := filepath.Base(call.In)
			res := in + ".png"
			if kind == "proc" {
				res = in
			}
			if kind == "math" {
				res = strings.TrimSuffix(in, ".svg") + ".png"
			}
			got[kind+" "+in+" "+res]++
			content[kind+" "+in] = call.InContent
			c.Case(hashs(t[kind], in))
			c.Seen("kinds", kind)
		}
		var ks []string
		for k := range want {
			ks = append(ks, k)
		}
		for k := range got {
			if want[k] == 0 {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if got[k] != want[k] {
				viol("number", fmt.Sprintf("the call %q was made %d times instead of %d", k, got[k], want[k]))
				return
			}
			f := strings.Fields(k)
			b, err := os.ReadFile(filepath.Join(e.Cache, "images", f[2]))
			pre := "PNG["
			if f[0] == "proc" || t["proc"] != "" && f[0] != "math" {
				pre = "PROC["
			}
			if err != nil || !strings.HasPrefix(string(b), pre) {
				viol("result", fmt.Sprintf("the result of %q is not in place: %v %q", k, err, clip(string(b), 80)))
				return
			}
		}
		if len(ks) == 0 {
			c.Case("")
		}
		r2 := e.Run(w, RunOpt{}, args...)
		for _, call := range r2.Tools {
			if call.Tool != "pandoc" {
				viol("second run", fmt.Sprintf("the second run started %s %q for cached images", call.Tool, call.Args))
				return
			}
		}
		if ci == 0 {
			c.Sample(map[string]any{"templates": t, "calls": ks})
		}
	})
}

type opf struct {
	Metadata struct {
		Title    []string `xml:"title"`
		Creator  []string `xml:"creator"`
		Language []string `xml:"language"`
	} `xml:"metadata"`
	Manifest []struct {
		ID    string `xml:"id,attr"`
		Href  string `xml:"href,attr"`
		Props string `xml:"properties,attr"`
	} `xml:"manifest>item"`
	Spine []struct {
		Ref string `xml:"idref,attr"`
	} `xml:"spine>itemref"`
}

var srcAttrRe = regexp.MustCompile(`(<img [^>]*?src=")([^"]*)(")`)
var titleTagRe = regexp.MustCompile(`(?s)<title[^>]*>(.*?)</title>`)
var navLinkRe = regexp.MustCompile(`(?s)<a href="([^"]*)">(.*?)</a>`)

// checkE03: the archive written by the internal driver, compared with the chapters handed to the converter for the same project.
func checkE03(c *Ctx) {
	c.Rule = "random projects (titles and metadata with special characters, images, formulas, with and without cover, style and fonts) converted with the internal driver; the archive is read back: integrity, container, metadata, spine order, one section per chapter with title and the complete chapter body (as the pandoc driver gets it), every image source resolving inside the archive to the image's bytes, cover, style and fonts byte-identical; distinct: (project)"
	c.Assume = []string{"image sources are compared by the file they resolve to"}
	n := c.N(150, 2500)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("epub", ci)
		x := NewWorld(r, fmt.Sprintf("k%dx", ci), worldOpt{Articles: 1 + r.IntN(6), Images: pick(r, r.IntN(8), r.IntN(8), 12+r.IntN(20)), Tmpls: 3, Maths: 3, Share: 0.5, Siblings: true})
		if chance(r, 0.4) {
			i := r.IntN(len(x.Titles))
			x.Pages[x.Titles[i]] = "= Top level " + itoa(ci) + " =\nText below.\n\n" + x.Pages[x.Titles[i]]
		}
		titles := append([]string(nil), x.Titles...)
		if chance(r, 0.25) { // an article may be listed more than once
			titles = append(titles, pick(r, titles...))
			r.Shuffle(len(titles), func(i, j int) { titles[i], titles[j] = titles[j], titles[i] })
		}
		meta := map[string]string{"title": metaText(r) + "T", "author": metaText(r) + "A", "language": pick(r, "en", "de-DE", "zh"), "license": "CC", "date": "2020"}
		for k, v := range meta {
			meta[k] = strings.TrimSpace(strings.NewReplacer("\n", " ", "\t", " ").Replace(v))
		}
		var fonts []string
		files := map[string]string{}
		mk := func(e *Env) Cfg {
			fonts = nil
			r := c.Rand("opts", ci)
			cfg := x.Cfg(e.ToolCfg()).With("worker-threads", pick(r, 1, 4), "output-type", "epub3", "metadata", meta)
			base := filepath.Join(e.Dir, "files")
			if chance(r, 0.6) {
				cfg["style-file"] = writeFile(filepath.Join(base, pick(r, "style.css", "my style.css")), "p { x: "+itoa(ci)+" }")
				files["style"] = "p { x: " + itoa(ci) + " }"
			}
			if chance(r, 0.6) {
				cfg["cover-image"] = writeFile(filepath.Join(base, "the cover.png"), string(tinyPNG)+itoa(ci))
				files["cover"] = string(tinyPNG) + itoa(ci)
			}
			for k := r.IntN(4); k > 0; k-- {
				f := writeFile(filepath.Join(base, "d"+itoa(k), pick(r, "font a.ttf", "b.otf")), "font data "+itoa(ci)+" "+itoa(k))
				fonts = append(fonts, f)
				files["font"+itoa(k)] = "font data " + itoa(ci) + " " + itoa(k)
			}
			if len(fonts) > 0 {
				cfg["font-files"] = fonts
			}
			return cfg
		}
		ea := c.NewEnv()
		defer ea.Close()
		ra := ea.Run(x.Wiki(), RunOpt{}, "project", ea.Project(mk(ea), titles))
		book := ra.Book()
		eb := c.NewEnv()
		defer eb.Close()
		rb := eb.Run(x.Wiki(), RunOpt{}, "project", eb.Project(mk(eb).With("output-driver", "internal"), titles))
		replay := map[string]any{"case": ci, "pages": x.Pages, "titles": titles, "metadata": meta}
		viol := func(kind, msg string) { c.Violate("E03:"+kind, msg, replay) }
		if book == nil || !rb.Success() {
			viol("failed", "a run failed: "+ra.Brief()+" / "+rb.Brief())
			return
		}
		m, err := readEpub(eb.Out)
		if err != nil {
			viol("archive", "the archive is not readable: "+err.Error())
			return
		}
		if z, err := zip.OpenReader(eb.Out); err == nil {
			if z.File[0].Name != "mimetype" || m["mimetype"] != "application/epub+zip" || z.File[0].Method != zip.Store {
				viol("mimetype", "the archive does not start with the stored EPUB mimetype")
			}
			z.Close()
		}
		cm := regexp.MustCompile(`full-path="([^"]*)"`).FindStringSubmatch(m["META-INF/container.xml"])
		if cm == nil || m[cm[1]] == "" {
			viol("container", "the container names no package file")
			return
		}
		var pk opf
		if err := xml.Unmarshal([]byte(m[cm[1]]), &pk); err != nil {
			viol("package", "the package file is no XML: "+err.Error())
			return
		}
		one := func(what string, got []string, want string) bool {
			if len(got) != 1 || got[0] != want {
				viol("metadata", fmt.Sprintf("%s is %q instead of %q", what, got, want))
				return false
			}
			return true
		}
		if !one("the title", pk.Metadata.Title, meta["title"]) || !one("the author", pk.Metadata.Creator, meta["author"]) || !one("the language", pk.Metadata.Language, meta["language"]) {
			return
		}
		dir := path.Dir(cm[1])
		href := map[string]string{}
		all := map[string]int{}
		coverBody := ""
		for _, it := range pk.Manifest {
			p := path.Join(dir, it.Href)
			href[it.ID] = p
			b, ok := m[p]
			if !ok {
				viol("manifest", "the manifest lists a missing file "+p)
				return
			}
			all[b]++
			if strings.Contains(it.Props, "cover-image") {
				coverBody = b
			}
		}
		for k, body := range files {
			if all[body] == 0 {
				viol("missing "+strings.TrimRight(k, "0123456789"), "the configured "+k+" is not in the archive")
				return
			}
		}
		if files["cover"] != coverBody {
			viol("cover", "the cover image of the archive is not the configured one")
			return
		}
		var secs []string
		for _, s := range pk.Spine {
			p := href[s.Ref]
			if p == "" {
				viol("spine", "the spine refers to an unknown entry "+s.Ref)
				return
			}
			if strings.Contains(m[p], "<h1>") || strings.Contains(path.Base(p), "section") {
				secs = append(secs, p)
			}
		}
		if len(secs) != len(titles) {
			viol("sections", fmt.Sprintf("%d sections for %d articles", len(secs), len(titles)))
			return
		}
		nimg := 0
		for i, p := range secs {
			sec := m[p]
			ch := book.Chapters[i]
			// images by what they resolve to
			bad := ""
			inSec := srcAttrRe.ReplaceAllStringFunc(sec, func(s string) string {
				mm := srcAttrRe.FindStringSubmatch(s)
				u, _ := url.PathUnescape(mm[2])
				b, ok := m[path.Join(path.Dir(p), u)]
				if !ok {
					bad = mm[2]
				}
				nimg++
				return mm[1] + hash([]byte(b)) + mm[3]
			})
			if bad != "" {
				viol("image", fmt.Sprintf("the image source %q in the section of %q does not resolve inside the archive", bad, titles[i]))
				return
			}
			inCh := srcAttrRe.ReplaceAllStringFunc(ch.Content, func(s string) string {
				mm := srcAttrRe.FindStringSubmatch(s)
				return mm[1] + hash([]byte(ch.Refs[mm[2]])) + mm[3]
			})
			if !strings.Contains(normSp(inSec), normSp(strings.ReplaceAll(inCh, ea.Dir, eb.Dir))) {
				viol("content", fmt.Sprintf("section %d does not contain the complete chapter of %q: %s", i, titles[i], firstDiff(normSp(strings.ReplaceAll(inCh, ea.Dir, eb.Dir)), normSp(inSec))))
				return
			}
			tt := titleTagRe.FindStringSubmatch(sec)
			if tt == nil || html.UnescapeString(tt[1]) != titles[i] {
				viol("section title", fmt.Sprintf("the title of section %d is %q instead of %q", i, tt, titles[i]))
				return
			}
		}
		nav := ""
		for k, v := range m {
			if strings.HasSuffix(k, "nav.xhtml") {
				nav = v
			}
		}
		var navTitles []string
		for _, mm := range navLinkRe.FindAllStringSubmatch(nav, -1) {
			if strings.Contains(mm[1], "section") {
				navTitles = append(navTitles, html.UnescapeString(mm[2]))
			}
		}
		if strings.Join(navTitles, "\x00") != strings.Join(titles, "\x00") {
			viol("contents", fmt.Sprintf("the table of contents lists %q instead of %q", navTitles, titles))
			return
		}
		c.Count("images_resolved", int64(nimg))
		c.Case(fmt.Sprintf("%d/%d sections/%d images", ci, len(secs), nimg))
		if ci == 0 {
			c.Sample(map[string]any{"titles": titles, "metadata": meta, "files": len(m)})
		}
	})
}

func normSp(s string) string { return strings.Join(strings.Fields(s), " ") }

// firstDiff shows where a stops being found in b.
func firstDiff(a, b string) string {
	lo, hi := 0, len(a)
	for lo < hi {
		mid := (lo + hi + 1) / 2
		if strings.Contains(b, a[:mid]) {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	return fmt.Sprintf("from byte %d on, …%q", lo, clip(a[max(0, lo-60):], 200))
}
