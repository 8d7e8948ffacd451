package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
)

// The generator composes wikitext documents from the documented constructs and, from the same random choices, the
// document a reader should see. Expected documents are written in the program's output vocabulary and compared after
// both went through Canon, so only the observable structure counts. Image sources of expected documents are
// "LABEL:<what the file must contain>".

type frag struct{ src, exp string }

func (a frag) add(b frag) frag { return frag{a.src + b.src, a.exp + b.exp} }
func lit(s string) frag        { return frag{s, s} }

// cx is the context a construct is generated in.
type cx struct {
	noPipe, noColon, noLink, noRef, noTmpl, noImg, noStyle, noMath, noBr, noHTML, noCmt, noNowiki, inTmpl bool
	depth                                                                                                 int
}

type refState struct {
	num     map[string]int
	next    int
	pending map[int]string // number -> text not yet listed
	undef   map[string]int // used, not yet defined
	done    map[string]bool
}

type tmplBody struct{ src, exp string } // \x01 stands for the argument

// Gen builds one document.
type Gen struct {
	r    *rand.Rand
	id   string
	w    *Wiki
	wt   map[string]float64 // weights of constructs
	n    int
	refs map[string]*refState
	used bool // any reference used since the last list of its group

	Words     int
	Images    []string          // names that must be requested
	ImgLabel  map[string]string // name -> label
	Ignored   []string          // names that must never be requested
	Maths     map[string]int    // formula -> occurrences
	Templates map[string]int    // calls (distinct text) -> uses
	IgnTmpl   []string          // names of ignored templates used
	Feat      map[string]int    // constructs used
	files     []string          // file prefixes, if not the default ones
	ignImg    bool              // some image parameters are ignored
	imgConv   map[string]bool   // "svg", "pdf", "webp": conversion configured
	imgProc   bool
	mathSuf   string
	tailSrc   string // trailing templates in their order of use
	tailExp   string
	tmplN     int
	chains    []frag            // nested calls used
	plainArgs map[string]string // the latest plain argument of templates
	bodies    map[string]tmplBody
	bnames    []string

	marks bool     // write pseudo elements <il>, <ru> and <rd> into the expected document (statistics)
	pool  []string // link targets to choose from now and then
}

// mark wraps expected text of an internal link.
func (g *Gen) mark(target, exp string) string {
	if !g.marks {
		return exp
	}
	return `<il t="` + escLabel(target) + `">` + exp + "</il>"
}

func (g *Gen) refNo(n int) string {
	if g.marks {
		return "<ru></ru>"
	}
	return fmt.Sprintf("[%d]", n)
}

func NewGen(r *rand.Rand, id string, w *Wiki, focus map[string]float64) *Gen {
	g := &Gen{r: r, id: id, w: w, wt: map[string]float64{
		// inline
		"style": 3, "ilink": 3, "elink": 2, "math": 1, "iimg": 1, "nowiki": 0.7, "comment": 0.7, "ref": 1.5, "tmpl": 1.5, "html": 0.7, "dead": 0.7,
		// blocks
		"para": 6, "list": 3, "table": 2.5, "gallery": 0.7, "imap": 0.4, "thumb": 1, "btmpl": 0.7, "cmtblock": 0.4, "reflist": 0.3, "emptysec": 0.5, "trail": 0.2, "igntmpl": 0.3, "deco": 1,
	}, refs: map[string]*refState{}, Maths: map[string]int{}, ImgLabel: map[string]string{}, Templates: map[string]int{}, Feat: map[string]int{}, imgConv: map[string]bool{}, bodies: map[string]tmplBody{}}
	for k, v := range focus {
		if _, ok := g.wt[k]; ok {
			g.wt[k] *= v
		} else {
			g.wt[k] = v
		}
	}
	return g
}

func (g *Gen) feat(k string) { g.Feat[k]++ }

// choose picks a construct by weight.
func (g *Gen) choose(names ...string) string {
	t := 0.0
	for _, n := range names {
		t += g.wt[n]
	}
	x := g.r.Float64() * t
	for _, n := range names {
		x -= g.wt[n]
		if x < 0 {
			return n
		}
	}
	return names[len(names)-1]
}
func (g *Gen) p(p float64) bool { return g.r.Float64() < p }
func (g *Gen) pick(xs ...string) string {
	return xs[g.r.IntN(len(xs))]
}

var wordBases = []string{"alpha", "Beta", "größe", "naïve", "日本", "мир", "zeta", "x", "Ünal", "kappa", "ελ", "co-op", "o", "İzmir", "ȺȾ", "K", "ﬁn", "ẞ", "😀", "e\u0301"}

// plain is a word that is safe everywhere.
func (g *Gen) plain() string {
	g.n++
	g.Words++
	return fmt.Sprintf("%s%s%d", wordBases[g.r.IntN(len(wordBases))], g.id, g.n)
}

// word is a plain word, sometimes with characters that look like markup but are none.
func (g *Gen) word(c cx) string {
	w := g.plain()
	if !g.p(0.12 * g.wt["deco"]) {
		return w
	}
	ds := []string{"(%s)", "%s,", "%s.", "„%s“", "%s%%", "%s's", "%s;", "%s!", "%s?", "a=%s", "C#%s", "$%s", "%s$", "*%s", "#%s", ";%s", "~%s", "%s^2", "`%s`", "\"%s\"", "AT&amp;%s", "%s&nbsp;5", "R&D%s", "-%s", "+%s", "–%s—", "_%s_", "%s/2", "%s\\n", "==%s", "&#91;%s", "don't%s", "%s*", "%s=", "}%s", "%s{", "…%s", "&lt;%s&gt;", "{%s}", "(%s", "%s)", "__%s__", "§%s", "%s²", "½%s", "&%s;", "%s &lt;br&gt;"}
	if !c.inTmpl && !c.noLink {
		ds = append(ds, "[%s]", "(%s]", "[%s)")
		ds = ds[:len(ds)-2] // unbalanced single brackets only where nothing may be matched across
	}
	if !c.noCmt {
		ds = append(ds, "%s-->", "-->%s", "--%s")
	}
	if !c.noColon {
		ds = append(ds, "%s:", "10:%s", "https://ex.org/%s?a=b&c=%%20")
	}
	if !c.noPipe {
		ds = append(ds, "%s|x", "a!!%s", "a||%s")
	}
	if c.inTmpl {
		ds = []string{"(%s)", "%s,", "%s.", "„%s“", "%s%%", "%s's", "%s;", "$%s", "~%s", "\"%s\"", "R&D%s", "%s/2", "%s+1"}
	}
	d := ds[g.r.IntN(len(ds))]
	g.feat("deco")
	if g.p(0.15) { // looks like something the program uses internally
		g.feat("lookalike")
		d = "%s" + g.lookalike()
		if g.p(0.4) { // two of them sharing a part
			d += strings.TrimPrefix(g.lookalike(), "$$")
		}
	}
	return fmt.Sprintf(d, w)
}

func (g *Gen) lookalike() string {
	return fmt.Sprintf("$$TOKEN_%s_%d$$", g.pick("INTERNAL_LINK", "INTERNAL_LINK", "EXTERNAL_LINK", "IMAGE_INLINE", "IMAGE", "REF_MATH", "REF_MATH", "STRING", "REF_USAGE", "REF_DEF", "TABLE", "DESCRIPTION_LIST", "UNORDERED_LIST", "HEADING_2", "HEADINNOWIKI"), g.r.IntN(60))
}

func (g *Gen) words(n int) string {
	var x []string
	for i := 0; i < n; i++ {
		x = append(x, g.plain())
	}
	return strings.Join(x, " ")
}

// text is inline content that starts and ends with a plain word.
func (g *Gen) text(c cx, n int) frag {
	f := lit(g.plain())
	if n > 0 {
		f = f.add(lit(" ")).add(g.inline(c, n))
	}
	return f.add(lit(" " + g.plain()))
}

// free is inline content without that restriction, but never empty.
func (g *Gen) free(c cx, n int) frag {
	if g.p(0.5) {
		return g.text(c, n)
	}
	f := g.inline(c, n)
	switch {
	case g.p(0.5):
		return lit(g.plain() + " ").add(f)
	}
	return f.add(lit(" " + g.plain()))
}

// inline builds a sequence of units with bold and italic toggles between them.
func (g *Gen) inline(c cx, n int) frag {
	if n < 1 {
		n = 1
	}
	styled := !c.noStyle && g.p(0.3*g.wt["style"]/3+0.05)
	if g.wt["style"] == 0 {
		styled = false
	}
	ci := c
	if styled {
		ci.noStyle = true
		g.feat("style")
	}
	var src, exp strings.Builder
	b, i := false, false
	toggle := func(tb, ti bool) {
		// source: one run of quotes; expected: the style of every word is given by the state
		q := 0
		if tb {
			q += 3
		}
		if ti {
			q += 2
		}
		src.WriteString(strings.Repeat("'", q))
		if i {
			exp.WriteString("</i>")
		}
		if b {
			exp.WriteString("</b>")
		}
		if tb {
			b = !b
		}
		if ti {
			i = !i
		}
		if b {
			exp.WriteString("<b>")
		}
		if i {
			exp.WriteString("<i>")
		}
	}
	for k := 0; k < n; k++ {
		if k > 0 {
			src.WriteString(" ")
			exp.WriteString(" ")
		}
		if styled && g.p(0.6) {
			switch g.r.IntN(5) {
			case 0, 1:
				toggle(true, false)
			case 2, 3:
				toggle(false, true)
			case 4:
				toggle(true, true)
			}
		}
		var u frag
		switch {
		case styled && g.p(0.6):
			u = lit(g.plain())
		case styled: // nothing that could end or start with a quote next to a run of quotes
			u = lit(g.plain() + " ").add(g.unit(ci)).add(lit(" " + g.plain()))
		default:
			u = g.unit(ci)
		}
		src.WriteString(u.src)
		exp.WriteString(u.exp)
		if styled && (b || i) && g.p(0.3) { // close right behind the word, as usual in articles
			tb, ti := b && g.p(0.7), i && g.p(0.7)
			if tb || ti {
				toggle(tb, ti)
			}
		}
	}
	if b || i {
		tb, ti := b, i
		if tb && ti && g.p(0.3) { // close one after the other
			toggle(true, false)
			w := g.plain()
			src.WriteString(w)
			exp.WriteString(w)
			tb = false
		}
		toggle(tb, ti)
	}
	return frag{src.String(), exp.String()}
}

// unit is one word or one inline construct.
func (g *Gen) unit(c cx) frag {
	if c.depth > 3 || g.p(0.55) {
		return lit(g.word(c))
	}
	names := []string{}
	on := func(ok bool, n string) {
		if ok && g.wt[n] > 0 {
			names = append(names, n)
		}
	}
	on(!c.noLink, "ilink")
	on(!c.noLink, "dead")
	on(!c.noLink && !c.noColon, "elink")
	on(!c.noMath, "math")
	on(!c.noImg, "iimg")
	on(!c.noNowiki, "nowiki")
	on(!c.noCmt, "comment")
	on(!c.noRef, "ref")
	on(!c.noTmpl && c.depth < 3, "tmpl")
	on(!c.noTmpl, "igntmpl")
	on(!c.noHTML, "html")
	if len(names) == 0 {
		return lit(g.word(c))
	}
	k := g.choose(names...)
	g.feat(k)
	d := c
	d.depth++
	switch k {
	case "ilink":
		return g.ilink(d)
	case "dead":
		return frag{g.deadLink(c), ""}
	case "elink":
		return g.elink(d)
	case "math":
		return g.math(d)
	case "iimg":
		return g.inlineImage()
	case "nowiki":
		return g.nowiki()
	case "comment":
		return frag{g.comment(), ""}
	case "ref":
		return g.ref(d)
	case "tmpl":
		return g.tmpl(d)
	case "igntmpl":
		return frag{g.ignoredTmpl(), ""}
	case "html":
		return g.html(d)
	}
	return lit(g.word(c))
}

func (g *Gen) inner(c cx) cx {
	c.noLink, c.noRef, c.noImg, c.noBr = true, true, true, true
	return c
}

func (g *Gen) target() string {
	t := g.pick("Stern", "Röntgen", "Big Bang", "Foo (Bar)", "A & B", "50 %", "C++", "O'Neill", "日本", "x-y", "St. Paul", "a, b", "Was ist?") + " " + g.id
	g.n++
	g.Words++
	return fmt.Sprintf("%s%d", t, g.n)
}

func (g *Gen) ilink(c cx) frag {
	t := g.target()
	if len(g.pool) > 0 && g.p(0.6) {
		t = g.pool[min(g.r.IntN(len(g.pool)), g.r.IntN(len(g.pool)))]
	}
	d := g.inner(c)
	d.noPipe = false
	if c.inTmpl {
		d.noPipe = true
	}
	if g.p(0.04) && !g.marks { // a section of this article
		x := "#" + g.pick("Sec ", "ü", "No. #") + g.plain()
		g.feat("section-link")
		return frag{"[[" + x + "]]", x}
	}
	k := g.r.IntN(12)
	if g.marks && k == 8 {
		k = 9 // the number of words of "[[foo]]s" is a matter of taste
	}
	switch k {
	case 0, 1:
		return frag{"[[" + t + "]]", g.mark(t, t)}
	case 2:
		return frag{"[[ " + t + " ]]", g.mark(t, t)}
	case 3:
		return frag{"[[" + t + "#Sec " + g.pick("a", "b:c", "ü", "C# 1", "a#b") + "]]", g.mark(t, t)}
	case 4:
		x := g.linkText(d)
		return frag{"[[" + t + "#" + g.pick("Sec", "Part 1: x", "a_b", "No. #1", "#x") + "|" + x.src + "]]", g.mark(t, x.exp)}
	case 5:
		return frag{"[[:Category:" + t + "]]", g.mark(":Category:"+t, t)}
	case 6:
		x := g.linkText(d)
		return frag{"[[:Category:" + t + "|" + x.src + "]]", g.mark(":Category:"+t, x.exp)}
	case 7:
		x := g.linkText(d)
		p := g.pick("doi:10.1/", "arxiv:", "Doi:")
		return frag{"[[" + p + t + "|" + x.src + "]]", g.mark(p+t, x.exp)}
	case 8:
		return frag{"[[" + t + "]]s", t + "s"}
	case 9:
		x := g.linkText(d)
		return frag{"(" + "[[" + t + "|" + x.src + "]]" + "),", "(" + g.mark(t, x.exp) + "),"}
	case 10:
		w, e := g.plain(), g.plain()
		return frag{"[[" + t + "|" + w + ": " + e + "]]", g.mark(t, w+": "+e)}
	}
	x := g.linkText(d)
	return frag{"[[" + t + "|" + x.src + "]]", g.mark(t, x.exp)}
}

func (g *Gen) linkText(c cx) frag {
	return g.lead(c, g.linkText0(c))
}

func (g *Gen) linkText0(c cx) frag {
	switch g.r.IntN(4) {
	case 0:
		return lit(g.plain())
	case 1:
		return lit(g.words(2))
	}
	return g.text(c, 1+g.r.IntN(2))
}

// deadLink is a link that must vanish completely.
func (g *Gen) deadLink(c cx) string {
	t := g.plain()
	g.Words--
	n := 7
	if c.noImg {
		n = 6
	}
	switch g.r.IntN(n) {
	case 0:
		return "[[Category:" + t + "]]"
	case 1:
		return "[[category:" + t + "|sort " + t + "]]"
	case 2:
		return "[[de:" + t + "]]"
	case 3:
		return "[[wikt:" + t + "|gone" + t + "]]"
	case 4:
		return "[[Category:" + t + " (x)|*]]"
	case 5:
		return "[[foo bar:" + t + "#x|gone: " + t + "]]"
	}
	g.Ignored = append(g.Ignored, strings.ToUpper(t[:1])+t[1:])
	return "[[File:" + t + "." + g.pick("ogg", "gif", "MP4", "wav", "webm") + g.pick("", "|thumb|gone"+t, "|20px") + "]]"
}

func (g *Gen) elink(c cx) frag {
	d := g.inner(c)
	u := g.pick("http", "https") + "://" + g.pick("ex.org", "www.example.com:8080", "müller.de") + "/" + g.id + fmt.Sprint(g.n) + g.pick("", "/a_b", "?q=1&r=%20x", "#frag", "/(x)", "/a,b;c", "/~u/=", "/x'y")
	switch g.r.IntN(8) {
	case 0: // no text: no link
		return lit("[" + u + "]")
	case 1: // brackets around words
		return lit("[" + g.plain() + " " + g.plain() + "]")
	case 2: // unsupported protocol: only the text
		x := g.linkText(d)
		return frag{"[" + g.pick("ftp", "irc", "gopher") + "://ex.org/a " + x.src + "]", x.exp}
	case 3:
		x := lit(g.words(2))
		return frag{"(" + "[" + u + " " + x.src + "])", "(<a href=\"" + u + "\">" + x.exp + "</a>)"}
	}
	x := g.linkText(d)
	return frag{"[" + u + " " + x.src + "]", "<a href=\"" + u + "\">" + x.exp + "</a>"}
}

func (g *Gen) formula(c cx) string {
	g.n++
	k := fmt.Sprintf("m_{%s%d}", g.id, g.n)
	if len(g.Maths) > 0 && g.p(0.25) { // repeat a formula
		var ks []string
		for q := range g.Maths {
			ks = append(ks, q)
		}
		sort.Strings(ks)
		k := ks[g.r.IntN(len(ks))]
		if g.p(0.4) { // a formula that is nearly the same
			v := strings.Replace(k, " ", g.pick("", "  "), 1)
			if g.p(0.4) {
				v = strings.Replace(k, "x", "X", 1)
			}
			if v != k && !strings.HasPrefix(strings.TrimSpace(v), "*") && !strings.HasPrefix(strings.TrimSpace(v), "=") && !strings.Contains(v, "|") {
				g.feat("math-similar")
				return v
			}
		}
		return k
	}
	ts := []string{"x^2 + %s", "\\frac{a}{b} %s", "f''(x) = %s", "%s < 5", "a & b \\\\ %s", "\\text{ü %s}", "%s = [1,2]", "\\%s \\;+ 50\\%%", "# %s", "x' + y'' %s", "%s \\left[ a \\right]", "\"%s\"", " %s ", "a+b %s", "[[1,2],%s]", "'''%s", "\\sum_{i=0}^n %s", "%s?a=b&c=d", "f'(%s)", "\\frac{{a}}{{b}} %s", "{{%s}}", "[[a:b]] %s", "{{a|%s}}", "x_{a_{b}} + {{%s", "\\sqrt{\\frac{1}{%s}}"}
	if !c.inTmpl {
		ts = append(ts, "|%s|", "== %s ==", "* %s")
	}
	t := ts[g.r.IntN(len(ts))]
	if g.p(0.05) { // long, and the same at the beginning or at the end
		l := strings.Repeat("x^{2} ", 30+g.r.IntN(80))
		g.feat("math-long")
		return g.pick(l+k, k+l, l+k+l)
	}
	return fmt.Sprintf(t, k)
}

func mathLabel(q string, svgOnly string) string { return "MATH " + mathHash(q) + svgOnly }

func mathQuery(f string) string { return `{\displaystyle ` + f + `}` }

func (g *Gen) math(c cx) frag {
	f := g.formula(c)
	g.Maths[f]++
	q := mathQuery(f)
	wd, ht, st := MathSize(q)
	tag := g.pick("<math>", "<math>", "<math>", "<math display=\"inline\">", "<math chem>", "<Math>", "<math>")
	return frag{tag + f + g.pick("</math>", "</math>", "</math>", "</MATH>"), fmt.Sprintf(`<img alt="image" src="LABEL:%s" style="width: %s; height: %s; %s">`, mathLabel(q, g.mathSuf), wd, ht, st)}
}

func (g *Gen) nowiki() frag {
	w := g.plain()
	t := fmt.Sprintf(g.pick("''%s''", "[[%s]]", "<b>%s</b>", "== %s ==", "* %s", "'''%s", "[http://x.org %s]", "{|%s|}", "<ref>%s</ref>", "a|%s", "#%s", "<math>%s</math>", "&lt;%s&gt;", "%s<br>", "$%s$", "'%s'", "<%s", "%s>", "{{%s}}", "{{a|%s}}", "[[x:%s]]", "[[Category:%s]]", "<!-- %s -->", "{{%s", "%s}}", "{{"+ignoredTmplName+"|%s}}", "* %s\n*", "__NOTOC__ %s"), w)
	esc := strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(t)
	return frag{g.pick("<nowiki>", "<nowiki>", "<Nowiki>") + t + "</nowiki>", esc}
}

func (g *Gen) comment() string {
	w := "cmt" + g.id
	return "<!--" + fmt.Sprintf(g.pick(" %s ", "%s", " ''%s ", " [[%s]] ", " {{%s}} ", " == %s == ", "\n%s\n", " * %s", " <ref>%s</ref> ", " [[File:%s.png]] ", " '''%s", " {{ %s", " [[%s", " | %s", "- %s", " <!-- %s ", " <math>%s"), w) + "-->"
}

// lineComments puts comments in front of some lines, alone on their line or followed by the text of the line.
func (g *Gen) lineComments(src string) string {
	if strings.Contains(src, "<!--") || strings.Contains(strings.ToLower(src), "<nowiki") || strings.Contains(strings.ToLower(src), "<math") {
		return src
	}
	p := 0.02 * g.wt["cmtblock"]
	lines := strings.Split(src, "\n")
	for i := 1; i < len(lines); i++ {
		if strings.TrimSpace(lines[i]) != "" && strings.TrimSpace(lines[i-1]) != "" && g.p(p) {
			lines[i] = g.comment() + g.pick("", "", "\n", g.comment(), g.comment()+"\n", " \n", "\t\n", " "+g.comment()+"  \n", " "+g.comment()+" \t \n") + lines[i]
		}
	}
	return strings.Join(lines, "\n")
}

func (g *Gen) html(c cx) frag {
	switch g.r.IntN(7) {
	case 0:
		if !c.noBr {
			w := g.plain()
			return lit(g.pick("<br>", "<br/>", "<br />") + w)
		}
	case 1:
		return lit("<sub>" + g.plain() + "</sub>")
	case 2:
		x := g.text(c, 1)
		return frag{"<small>" + x.src + "</small>", "<small>" + x.exp + "</small>"}
	case 3:
		x := g.text(c, 1)
		return frag{`<span style="color: red">` + x.src + "</span>", `<span style="color: red">` + x.exp + "</span>"}
	case 4:
		return lit("<u>" + g.plain() + "</u>")
	}
	return lit("<sup>" + g.plain() + "</sup>")
}

// ---- images ----

func (g *Gen) imageName() (wikitext, canonical string) {
	g.n++
	base := g.pick("Stern", "große Übersicht", "foo bar", "a_b c", "O'Neill (1)", "A & B", "x+y", "50% off", "日本", "IMG 001,2", "été", "a;b=c", "q!u", "st~r", "Administration", "thumbs up", "$5", "a.b.c", "Say \"hi\"", "what?") + fmt.Sprintf(" %s%d", g.id, g.n)
	ext := g.pick("png", "jpg", "JPG", "jpeg", "svg", "SVG", "pdf", "webp", "PNG", "tif")
	name := base + "." + ext
	if len(g.Images) > 0 && g.p(0.08) { // nearly the name of an earlier image
		old := strings.ReplaceAll(g.Images[g.r.IntN(len(g.Images))], "_", " ")
		if k := strings.LastIndex(old, "."); strings.Contains(".png .PNG .jpg .JPG .jpeg .tif", old[k:]) {
			if g.p(0.5) {
				name = old[:k] + g.pick(".png", ".jpg", ".jpeg", ".tif")
			} else if i := len(old[:k]) - 2; i > 3 && strings.Contains(old[:k], "q") {
				i = strings.LastIndex(old[:k], "q")
				name = old[:i] + "Q" + old[i+1:]
			}
			for _, n := range g.Images {
				if n == normTitle(strings.ReplaceAll(name, " ", "_")) {
					name = base + "." + ext
					break
				}
			}
		}
	}
	canonical = normTitle(strings.ReplaceAll(name, " ", "_"))
	switch g.r.IntN(5) {
	case 0:
		name = strings.ReplaceAll(name, " ", "_")
	case 1:
		name = canonical
	case 2:
		if g.p(0.3) {
			name = strings.ReplaceAll(name, " ", "%20")
		}
	}
	return name, canonical
}

// imageContent is what the program must end up with for a downloaded image.
func imageContent(raw, name string, conv map[string]bool, proc bool) string {
	c := raw
	ext := strings.ToLower(name[strings.LastIndex(name, ".")+1:])
	if conv[ext] {
		c = "PNG[" + c + "]"
		ext = "png"
	}
	if proc && ext != "svg" && ext != "pdf" {
		c = "PROC[" + c + "]"
	}
	return c
}

func (g *Gen) newImage() (wikitext, label string, ok bool) {
	name, canon := g.imageName()
	ext := strings.ToLower(name[strings.LastIndex(name, ".")+1:])
	if ext == "pdf" && g.wt["nopdf"] > 0 {
		return g.newImage()
	}
	raw := "IMGDATA " + canon
	if ext == "svg" {
		raw = `<svg width="10px" height="20px" xmlns="http://www.w3.org/2000/svg"><title>` + hashs(canon) + `</title></svg>`
	}
	host := g.pick("commons.wikimedia.org", "en.wikipedia.org")
	if g.p(0.15) {
		g.w.AddImageRedirect(host, canon, "Target "+canon, []byte(raw))
	} else {
		g.w.AddImage(host, canon, []byte(raw))
	}
	g.Images = append(g.Images, canon)
	g.ImgLabel[canon] = imageContent(raw, canon, g.imgConv, g.imgProc)
	return name, g.ImgLabel[canon], true
}

// filePrefix is what names a file, in any upper or lower case.
func (g *Gen) filePrefix() string {
	l := g.files
	if l == nil {
		l = []string{"file", "image", "media"}
	}
	s := g.pick(l...)
	switch g.r.IntN(4) {
	case 0:
	case 1:
		s = strings.ToUpper(s)
	default:
		s = strings.ToUpper(s[:1]) + s[1:]
	}
	if g.p(0.05) {
		s = " " + s
	}
	return s + g.pick(":", ":", ":", ":", ":", ": ", " :")
}

// imgOpts joins parameters of an image, each may have spaces around it.
func (g *Gen) imgOpts(opts ...string) string {
	var sb strings.Builder
	sp := g.p(0.2)
	for _, o := range opts {
		if o == "" {
			continue
		}
		for _, x := range strings.Split(strings.TrimPrefix(o, "|"), "|") {
			if sp {
				x = g.pick("", " ", " ") + x + g.pick("", " ", "  ")
			}
			sb.WriteString("|" + x)
		}
	}
	return sb.String()
}

// ignored are parameters which the configuration ignores.
func (g *Gen) ignoredParam() string {
	if !g.ignImg || g.p(0.6) {
		return ""
	}
	g.feat("ignored-image-param")
	return "|" + g.pick("alt=gone", "left", "right", "upright=1.2", "class=skin gone", "alt=", "upright")
}

// dim is a width or height, now and then a very large one.
func (g *Gen) dim(lo, n int) int {
	if g.p(0.15) {
		return 1000 + g.r.IntN(4000)
	}
	return lo + g.r.IntN(n)
}

// px writes a size, which may hold blanks.
func (g *Gen) px(format string, a ...any) string {
	s := fmt.Sprintf(format, a...)
	if g.p(0.12) {
		s = g.pick(strings.Replace(s, "px", " px", 1), strings.Replace(s, "x", " x ", 1))
		if strings.HasSuffix(s, " x px") || strings.HasSuffix(s, "p x ") {
			s = fmt.Sprintf(format, a...)
		}
	}
	return s
}

func (g *Gen) inlineImage() frag {
	name, label, _ := g.newImage()
	pre := g.filePrefix()
	x, y := -1, -1
	opt := ""
	switch g.r.IntN(4) {
	case 0:
		x = 1 + g.r.IntN(99)
		opt = g.px("|%dpx", x)
	case 1:
		y = 1 + g.r.IntN(49)
		opt = g.px("|x%dpx", y)
	case 2:
		x, y = 1+g.r.IntN(99), 1+g.r.IntN(49)
		opt = g.px("|%dx%dpx", x, y)
	}
	if g.p(0.2) {
		opt += "|alt=gone"
	}
	opt = g.imgOpts(g.ignoredParam(), opt, g.ignoredParam())
	return frag{"[[" + pre + name + opt + "]]", `<img alt="image" class="inline" src="LABEL:` + escLabel(label) + `" ` + sizeStyle(x, y) + `>`}
}

func escLabel(s string) string {
	return strings.NewReplacer("&", "&amp;", `"`, "&quot;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func sizeStyle(x, y int) string {
	if x < 0 && y < 0 {
		return ""
	}
	s := `style="vertical-align: middle; `
	if x >= 0 {
		s += fmt.Sprintf("width: %dpx; ", x)
	} else {
		s += "width: auto; "
	}
	if y >= 0 {
		s += fmt.Sprintf("height: %dpx;", y)
	} else {
		s += "height: auto;"
	}
	return s + `"`
}

func figure(label, style, caption string) string {
	return `<div class="figure"><img alt="image" src="LABEL:` + escLabel(label) + `" ` + style + `><div class="caption">` + caption + `</div></div>`
}

// thumb is an image on a line of its own.
func (g *Gen) thumb(c cx) frag {
	name, label, _ := g.newImage()
	c = g.captionCx(c)
	pre := g.filePrefix()
	x, y := -1, -1
	size := ""
	switch g.r.IntN(5) {
	case 0:
		x = g.dim(20, 400)
		size = g.px("|%dpx", x)
	case 1:
		x, y = g.dim(20, 400), g.dim(20, 200)
		size = g.px("|%dx%dpx", x, y)
	case 2:
		y = g.dim(20, 200)
		size = g.px("|x%dpx", y)
	}
	if g.p(0.15) { // large, but no thumbnail: no caption
		x, y = 200+g.r.IntN(300), -1
		opt := g.px("|%dpx", x)
		switch g.r.IntN(4) {
		case 0:
			x, y = -1, 120+g.r.IntN(300)
			opt = g.px("|x%dpx", y)
		case 1:
			y = g.dim(10, 300)
			opt = g.px("|%dx%dpx", x, y)
		case 2:
			x, y = g.dim(10, 300), 120+g.r.IntN(300)
			opt = g.px("|%dx%dpx", x, y)
		}
		g.feat("large-without-type")
		return frag{"[[" + pre + name + g.imgOpts(g.ignoredParam(), opt, g.ignoredParam()) + "]]", figure(label, sizeStyle(x, y), "")}
	}
	kind := g.pick("|thumb", "|mini", "|thumb", "|thumbnail", "|miniatur")
	opts := []string{kind, size, g.pick("", "|left", "|right|upright=0.7")}
	g.r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	if g.p(0.15) { // no caption
		return frag{"[[" + pre + name + g.imgOpts(kind, size, g.ignoredParam()) + "]]", figure(label, sizeStyle(x, y), "")}
	}
	cap := g.caption(c)
	if x >= 0 && y < 0 && g.p(0.15) { // the last of two sizes counts
		opts = append([]string{fmt.Sprintf("|%dpx", 1+g.r.IntN(500))}, opts...)
		g.feat("two-sizes")
	}
	opts = append(opts, g.ignoredParam())
	return frag{"[[" + pre + name + g.imgOpts(opts...) + "|" + cap.src + g.imgOpts(g.ignoredParam()) + "]]", figure(label, sizeStyle(x, y), cap.exp)}
}

func (g *Gen) captionCx(c cx) cx {
	c.noPipe, c.noImg, c.noTmpl, c.noBr = true, true, true, true
	c.depth++
	return c
}

func (g *Gen) caption(c cx) frag {
	f := g.lead(c, g.text(c, g.r.IntN(4)))
	if g.p(0.1) {
		f = lit(g.pick("miniature ", "thumbs ", "left-hand ", "left side ", "alternative = ", "upright piano ", "class of ", "[x] ", "10px ")).add(f)
	}
	if g.p(0.07) {
		f = f.add(lit(g.pick(" 20px", " 1x2 px", " mini", " thumb")))
	}
	return f
}

func (g *Gen) gallery(c cx) frag {
	c = g.captionCx(c)
	var src, exp []string
	open := g.pick("<gallery>", "<gallery>", `<gallery mode="packed" heights=100>`, "<Gallery>")
	n := 1 + g.r.IntN(4)
	for i := 0; i < n; i++ {
		name, label, _ := g.newImage()
		if g.p(0.1) {
			src = append(src, "Gone"+g.id+"."+g.pick("ogg", "gif")+"|"+"gone")
			g.Ignored = append(g.Ignored, "Gone"+g.id)
		}
		pre := g.pick("", "File:", g.filePrefix())
		if i > 0 && g.p(0.1) {
			src = append(src, "")
		}
		if g.p(0.25) {
			src = append(src, pre+name)
			exp = append(exp, figure(label, "", ""))
			continue
		}
		cap := g.caption(c)
		src = append(src, pre+name+"|"+cap.src)
		exp = append(exp, figure(label, "", cap.exp))
	}
	s := open + "\n"
	if g.p(0.2) {
		s = open
	}
	end := "\n"
	if g.p(0.2) {
		end = g.pick("", " ")
		g.feat("area-end-in-line")
	}
	return frag{s + strings.Join(src, "\n") + end + g.pick("</gallery>", "</Gallery>"), strings.Join(exp, "\n")}
}

func (g *Gen) imagemap(c cx) frag {
	t := g.thumb(cx{depth: 3, noLink: true, noRef: true, noMath: true, noNowiki: true, noCmt: true, noHTML: true, noStyle: true, noTmpl: true, noImg: true})
	inner := strings.TrimSuffix(strings.TrimPrefix(t.src, "[["), "]]")
	open := g.pick("<imagemap>\n", "<imagemap>", "<Imagemap>\n")
	return frag{open + inner + "\n" + g.pick("", "# a comment\n") + "rect 0 0 10 10 [[Gone]]\npoly 1 2 3 4 [[Gone|gone too]]\ndesc bottom-left" + g.pick("\n", "\n", "\n", " ") + "</imagemap>", t.exp}
}

// ---- references ----

func (g *Gen) refGroup(name string) *refState {
	s := g.refs[name]
	if s == nil {
		s = &refState{num: map[string]int{}, pending: map[int]string{}, undef: map[string]int{}, done: map[string]bool{}}
		g.refs[name] = s
	}
	return s
}

func (g *Gen) refText(c cx) frag {
	d := c
	d.noRef, d.noImg, d.noPipe, d.noColon, d.noBr = true, true, true, false, true
	return g.lead(d, g.text(d, g.r.IntN(3)))
}

func attr(g *Gen, k, v string, quoteNeeded bool) string {
	if g.p(0.1) { // the names of attributes know no case
		k = g.pick(strings.ToUpper(k), strings.ToUpper(k[:1])+k[1:])
		g.feat("attr-case")
	}
	switch g.r.IntN(4) {
	case 0:
		if !quoteNeeded {
			return " " + k + "=" + v
		}
	case 1:
		return " " + k + "='" + v + "'"
	case 2:
		return " " + k + ` = "` + v + `"`
	}
	return " " + k + `="` + v + `"`
}

// ref is a definition or a use of a reference.
func (g *Gen) ref(c cx) frag {
	gr := ""
	if g.p(0.25) {
		gr = g.pick("lower", "Anm. 1", "nb")
	}
	s := g.refGroup(gr)
	ga := ""
	if gr != "" {
		ga = attr(g, "group", gr, strings.Contains(gr, " "))
	}
	var known []string
	for n := range s.num {
		known = append(known, n)
	}
	sort.Strings(known)
	use := func(name string) frag {
		a := []string{attr(g, "name", name, strings.Contains(name, " ")), ga}
		if g.p(0.3) {
			a[0], a[1] = a[1], a[0]
		}
		return frag{"<ref" + a[0] + a[1] + g.pick("/>", " />"), g.refNo(s.num[name] + 1)}
	}
	if len(known) > 0 && g.p(0.4) {
		name := known[g.r.IntN(len(known))]
		if _, ok := s.undef[name]; ok && g.p(0.4) { // the definition comes after the first use
			num := s.num[name]
			delete(s.undef, name)
			x := g.refText(c)
			s.pending[num] = x.exp
			g.feat("ref-late-def")
			return frag{"<ref" + attr(g, "name", name, strings.Contains(name, " ")) + ga + ">" + x.src + "</ref>", g.refNo(num + 1)}
		}
		return use(name)
	}
	if g.p(0.4) { // unnamed
		num := s.next
		s.next++
		x := g.refText(c)
		s.pending[num] = x.exp
		return frag{g.pick("<ref", "<ref", "<Ref") + ga + ">" + x.src + "</ref>", g.refNo(num + 1)}
	}
	g.n++
	name := g.pick("n", "Smith ", "ü", "a.b", "x-y:", "Müller2000 p. ") + fmt.Sprint(g.n)
	if g.p(0.05) {
		name = "group" + fmt.Sprint(g.n)
	}
	if g.p(0.35) { // groups have names of their own
		var others []string
		for _, o := range g.refs {
			for n := range o.num {
				if _, ok := s.num[n]; !ok {
					others = append(others, n)
				}
			}
		}
		if len(others) > 0 {
			sort.Strings(others)
			name = g.pick(others...)
			g.feat("same-name-in-groups")
		}
	}
	if len(known) > 0 && g.p(0.12) { // names which differ in case only
		v := strings.ToUpper(known[g.r.IntN(len(known))])
		if _, ok := s.num[v]; !ok {
			name = v
			g.feat("ref-name-case")
		}
	}
	num := s.next
	s.next++
	s.num[name] = num
	if g.p(0.3) { // used before it is defined
		s.undef[name] = num
		return use(name)
	}
	x := g.refText(c)
	s.pending[num] = x.exp
	a := []string{attr(g, "name", name, strings.Contains(name, " ")), ga}
	if g.p(0.3) {
		a[0], a[1] = a[1], a[0]
	}
	return frag{"<ref" + a[0] + a[1] + ">" + x.src + "</ref>", g.refNo(num + 1)}
}

// refList closes a group: everything used so far and not yet listed, undefined names being defined in the list.
func (g *Gen) refList(gr string) frag {
	s := g.refGroup(gr)
	ga := ""
	if gr != "" {
		ga = attr(g, "group", gr, strings.Contains(gr, " "))
	}
	var und []string
	for n := range s.undef {
		und = append(und, n)
	}
	sort.Strings(und)
	g.r.Shuffle(len(und), func(i, j int) { und[i], und[j] = und[j], und[i] })
	src := ""
	if len(und) == 0 {
		src = "<references" + ga + g.pick("/>", " />")
		if g.p(0.15) {
			src = "<references" + ga + "></references>"
		}
	} else {
		g.feat("ref-listdef")
		src = "<references" + ga + ">\n"
		for _, n := range und {
			d := cx{depth: 1, noRef: true, noImg: true}
			x := g.refText(d)
			s.pending[s.undef[n]] = x.exp
			src += "<ref" + attr(g, "name", n, strings.Contains(n, " ")) + ga + ">" + x.src + "</ref>\n"
		}
		src += "</references>"
		s.undef = map[string]int{}
	}
	var nums []int
	for n := range s.pending {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	exp := ""
	for _, n := range nums {
		if g.marks {
			exp += "<rd></rd>" + s.pending[n] + "<br>\n"
			continue
		}
		exp += fmt.Sprintf("[%d] %s<br>\n", n+1, s.pending[n])
	}
	s.pending = map[int]string{}
	g.feat("reflist")
	return frag{src, exp}
}

func (g *Gen) openGroups() []string {
	var out []string
	for n, s := range g.refs {
		if len(s.pending) > 0 || len(s.undef) > 0 {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// ---- templates ----

const argMark = "\x01"
const lenMark = "\x02" // the length of the argument

// body makes a new template; its wikitext may use the argument once or twice.
func (g *Gen) newBody(block bool) string {
	g.tmplN++
	name := fmt.Sprintf("%s%s%d", g.pick("Foo", "infobox x", "t", "ÜBersicht", "Lang-"), g.id, g.tmplN)
	c := cx{noRef: true, noTmpl: true, depth: 2, noCmt: true, noPipe: true, noColon: true}
	var f frag
	if block {
		switch g.r.IntN(3) {
		case 0:
			a, b := g.text(c, 1), g.plain()
			f = frag{"\n* " + a.src + "\n* " + b + " " + argMark + " x\n", "<ul><li>" + a.exp + "</li><li>" + b + " " + argMark + " x</li></ul>"}
		case 1:
			a, b := g.plain(), g.plain()
			f = frag{"\n{| class=\"x\"\n! " + a + "\n|-\n| " + b + " || " + argMark + " x\n|}\n", `<div class="figure"><table><tr><th>` + a + `</th></tr><tr><td>` + b + `</td><td>` + argMark + ` x</td></tr></table><div class="caption"></div></div>`}
		default:
			a := g.text(c, 2)
			f = frag{a.src + " " + argMark + " x", a.exp + " " + argMark + " x"}
		}
	} else {
		switch g.r.IntN(6) {
		case 0:
			f = lit(argMark)
		case 1:
			a := g.text(c, 2)
			f = a.add(lit(" " + argMark + " ")).add(lit(g.plain()))
		case 2:
			f = frag{"''" + "x" + argMark + "x''", "<i>x" + argMark + "x</i>"}
			f = lit(g.plain()).add(lit(argMark)).add(lit(g.plain()))
		case 3:
			t := g.target()
			f = frag{"[[" + t + "|y " + argMark + " z]]", g.mark(t, "y "+argMark+" z")}
		case 4:
			f = lit(g.plain() + argMark + " and " + argMark)
		case 5:
			f = g.text(c, 1)
		}
	}
	g.bodies[name] = tmplBody{f.src, f.exp}
	g.bnames = append(g.bnames, name)
	return name
}

func (g *Gen) tmpl(c cx) frag {
	g.feat("tmpl")
	var name string
	var inl []string
	for _, n := range g.bnames {
		if !strings.Contains(g.bodies[n].src, "\n") {
			inl = append(inl, n)
		}
	}
	if len(inl) > 0 && g.p(0.4) {
		name = inl[g.r.IntN(len(inl))]
	} else {
		name = g.newBody(false)
	}
	if g.p(0.15) {
		return g.chain(c)
	}
	if g.p(0.06) { // the length of the argument, as written
		name = fmt.Sprintf("len%s%d", g.id, g.r.IntN(2))
		g.bodies[name] = tmplBody{"l" + lenMark + "l", "l" + lenMark + "l"}
		return g.call(name, c)
	}
	if c.noLink && strings.Contains(g.bodies[name].src, "[") {
		return lit(g.plain())
	}
	if c.noLink || c.noStyle || c.noColon || c.noMath || c.noNowiki || c.noBr || c.noImg || c.noHTML {
		// only bodies of plain words fit everywhere
		g.tmplN++
		name = fmt.Sprintf("plain%s%d", g.id, g.tmplN)
		g.bodies[name] = tmplBody{"a" + argMark + "b", "a" + argMark + "b"}
	}
	return g.call(name, c)
}

// chain is a deeply nested call of templates that are the same in all articles, or a part of an earlier one.
func (g *Gen) chain(c cx) frag {
	g.feat("tmpl-chain")
	if len(g.chains) > 0 && g.p(0.5) {
		f := g.chains[g.r.IntN(len(g.chains))]
		g.Templates[f.src]++
		return f
	}
	a := lit(g.plain())
	literal := !c.noNowiki && g.p(0.4)
	if literal {
		g.feat("tmpl-nowiki")
		a = a.add(lit(" ")).add(g.pickNowiki()).add(lit(" "))
		if g.p(0.3) { // the same call but for the literal text
			k := g.pickNowiki()
			a = k
		}
	}
	for i := 1 + g.r.IntN(6); i > 0; i-- {
		k := g.r.IntN(8)
		name := fmt.Sprintf("wrap %d", k)
		g.bodies[name] = tmplBody{fmt.Sprintf("a%d ", k) + argMark + " b", fmt.Sprintf("a%d ", k) + argMark + " b"}
		a = frag{"{{" + name + "|" + a.src + "}}", fmt.Sprintf("a%d ", k) + a.exp + " b"}
		g.Templates[a.src]++
		if !literal {
			g.chains = append(g.chains, a)
		}
	}
	return a
}

// pickNowiki is literal text that may stand in an argument of a template.
func (g *Gen) pickNowiki() frag {
	t := fmt.Sprintf(g.pick("''%s''", "[[%s]]", "'''%s", "[http://x.org %s]", "#%s", "[[x:%s]]", "%s"), g.plain())
	return frag{"<nowiki>" + t + "</nowiki>", t}
}

// call is one use of a template with an argument, which may contain further calls.
func (g *Gen) call(name string, c cx) frag {
	d := c
	d.depth++
	d.inTmpl, d.noRef, d.noPipe, d.noStyle, d.noNowiki, d.noImg, d.noLink, d.noMath, d.noHTML, d.noColon, d.noBr = true, true, true, true, true, true, true, true, true, true, true
	a := frag{}
	sep := ""
	switch g.r.IntN(5) {
	case 0:
	case 1, 2:
		sep = "|"
		a = lit(g.plain())
	default:
		sep = "|"
		a = g.text(d, 1+g.r.IntN(2))
	}
	if g.p(0.2) || strings.HasPrefix(name, "len") { // a call which is nearly the same as an earlier one
		old, ok := g.plainArgs[name]
		if !ok {
			old = g.words(2)
			if g.p(0.3) {
				old = strings.Repeat("long and long ", 20+g.r.IntN(60)) + old
			}
		}
		v := old
		if ok {
			switch g.r.IntN(4) {
			case 0:
				v = strings.ToUpper(old)
			case 1:
				v = strings.Replace(old, " ", "  ", 1)
			case 2:
				v = old + " " + g.plain()
			default:
				v = strings.TrimRight(old, "0123456789") + fmt.Sprint(g.n+1000)
			}
			g.feat("tmpl-similar")
		}
		if g.plainArgs == nil {
			g.plainArgs = map[string]string{}
		}
		g.plainArgs[name] = v
		sep, a = "|", lit(v)
	}
	b := g.bodies[name]
	text := "{{" + g.pick("", "", " ") + name + g.pick("", "", " ") + sep + a.src + "}}"
	g.Templates[text]++
	if strings.Contains(a.src, "{{") {
		g.feat("tmpl-nested")
	}
	return frag{text, strings.ReplaceAll(strings.ReplaceAll(b.exp, argMark, a.exp), lenMark, fmt.Sprint(len(a.src)))}
}

// ExpandWith is the fake wiki's template engine for the bodies of some generators.
func ExpandWith(find func(name string) (tmplBody, bool)) func(text string) string {
	return func(text string) string {
		t := strings.TrimSuffix(strings.TrimPrefix(text, "{{"), "}}")
		name, arg, _ := strings.Cut(t, "|")
		b, ok := find(strings.TrimSpace(name))
		if !ok {
			return text
		}
		return strings.ReplaceAll(strings.ReplaceAll(b.src, argMark, arg), lenMark, fmt.Sprint(len(arg)))
	}
}

const ignoredTmplName = "Navbox gone"
const trailingTmplName = "Trailer"

func (g *Gen) ignoredTmpl() string {
	g.IgnTmpl = append(g.IgnTmpl, ignoredTmplName)
	return "{{" + g.pick(ignoredTmplName, "navbox gone", "Navbox Gone") + g.pick("", "|gone", "\n| a = [[gone]]\n| b = {{x|gone}}\n") + "}}"
}

// ---- blocks ----

func (g *Gen) para(c cx) frag {
	n := 1 + g.r.IntN(3)
	var src, exp []string
	for i := 0; i < n; i++ {
		var f frag
		bold := g.p(0.04*g.wt["style"]) && !c.noStyle && i+2 == n // a line of bold text with more text below
		if bold {
			a := g.words(2)
			f = frag{"'''" + a + "'''", "<b>" + a + "</b>"}
		} else {
			if g.p(0.03) {
				f = g.short()
			} else {
				f = g.edge(c, g.text(c, 1+g.r.IntN(6)))
			}
		}
		if !bold && g.p(0.06*g.wt["style"]) && !c.noStyle { // formatting at the ends of the line
			a, b := g.words(2), g.words(2)
			f = frag{"'''" + a + "''' ", "<b>" + a + "</b> "}.add(f).add(frag{" '''" + b + "'''", " <b>" + b + "</b>"})
			g.feat("boldends")
		}
		src = append(src, f.src)
		exp = append(exp, f.exp)
	}
	return frag{strings.Join(src, "\n"), strings.Join(exp, "\n")}
}

// edge sometimes lets a text start or end with a construct.
func (g *Gen) edge(c cx, f frag) frag {
	one := func() (frag, bool) {
		var names []string
		on := func(ok bool, n string) {
			if ok && g.wt[n] > 0 {
				names = append(names, n)
			}
		}
		on(!c.noLink, "ilink")
		on(!c.noLink && !c.noColon, "elink")
		on(!c.noMath, "math")
		on(!c.noImg, "iimg")
		on(!c.noNowiki, "nowiki")
		on(!c.noRef, "ref")
		on(!c.noHTML, "html")
		if len(names) == 0 || c.depth > 2 {
			return frag{}, false
		}
		k := g.choose(names...)
		g.feat(k)
		g.feat("edge")
		d := c
		d.depth++
		switch k {
		case "ilink":
			return g.ilink(d), true
		case "elink":
			return g.elink(d), true
		case "math":
			return g.math(d), true
		case "iimg":
			return g.inlineImage(), true
		case "nowiki":
			return g.nowiki(), true
		case "ref":
			return g.ref(d), true
		}
		return g.html(d), true
	}
	// in the order of the text, because references are numbered
	if g.p(0.1) {
		// the text exists already, so only what needs no number may come first
		r := c
		c.noRef = true
		if x, ok := one(); ok {
			f = x.add(lit(" ")).add(f)
		}
		c = r
	}
	if g.p(0.1) {
		if x, ok := one(); ok {
			f = f.add(lit(" ")).add(x)
		}
	}
	return f
}

// lead sometimes lets a text start with the characters of lists, which are normal text within a line.
func (g *Gen) lead(c cx, f frag) frag {
	if !g.p(0.06) || f.src == "" {
		return f
	}
	g.feat("list-char")
	x := g.pick("#", "*", "# ", "* ", ";", "; ", "##", ":", ": ", "*#")
	if c.noColon {
		x = g.pick("#", "*", "# ", "* ", ";", "*#")
	}
	return lit(x).add(f)
}

// short is a text of one or two characters.
func (g *Gen) short() frag {
	g.feat("short")
	return lit(g.pick("x", "7", "é", "Ω", "語", "日本", "\U0001f600", "\U0001d11e", "…", "§", "½", "%", "$", "q.", "4)", "a b", "𝄞𝄞"))
}

// itemText is the text of a list item behind its marker.
func (g *Gen) itemText(c cx, sp string) frag {
	if sp == "" {
		return g.listText(c)
	}
	return g.lead(c, g.listText(c))
}

func (g *Gen) listText(c cx) frag {
	if g.p(0.06) {
		return g.short()
	}
	return g.edge(c, g.text(c, g.r.IntN(4))) // starts with no list character: "* *x" is another list
}

// list builds a list of the given kind ('*', '#', ';' with heads, ':' without).
func (g *Gen) list(c cx, kind byte, prefix string, depth int) frag {
	n := 1 + g.r.IntN(4)
	var src []string
	var exp strings.Builder
	tag := map[byte]string{'*': "ul", '#': "ol"}[kind]
	if tag != "" {
		exp.WriteString("<" + tag + ">")
	} else {
		exp.WriteString(`<div class="description-list">`)
	}
	sub := func(pfx string) (string, []string) {
		// sub-lists of the item before: consecutive ones differ in their kind
		var out strings.Builder
		var lines []string
		last := ""
		many := g.p(0.06)
		for k := 0; k < 5 && depth < 4 && (many && k < 5 || k < 2 && g.p(0.3/float64(k+1))); k++ {
			kd := g.pick("*", "#", ":", ";")
			cl := kd
			if kd == ";" {
				cl = ":"
			}
			if cl == last {
				continue
			}
			last = cl
			f := g.list(c, kd[0], pfx, depth+1)
			lines = append(lines, f.src)
			out.WriteString(f.exp)
		}
		return out.String(), lines
	}
	for i := 0; i < n; i++ {
		if g.p(0.06) {
			src = append(src, prefix+string(kind)) // an empty item vanishes
			if kind == ';' {
				src = src[:len(src)-1]
			}
		}
		sp := g.pick(" ", " ", "  ", "")
		switch kind {
		case '*', '#':
			f := g.itemText(c, sp)
			open, end, li := "", "", "<li>"
			if kind == '#' && !c.noHTML && g.p(0.12) {
				// the number of an item: the tag is written in the text
				g.feat("li-value")
				v := 2 + g.r.IntN(90)
				open = fmt.Sprintf(g.pick("<li value=%d>", "<li value=\"%d\">", "<li value='%d'> "), v)
				li = fmt.Sprintf("<li value=\"%d\">", v)
				end = g.pick("", "", "</li>", " </li>")
			}
			src = append(src, prefix+string(kind)+sp+open+f.src+end)
			e, l := sub(prefix + string(kind))
			src = append(src, l...)
			exp.WriteString(li + f.exp + e + "</li>")
		case ':':
			f := g.itemText(c, sp)
			src = append(src, prefix+":"+sp+f.src)
			e, l := sub(prefix + ":")
			src = append(src, l...)
			exp.WriteString(`<div class="dd">` + f.exp + e + "</div>")
		case ';':
			d := c
			d.noColon, d.noTmpl = true, true
			h := g.itemText(d, sp)
			if g.p(0.35) {
				f := g.itemText(c, " ")
				src = append(src, prefix+";"+sp+h.src+" : "+f.src)
				exp.WriteString(`<div class="dt">` + h.exp + `</div><div class="dd">` + f.exp)
				if g.p(0.5) {
					e, l := sub(prefix + ":")
					src = append(src, l...)
					exp.WriteString(e)
				}
				exp.WriteString(`</div>`)
			} else {
				src = append(src, prefix+";"+sp+h.src)
				exp.WriteString(`<div class="dt">` + h.exp + `</div>`)
			}
			for k := g.r.IntN(3); k > 0; k-- {
				f := g.itemText(c, sp)
				src = append(src, prefix+":"+sp+f.src)
				e, l := sub(prefix + ":")
				src = append(src, l...)
				exp.WriteString(`<div class="dd">` + f.exp + e + "</div>")
			}
		}
	}
	if tag != "" {
		exp.WriteString("</" + tag + ">")
	} else {
		exp.WriteString("</div>")
	}
	return frag{strings.Join(src, "\n"), exp.String()}
}

func (g *Gen) span() int {
	if g.p(0.15) {
		return 10 + g.r.IntN(990)
	}
	return 2 + g.r.IntN(4)
}

func (g *Gen) cellAttr() (src, exp string) {
	if !g.p(0.3) {
		return "", ""
	}
	var s, e []string
	if g.p(0.5) {
		n := g.span()
		s = append(s, fmt.Sprintf(g.pick(`colspan="%d"`, `colspan=%d`, `COLSPAN="%d"`, `Colspan=%d`, `colspan='%d'`), n))
		e = append(e, fmt.Sprintf(`colspan="%d"`, n))
	}
	if g.p(0.3) {
		n := g.span()
		s = append(s, fmt.Sprintf(g.pick(`rowspan="%d"`, `rowspan=%d`, `rowSpan="%d"`, `rowspan = "%d"`), n))
		e = append(e, fmt.Sprintf(`rowspan="%d"`, n))
	}
	if g.p(0.4) {
		v := g.pick("center", "left", "right", "center", "justify", "start", "end")
		s = append(s, fmt.Sprintf(g.pick(`style="text-align:%s;"`, `style="text-align:%s;"`, `STYLE="Text-Align: %s;"`, `style="vertical-align:top;text-align:%s;"`, `style="text-align: %s"`, `style="color:red; text-align:%s; width:5%%"`, `style='text-align:%s;'`), v))
		e = append(e, fmt.Sprintf(`style="text-align:%s;"`, v))
	}
	if len(s) == 0 || g.p(0.2) {
		s = append(s, g.pick(`class="x y"`, `bgcolor=#ff0000`, `scope="row"`, `width=10%`, `style="color:red"`))
		if strings.Contains(strings.Join(s[:len(s)-1], " "), "style") {
			s[len(s)-1] = `class="z"`
		}
	}
	g.feat("cellattr")
	return strings.Join(s, " ") + g.pick(" | ", "|", " |"), " " + strings.Join(e, " ")
}

func (g *Gen) table(c cx, depth int) frag {
	rows := 1 + g.r.IntN(4)
	cols := 1 + g.r.IntN(4)
	wide := g.p(0.04) // a table with many columns, most of a row on one line
	if wide {
		cols = 6 + g.r.IntN(20)
		rows = 1 + g.r.IntN(2)
		depth = 2
	}
	var src []string
	var exp strings.Builder
	ic := c
	ic.noPipe = true
	ic.depth++
	src = append(src, "{|"+g.pick("", ` class="wikitable"`, ` class="a b" style="width:50%"`))
	cap := frag{}
	if g.p(0.35) {
		cc := ic
		cc.noImg = true
		cap = g.lead(cc, g.text(cc, g.r.IntN(3)))
		src = append(src, "|+"+g.pick(" ", "", ` style="x" | `, " ")+cap.src)
		if g.p(0.2) {
			x := g.text(cc, 1)
			if g.p(0.3) {
				x = lit(g.plain() + " | ").add(x)
			}
			src = append(src, x.src)
			cap.exp += "\n" + x.exp
		}
	}
	exp.WriteString(`<div class="figure"><table>`)
	for ri := 0; ri < rows; ri++ {
		if ri > 0 || g.p(0.6) {
			src = append(src, "|-"+g.pick("", "", "--", ` style="color:red"`, ` class="x"`))
			if g.p(0.05) {
				src = append(src, "|-")
			}
		}
		exp.WriteString("<tr>")
		n := cols
		if g.p(0.2) {
			n = 1 + g.r.IntN(cols)
		}
		line := ""
		lineHead := false
		flush := func() {
			if line != "" {
				src = append(src, line)
				line = ""
			}
		}
		for ci := 0; ci < n; ci++ {
			head := ri == 0 && g.p(0.5) || ci == 0 && g.p(0.2)
			if wide {
				head = ri == 0 && rows > 1
			}
			as, ae := g.cellAttr()
			tag := "td"
			mark := "|"
			if head {
				tag, mark = "th", "!"
			}
			// content
			var f frag
			multi := false
			switch k := g.r.IntN(10); {
			case k == 0:
				f = frag{}
				g.feat("cell-empty")
				if as != "" {
					as = strings.TrimRight(as, " ") + " " // "|||" would be ambiguous
				}
			case k == 1 && depth < 2:
				multi = true
				f = g.cellBlocks(ic, depth)
				g.feat("cell-multi")
			case k == 2 && !c.noImg:
				if depth < 2 && g.p(0.3) {
					f = g.gallery(ic)
					g.feat("cell-gallery")
					multi = true
				} else {
					f = g.thumb(ic)
				}
			case k == 3:
				f = lit(g.pick("-", "+", "−") + fmt.Sprint(g.r.IntN(99)))
				if g.p(0.5) {
					f = g.listTextCell(ic)
				}
			default:
				f = g.listTextCell(ic)
			}
			inlineOK := line != "" && lineHead == head && (wide || g.p(0.5)) && !strings.HasPrefix(f.src, "\n")
			if inlineOK {
				sep := mark + mark
				if head && g.p(0.3) {
					sep = "||"
				}
				line += g.pick(" ", "") + sep + g.pick(" ", "") + as + f.src
			} else {
				flush()
				sp := " "
				if as == "" && f.src != "" && g.p(0.3) {
					if strings.IndexByte("-+}|{!\n*#:;=", f.src[0]) < 0 {
						sp = g.pick("", "", "  ")
					}
					if g.p(0.1) && f.src[0] != '\n' && !strings.HasPrefix(f.src, "{|") {
						// only the first character of the line tells the kind of the cell
						x := g.pick("!", "!!!")
						if mark == "!" {
							x = "!"
							sp = " "
						} else {
							sp = ""
						}
						f = lit(x).add(f)
						g.feat("cell-mark")
					}
				}
				line = mark + sp + as + f.src
				lineHead = head
			}
			if multi {
				flush()
			}
			exp.WriteString("<" + tag + ae + ">" + f.exp + "</" + tag + ">")
		}
		flush()
		exp.WriteString("</tr>")
	}
	src = append(src, "|}")
	exp.WriteString(`</table><div class="caption">` + cap.exp + `</div></div>`)
	return frag{strings.Join(src, "\n"), exp.String()}
}

// listTextCell is cell text on one line, which must not look like cell markup.
func (g *Gen) listTextCell(c cx) frag {
	if g.p(0.06) {
		return g.short()
	}
	if g.p(0.03) {
		return lit(g.pick("*", "#", ":", ";", "**"))
	}
	return g.lead(c, g.edge(c, g.text(c, g.r.IntN(3))))
}

// cellBlocks is cell content over several lines.
func (g *Gen) cellBlocks(c cx, depth int) frag {
	c.depth++
	n := 1 + g.r.IntN(3)
	var f frag
	if g.p(0.5) {
		f = g.text(c, 1)
	}
	prevText := f.src != ""
	for i := 0; i < n; i++ {
		switch g.r.IntN(4) {
		case 0:
			l := g.list(c, g.pick("*", "#", ":", ";")[0], "", 2)
			f = f.add(frag{"\n" + l.src, l.exp})
			if i+1 < n {
				f = f.add(frag{"\n", ""})
			}
			prevText = false
		case 1:
			if depth < 1 || g.p(0.5) {
				t := g.table(c, depth+1)
				ind := ""
				if g.p(0.3) {
					ind = g.pick(":", "::")
					g.feat("table-indented")
				}
				f = f.add(frag{"\n" + ind + t.src, t.exp})
				prevText = false
				if g.p(0.3) { // text behind the end of the inner table
					x := lit(" " + g.words(2))
					f = f.add(x)
					g.feat("table-tail")
					prevText = true
				}
				continue
			}
			fallthrough
		default:
			t := g.text(c, 1)
			if g.p(0.2) { // only the first line of a cell has attributes
				t = lit(g.plain() + " | ").add(t)
				g.feat("cell-pipe")
			}
			if prevText && g.p(0.5) {
				f = f.add(frag{"\n\n" + t.src, "<br><br>" + t.exp})
			} else {
				f = f.add(frag{"\n" + t.src, "\n" + t.exp})
			}
			prevText = true
		}
	}
	return f
}

type block struct {
	frag
	kind string // text, token, none
}

func (g *Gen) block(c cx) block {
	k := g.choose("para", "list", "table", "gallery", "imap", "thumb", "btmpl", "cmtblock")
	g.feat(k)
	switch k {
	case "list":
		return block{g.list(c, g.pick("*", "#", "*", "#", ":", ";")[0], "", 1), "token"}
	case "table":
		t := g.table(c, 0)
		if g.p(0.15) {
			g.feat("table-indented")
			for range 1 + g.r.IntN(2) {
				t = frag{":" + t.src, `<div class="description-list"><div class="dd">` + t.exp + `</div></div>`}
			}
		}
		return block{t, "token"}
	case "gallery":
		return g.areaInText(g.gallery(c))
	case "imap":
		return g.areaInText(g.imagemap(c))
	case "thumb":
		return block{g.thumb(c), "token"}
	case "btmpl":
		name := g.newBody(true)
		f := g.call(name, cx{depth: 1})
		if strings.HasPrefix(g.bodies[name].src, "\n") {
			return block{f, "token"}
		}
		w := g.plain()
		return block{frag{w + " " + f.src, w + " " + f.exp}, "text"}
	case "cmtblock":
		return block{frag{g.comment(), ""}, "none"}
	}
	return block{g.para(c), "text"}
}

// areaInText puts text around a gallery or image map, in the lines of its tags.
func (g *Gen) areaInText(f frag) block {
	if !g.p(0.25) {
		return block{f, "token"}
	}
	g.feat("area-in-text")
	a, b := g.plain(), g.plain()
	return block{frag{a + g.pick(" ", "") + f.src + g.pick(" ", "") + b, a + "\n" + f.exp + "\n" + b}, "text"}
}

// blocks renders a sequence of blocks with the paragraph rules.
func (g *Gen) blocks(c cx, n int) frag {
	var f frag
	prev := "start"
	for i := 0; i < n; i++ {
		b := g.block(c)
		if b.kind == "none" {
			// a comment on its own line disappears with the line
			f = f.add(frag{b.src + "\n", ""})
			continue
		}
		if b.kind == "text" && prev == "text" {
			f = f.add(frag{"", "<br><br>"})
		}
		gap := "\n\n"
		if g.p(0.15) {
			gap = "\n\n\n"
		}
		f = f.add(frag{g.lineComments(b.src) + gap, b.exp + "\n"})
		prev = b.kind
	}
	return f
}

func (g *Gen) heading(level int) frag {
	c := cx{noImg: true, noTmpl: true, noPipe: false, depth: 2, noBr: true, noHTML: true}
	f := g.lead(c, g.text(c, g.r.IntN(3)))
	if g.p(0.15) {
		f = f.add(lit(" a = b " + g.plain()))
	}
	m := strings.Repeat("=", level)
	sp := g.pick(" ", " ", "")
	tail := ""
	if g.p(0.1) {
		tail = "  "
	}
	return frag{m + sp + f.src + sp + m + tail + "\n", fmt.Sprintf("<h%d>%s</h%d>\n", level, f.exp, level)}
}

// Doc is a whole article.
func (g *Gen) Doc(size int) frag {
	c := cx{}
	f := g.blocks(c, 1+g.r.IntN(1+size))
	level := 2
	sections := g.r.IntN(1 + size)
	lastContent := true
	for s := 0; s < sections; s++ {
		if lastContent && g.p(0.3) && level < 6 {
			level++
		} else if g.p(0.4) {
			level = 2 + g.r.IntN(max(1, level-1))
		}
		if g.wt["emptysec"] > 0 && g.p(0.12*g.wt["emptysec"]) && lastContent {
			g.feat("emptysec")
			// a section without content, followed by one of the same or a higher level
			f.src += g.heading0(level) + g.nothing()
			level = 2 + g.r.IntN(max(1, level-1))
		}
		if g.wt["emptysec"] > 0 && level > 1 && g.p(0.12*g.wt["emptysec"]) {
			// headings without own text above deeper sections, possibly leaving out levels
			g.feat("heading-only")
			l := 2
			if g.wt["h1"] > 0 {
				l = 1
			}
			for l += g.r.IntN(level - 1); l < level; l += 1 + g.r.IntN(3) {
				f = f.add(g.heading1(l)).add(frag{g.nothing(), ""})
			}
		}
		h := g.heading(level)
		b := g.blocks(c, 1+g.r.IntN(3))
		if !hasContent(b) {
			w := g.words(2)
			b = b.add(lit(w + "\n\n"))
		}
		f = f.add(h).add(b)
		lastContent = true
		if g.p(0.15 * g.wt["reflist"]) {
			f = f.add(g.lists(level))
		}
		if g.wt["trail"] > 0 && g.p(0.15*g.wt["trail"]) {
			w := g.plain()
			g.feat("trail")
			f.src += "{{" + trailingTmplName + "|" + w + "}}\n\n"
			g.tailExp += "note " + w + " end\n"
			g.Templates["{{"+trailingTmplName+"|"+w+"}}"]++
		}
	}
	f = f.add(g.lists(level))
	if g.tailExp != "" {
		f = f.add(frag{"\n", ""})
		f.exp += g.tailExp
	}
	if g.p(0.3) {
		f.src += "\n[[Category:End]]\n[[Category:Other|x]]\n"
	}
	return f
}

func hasContent(f frag) bool { return strings.TrimSpace(f.exp) != "" }

// nothing is wikitext which leaves a section empty.
func (g *Gen) nothing() string {
	return g.pick("", "\n", "\n\n", g.comment()+"\n", "[[Category:x]]\n", "{{"+ignoredTmplName+"}}\n", "   \n")
}

// heading0 is the heading of a section that must vanish; its text is not expected anywhere.
func (g *Gen) heading0(level int) string {
	g.n++
	m := strings.Repeat("=", level)
	return m + " gone" + g.id + fmt.Sprint(g.n) + " " + m + "\n"
}

func (g *Gen) lists(level int) frag {
	var f frag
	for _, gr := range g.openGroups() {
		if g.p(0.5) {
			f = f.add(g.heading1(2))
		}
		l := g.refList(gr)
		f = f.add(frag{l.src + "\n\n", l.exp})
	}
	return f
}

func (g *Gen) heading1(level int) frag {
	m := strings.Repeat("=", level)
	w := g.plain()
	return frag{m + " " + w + " " + m + "\n", fmt.Sprintf("<h%d>%s</h%d>\n", level, w, level)}
}

// denseStyle is text in which almost every word changes its style, with all ways to write the changes.
func (g *Gen) denseStyle() frag {
	var f frag
	n := 2 + g.r.IntN(5)
	for p := 0; p < n; p++ {
		if p > 0 {
			f = f.add(frag{"\n\n", "\n<br><br>\n"})
		}
		f = f.add(lit(g.plain() + " "))
		b, i := false, false
		k := 1 + g.r.IntN(9)
		for x := 0; x <= k; x++ {
			nb, ni := g.p(0.5), g.p(0.5)
			if x == k {
				nb, ni = false, false
			}
			q := 0
			if nb != b {
				q += 3
			}
			if ni != i {
				q += 2
			}
			f.src += strings.Repeat("'", q)
			if i {
				f.exp += "</i>"
			}
			if b {
				f.exp += "</b>"
			}
			b, i = nb, ni
			if b {
				f.exp += "<b>"
			}
			if i {
				f.exp += "<i>"
			}
			if x == k {
				break
			}
			c := cx{noStyle: true, noRef: true, noTmpl: true, noImg: true, noMath: true, depth: 1}
			switch g.r.IntN(6) {
			case 0:
				f = f.add(lit(g.plain()))
			case 1:
				f = f.add(lit(" " + g.plain() + " "))
			case 2:
				f = f.add(lit(g.plain() + "\n" + g.plain()))
			case 3:
				f = f.add(g.ilink(c))
			case 4:
				f = f.add(g.elink(c))
			default:
				f = f.add(lit(g.plain() + " "))
			}
		}
		f = f.add(lit(" " + g.plain()))
		g.feat("style")
	}
	return f
}
