package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	xhtml "golang.org/x/net/html"
)

func init() { register("S01", "exploration", checkS01) }

// bookStats is the JSON statistics output.
type bookStats struct {
	Chars     int            `json:"number-of-characters"`
	Words     int            `json:"number-of-words"`
	ILinks    int            `json:"number-of-internal-links"`
	ELinks    int            `json:"number-of-external-links"`
	Images    int            `json:"number-of-images"`
	Math      int            `json:"number-of-math"`
	RefDefs   int            `json:"number-of-ref-definitions"`
	RefUses   int            `json:"number-of-ref-usages"`
	Internal  map[string]int `json:"internal-links"`
	Uncovered map[string]int `json:"uncovered-internal-links"`
	Top10     map[string]int `json:"top-10-uncovered-internal-links"`
	Minutes   int            `json:"estimated-reading-time-minutes"`
}

// refCount is the reference count of an expected document (with the generator's marks).
type refCount struct {
	words, visible, spaces, ilinks, elinks, images, math, refDefs, refUses int
	internal                                                               map[string]int
}

var statInline = tagset("b i sub sup small span u")

func countRef(exp string) refCount {
	n := refCount{internal: map[string]int{}}
	z := xhtml.NewTokenizer(strings.NewReader(exp))
	in := false
	for {
		tt := z.Next()
		if tt == xhtml.ErrorToken {
			return n
		}
		raw := string(z.Raw())
		switch tt {
		case xhtml.TextToken:
			for _, r := range unescapeHTML(raw) {
				if unicode.IsLetter(r) || unicode.IsNumber(r) {
					if !in {
						n.words++
					}
					in = true
				} else {
					in = false
				}
				if unicode.IsSpace(r) && r != '\u00a0' {
					n.spaces++
				} else {
					n.visible++
				}
			}
		case xhtml.StartTagToken, xhtml.SelfClosingTagToken, xhtml.EndTagToken:
			t := z.Token()
			if !statInline[t.Data] {
				in = false
			}
			if tt == xhtml.EndTagToken {
				continue
			}
			attr := map[string]string{}
			for _, a := range t.Attr {
				attr[a.Key] = a.Val
			}
			switch t.Data {
			case "il":
				n.ilinks++
				n.internal[attr["t"]]++
			case "a":
				n.elinks++
			case "ru":
				n.refUses++
			case "rd":
				n.refDefs++
			case "img":
				if strings.HasPrefix(attr["src"], "LABEL:MATH ") {
					n.math++
				} else {
					n.images++
				}
			}
		}
	}
}

var spaceRe = regexp.MustCompile(`\s`)

type statDoc struct {
	*docCase
	want refCount
	// the same document with longer words
	long      frag
	longWant  refCount
	longDelta int
	bodies    map[string]tmplBody // of the longer document
}

var visIDRe = regexp.MustCompile(`q\d+q\d+`)

// lengthen makes some of the visible words longer, everywhere they occur.
func lengthen(c *Ctx, d *statDoc, g *Gen) {
	text := map[string]bool{}
	z := xhtml.NewTokenizer(strings.NewReader(d.F.exp))
	for {
		tt := z.Next()
		if tt == xhtml.ErrorToken {
			break
		}
		if tt == xhtml.TextToken {
			for _, id := range visIDRe.FindAllString(string(z.Raw()), -1) {
				text[id] = true
			}
		}
	}
	for _, n := range g.Images {
		for _, id := range visIDRe.FindAllString(n, -1) {
			delete(text, id) // the file must still be found
		}
	}
	var ids []string
	for id := range text {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	add := map[string]string{}
	for _, id := range ids {
		if g.p(0.4) {
			add[id] = g.pick("x", "é", "日本", "zz9z", "мирный", "𝔘")
		}
	}
	f := func(s string) string {
		return visIDRe.ReplaceAllStringFunc(s, func(id string) string { return id + add[id] })
	}
	d.long = frag{f(d.F.src), f(d.F.exp)}
	d.longWant = countRef(d.long.exp)
	d.longDelta = d.longWant.visible - d.want.visible
	d.bodies = map[string]tmplBody{}
	for n, b := range g.bodies {
		d.bodies[f(n)] = tmplBody{f(b.src), f(b.exp)}
	}
}

func normTarget(t string) string {
	return normTitle(strings.Join(strings.Fields(strings.ReplaceAll(t, "_", " ")), "_"))
}

func checkS01(c *Ctx) {
	c.Rule = "documents composed at random from all constructs, linking to each other, to a shared pool of targets and to own ones; every document alone and all of them as one book, as JSON and text, over thread counts and answer delays, plus variants with longer words; non-trivial: statistics written for a document with at least one counted construct besides text; distinct: tuple of all counts"
	c.Assume = append(c.Assume, "wiki and template engine are stand-ins; the program is the real binary",
		"words: runs of letters and digits within one text or link; characters: the exact total may include white space between blocks, so its absolute value is judged within the document's white space and exactly for differences",
		"references are listed in the article; link targets of other spellings than their article's occur with underscores and a lower-case first letter only")
	var fmu sync.Mutex
	feats := map[string]int{}
	Par(c.N(80, 1500), 8, func(bi int) {
		if c.NViol() > 12 {
			return
		}
		r := c.Rand("stats", bi)
		w := NewWiki()
		nd := 4 + r.IntN(14)
		var pool []string
		for i := 0; i < 4+r.IntN(30); i++ {
			pool = append(pool, fmt.Sprintf("%s %d", pick(r, "Mond", "Foo (Bar)", "A & B", "Ünal", "日本", "C++", "X y"), i))
		}
		title := func(i int) string {
			return fmt.Sprintf("%s %d %d", []string{"Doc", "Doc", "Ünal", "Ελλάς", "Жук", "Éric"}[(bi+i)%6], bi, i)
		}
		for i := 0; i < nd; i++ {
			if chance(r, 0.5) {
				t := title(i)
				switch r.IntN(6) {
				case 0:
					t = strings.ReplaceAll(t, " ", "_")
				case 1:
					c, n := utf8.DecodeRuneInString(t)
					t = string(unicode.ToLower(c)) + t[n:]
				case 2:
					t = strings.Replace(t, " ", pick(r, "  ", "__", "_ "), 1)
				}
				k := r.IntN(len(pool) + 1)
				pool = append(pool[:k], append([]string{t}, pool[k:]...)...)
			}
		}
		var ds []*statDoc
		for k := 0; k < nd; k++ {
			f := map[string]float64{"nopdf": 1, "emptysec": 1, "ref": 2}
			if chance(r, 0.3) {
				f["ilink"] = 4
			}
			g := NewGen(r, fmt.Sprintf("q%dq", k), w, f)
			g.marks, g.pool = true, pool
			d := &statDoc{docCase: &docCase{Title: title(k), Gen: g}}
			d.F = g.Doc(1 + r.IntN(3))
			d.want = countRef(d.F.exp)
			lengthen(c, d, g)
			ds = append(ds, d)
			fmu.Lock()
			for k, n := range g.Feat {
				feats[k] += n
			}
			fmu.Unlock()
		}
		serve := func(long bool) {
			bodies := map[string]tmplBody{trailingTmplName: {"note " + argMark + " end", ""}}
			for _, d := range ds {
				s := d.F.src
				if long {
					s = d.long.src
				}
				w.AddPage("en.wikipedia.org", d.Title, s)
				bs := d.Gen.bodies
				if long {
					bs = d.bodies
				}
				for n, b := range bs {
					bodies[n] = b
				}
			}
			w.Expand = ExpandWith(func(n string) (tmplBody, bool) { b, ok := bodies[n]; return b, ok })
		}
		if chance(r, 0.6) {
			dr := 1 + r.IntN(15)
			w.DelayFn = func(q *Req) time.Duration { return time.Duration(q.Seq*7919%dr) * time.Millisecond }
		}
		order := r.Perm(nd)
		if chance(r, 0.25) { // an article may be listed more than once
			k := r.IntN(nd + 1)
			order = append(order[:k], append([]int{r.IntN(nd)}, order[k:]...)...)
		}
		var listed []*statDoc
		var titles []string
		for _, k := range order {
			titles = append(titles, ds[k].Title)
			listed = append(listed, ds[k])
		}
		run := func(e *Env, typ string, titles []string) (string, string) {
			out := filepath.Join(e.OutDir, "stats."+strings.TrimPrefix(typ, "stats-"))
			os.Remove(out)
			b := batchCfg{Threads: 1 + r.IntN(8)}
			res := e.Run(w, RunOpt{}, "project", e.Project(b.apply(e).With("output-type", typ, "output-driver", "internal", "output-file", out), titles))
			if !res.Success() {
				return "", "the run failed: " + res.Brief()
			}
			x, err := os.ReadFile(out)
			if err != nil {
				return "", "no output: " + err.Error()
			}
			return string(x), ""
		}
		bad := func(sig, msg string, replay map[string]any) {
			c.Violate(fmt.Sprintf("S01:%s:%d", sig, bi), msg, replay)
		}
		parse := func(s string) (*bookStats, string) {
			st := &bookStats{}
			if err := json.Unmarshal([]byte(s), st); err != nil {
				return nil, "not JSON: " + err.Error()
			}
			return st, ""
		}
		serve(false)
		sum := bookStats{}
		single := map[string]*bookStats{}
		for _, d := range ds {
			e := c.NewEnv()
			x, msg := run(e, "stats-json", []string{d.Title})
			var st *bookStats
			if msg == "" {
				st, msg = parse(x)
			}
			e.Close()
			if msg == "" {
				msg = compareStats(d, st)
			}
			if msg != "" {
				bad("doc", msg, map[string]any{"title": d.Title, "wikitext": d.F.src, "expected": d.F.exp, "statistics": x})
				return
			}
			single[d.Title] = st
			key := ""
			if n := d.want; n.ilinks+n.elinks+n.images+n.math+n.refDefs+n.refUses > 0 {
				key = fmt.Sprint(n.words, n.visible, n.ilinks, n.elinks, n.images, n.math, n.refDefs, n.refUses)
			}
			c.Case(key)
			c.Count("articles_counted", 1)
			c.Count("words_counted", int64(st.Words))
			c.Count("links_counted", int64(st.ILinks+st.ELinks))
			c.Count("references_counted", int64(st.RefDefs+st.RefUses))
			if bi == 0 {
				c.Sample(map[string]any{"wikitext": clip(d.F.src, 500), "statistics": st})
			}
		}
		for _, d := range listed {
			st := single[d.Title]
			sum.Chars += st.Chars
			sum.Words += st.Words
			sum.Minutes += st.Minutes
		}
		// the book
		e := c.NewEnv()
		defer e.Close()
		docs := func() map[string]any {
			m := map[string]any{"order": titles}
			for _, d := range ds {
				m[d.Title] = d.F.src
			}
			return m
		}
		x, msg := run(e, "stats-json", titles)
		var st *bookStats
		if msg == "" {
			st, msg = parse(x)
		}
		if msg == "" {
			msg = compareBook(listed, titles, sum, st, c)
		}
		if msg != "" {
			m := docs()
			m["statistics"] = x
			bad("book", msg, m)
			return
		}
		txt, msg := run(e, "stats-txt", titles)
		if msg == "" {
			msg = compareTxt(txt, st, titles, c)
		}
		if msg != "" {
			m := docs()
			m["statistics"] = txt
			bad("txt", msg, m)
			return
		}
		c.Count("books_counted", 1)
		// longer words
		serve(true)
		e2 := c.NewEnv()
		defer e2.Close()
		delta := 0
		for _, d := range listed {
			delta += d.longDelta
		}
		x, msg = run(e2, "stats-json", titles)
		var st2 *bookStats
		if msg == "" {
			st2, msg = parse(x)
		}
		if msg == "" && st2.Chars-st.Chars != delta {
			msg = fmt.Sprintf("words longer by %d characters in sum change the number of characters by %d (%d to %d)", delta, st2.Chars-st.Chars, st.Chars, st2.Chars)
			for _, d := range ds { // which article?
				e3 := c.NewEnv()
				y, m3 := run(e3, "stats-json", []string{d.Title})
				if s3, m4 := parse(y); m3 == "" && m4 == "" && s3.Chars-single[d.Title].Chars != d.longDelta {
					msg += fmt.Sprintf("\n in article %s: expected %d, observed %d", d.Title, d.longDelta, s3.Chars-single[d.Title].Chars)
				}
				e3.Close()
			}
		}
		if msg != "" {
			m := docs()
			for _, d := range ds {
				m[d.Title+" (longer)"] = d.long.src
			}
			bad("chars", msg, m)
			return
		}
		c.Count("character_deltas_checked", 1)
		c.Count("characters_added", int64(delta))
	})
	c.Note("constructs_used", feats)
}

func diffCount(m map[string]int, w map[string]int) string {
	for k, n := range w {
		if m[k] != n {
			return fmt.Sprintf("%q: expected %d, observed %d", k, n, m[k])
		}
	}
	for k, n := range m {
		if w[k] != n {
			return fmt.Sprintf("%q: expected %d, observed %d", k, w[k], n)
		}
	}
	return ""
}

// compareStats judges the statistics of one article.
func compareStats(d *statDoc, st *bookStats) string {
	n := d.want
	for _, x := range []struct {
		what      string
		want, got int
	}{{"words", n.words, st.Words}, {"internal links", n.ilinks, st.ILinks}, {"external links", n.elinks, st.ELinks}, {"images", n.images, st.Images},
		{"formulas", n.math, st.Math}, {"reference definitions", n.refDefs, st.RefDefs}, {"reference usages", n.refUses, st.RefUses}} {
		if x.want != x.got {
			return fmt.Sprintf("%s: %d in the article, %d reported", x.what, x.want, x.got)
		}
	}
	sp := len(spaceRe.FindAllString(d.F.src, -1))
	for t, k := range d.Gen.Templates {
		sp += k * (len(spaceRe.FindAllString(t, -1)) + 60)
	}
	if st.Chars < n.visible || st.Chars > n.visible+sp+n.spaces {
		return fmt.Sprintf("characters: %d visible ones and at most %d blanks in the article, %d reported", n.visible, sp+n.spaces, st.Chars)
	}
	if s := diffCount(st.Internal, n.internal); s != "" {
		return "internal links: " + s
	}
	un := map[string]int{}
	for t, k := range n.internal {
		if normTarget(t) != normTarget(d.Title) {
			un[t] = k
		}
	}
	if s := diffCount(st.Uncovered, un); s != "" {
		return "uncovered links: " + s
	}
	return topProblem(st.Top10, un, 10)
}

// topProblem judges a list of the most frequent targets.
func topProblem(top, all map[string]int, n int) string {
	var counts, got []int
	for _, k := range all {
		counts = append(counts, k)
	}
	for t, k := range top {
		if all[t] != k {
			return fmt.Sprintf("top list: %q with %d instead of %d", t, k, all[t])
		}
		got = append(got, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(counts)))
	sort.Sort(sort.Reverse(sort.IntSlice(got)))
	if fmt.Sprint(counts[:min(n, len(counts))]) != fmt.Sprint(got) {
		return fmt.Sprintf("top list: counts %v, the highest ones are %v", got, counts[:min(n, len(counts))])
	}
	return ""
}

// compareBook judges the combined statistics.
func compareBook(ds []*statDoc, titles []string, sum bookStats, st *bookStats, c *Ctx) string {
	t := refCount{internal: map[string]int{}}
	inBook := map[string]bool{}
	for _, d := range ds {
		n := d.want
		t.ilinks += n.ilinks
		t.elinks += n.elinks
		t.images += n.images
		t.math += n.math
		t.refDefs += n.refDefs
		t.refUses += n.refUses
		for k, v := range n.internal {
			t.internal[k] += v
		}
		inBook[normTarget(d.Title)] = true
	}
	for _, x := range []struct {
		what      string
		want, got int
	}{{"characters", sum.Chars, st.Chars}, {"words", sum.Words, st.Words}, {"internal links", t.ilinks, st.ILinks}, {"external links", t.elinks, st.ELinks}, {"images", t.images, st.Images},
		{"formulas", t.math, st.Math}, {"reference definitions", t.refDefs, st.RefDefs}, {"reference usages", t.refUses, st.RefUses}, {"reading time", sum.Minutes, st.Minutes}} {
		if x.want != x.got {
			return fmt.Sprintf("%s of the book: sum over the articles %d, reported %d", x.what, x.want, x.got)
		}
	}
	if s := diffCount(st.Internal, t.internal); s != "" {
		return "internal links of the book: " + s
	}
	un := map[string]int{}
	for k, v := range t.internal {
		if !inBook[normTarget(k)] {
			un[k] = v
		} else {
			c.Count("covered_targets", 1)
		}
	}
	c.Count("uncovered_targets", int64(len(un)))
	if s := diffCount(st.Uncovered, un); s != "" {
		return "uncovered links of the book: " + s
	}
	return topProblem(st.Top10, un, 10)
}

var txtHeadRe = regexp.MustCompile(`\(total: (\d+)\)`)
var txtNumRe = regexp.MustCompile(`(?i)Number of (characters|internal links)\s*:\s*(\d+)`)
var txtTopRe = regexp.MustCompile(`^  (.*) \((\d+)\)$`)

// compareTxt judges the text output against the (already judged) JSON output of the same book.
func compareTxt(txt string, st *bookStats, titles []string, c *Ctx) string {
	nums := map[string]string{}
	for _, m := range txtNumRe.FindAllStringSubmatch(txt, -1) {
		nums[strings.ToLower(m[1])] = m[2]
	}
	if nums["characters"] != itoa(st.Chars) || nums["internal links"] != itoa(st.ILinks) {
		return fmt.Sprintf("text output with %v instead of %d characters and %d links", nums, st.Chars, st.ILinks)
	}
	lines := strings.Split(txt, "\n")
	section := ""
	var names []string
	top := map[string]int{}
	var order []int
	for _, l := range lines {
		if !strings.HasPrefix(l, "  ") {
			if strings.TrimSpace(l) != "" {
				section = l
			}
			continue
		}
		switch {
		case strings.HasPrefix(section, "Article"):
			names = append(names, l[2:])
		case strings.HasPrefix(section, "Top"):
			m := txtTopRe.FindStringSubmatch(l)
			if m == nil {
				return fmt.Sprintf("line %q in the list of uncovered links", l)
			}
			n := 0
			fmt.Sscan(m[2], &n)
			top[strings.TrimRight(m[1], " ")] = n
			order = append(order, n)
		}
	}
	if strings.Join(names, "\n") != strings.Join(titles, "\n") {
		return fmt.Sprintf("articles listed as %v, the project has %v", names, titles)
	}
	if len(order) != len(top) || !sort.IsSorted(sort.Reverse(sort.IntSlice(order))) {
		return fmt.Sprintf("uncovered links listed in the order of counts %v", order)
	}
	if m := txtHeadRe.FindStringSubmatch(txt); m == nil || m[1] != itoa(len(st.Uncovered)) {
		return fmt.Sprintf("total number of uncovered links %v instead of %d", m, len(st.Uncovered))
	}
	if len(st.Uncovered) > 20 {
		c.Count("books_with_more_than_20_uncovered", 1)
	}
	return topProblem(top, st.Uncovered, 20)
}
