package main

import (
	"fmt"
	"math/rand/v2"
	"path/filepath"
	"sort"
	"strings"
)

// World is a complete scenario that can be served again and again: articles that share images, templates and formulas.
type World struct {
	Titles   []string
	Pages    map[string]string
	Imgs     []wImg
	Bodies   map[string]tmplBody
	Formulas []string
	Math     string // math-converter
	Inst     string
	ArtHosts []string
	Trailing bool
}

type wImg struct {
	Name, Host, Alias string // Alias: the name used in articles, redirecting to Name
	Ext               string
	Body              string
}

// Use is the name articles use for the image.
func (i wImg) Use() string {
	if i.Alias != "" {
		return i.Alias
	}
	return i.Name
}

type worldOpt struct {
	Articles int
	Images   int
	Tmpls    int
	Maths    int
	NoPdf    bool
	Share    float64 // probability that a use refers to the pool shared by all articles
	RelSvg   bool
	Siblings bool // some images differ from others only in the ending
	OneMath  bool // every formula has one spelling
}

func NewWorld(r *rand.Rand, id string, o worldOpt) *World {
	x := &World{Pages: map[string]string{}, Bodies: map[string]tmplBody{}, ArtHosts: []string{"commons.wikimedia.org", "en.wikipedia.org"}}
	x.Math = pick(r, "", "none", "template", "wikimedia")
	exts := []string{"png", "jpg", "svg", "pdf", "webp", "JPG", "SVG", "tif"}
	for i := 0; i < o.Images; i++ {
		ext := exts[i%len(exts)]
		if i >= len(exts) {
			ext = exts[r.IntN(len(exts))]
		}
		if o.NoPdf && ext == "pdf" {
			ext = "png"
		}
		im := wImg{Name: fmt.Sprintf("%s %s%d.%s", pick(r, "Stern", "Große Karte", "A & B", "x+y", "O'Neill (1)", "50% off", "日本", "a;b=c", "Q"), id, i, ext), Ext: strings.ToLower(ext), Host: pick(r, "commons.wikimedia.org", "en.wikipedia.org")}
		im.Name = normTitle(im.Name)
		if o.Siblings && i > 0 && chance(r, 0.3) {
			last := x.Imgs[i-1].Name
			n := strings.TrimSuffix(last, filepath.Ext(last)) + pick(r, ".png", ".jpg", ".tif")
			used := map[string]bool{}
			for _, y := range x.Imgs {
				used[y.Name] = true
			}
			if strings.Contains(".png .jpg .JPG .tif", filepath.Ext(last)) && !used[n] {
				im.Name, im.Ext = n, n[len(n)-3:]
			}
		}
		if chance(r, 0.2) {
			im.Alias = fmt.Sprintf("Alias_%s%d.%s", id, i, ext)
		}
		im.Body = "IMGDATA " + im.Name + strings.Repeat("#", r.IntN(2000))
		if im.Ext == "svg" {
			w, h := "30px", "20px"
			if o.RelSvg && chance(r, 0.6) {
				w, h = "100%", "100%"
			}
			im.Body = fmt.Sprintf(`<svg width="%s" height="%s" xmlns="http://www.w3.org/2000/svg" viewBox="0 0 %d %d"><title>T %s</title><rect width="100%%" height="5"/></svg>`, w, h, 10+i, 20+i, hashs(im.Name))
		}
		x.Imgs = append(x.Imgs, im)
	}
	for i := 0; i < o.Maths; i++ {
		x.Formulas = append(x.Formulas, fmt.Sprintf(`\frac{a_{%d}}{b+%s}`, i, pick(r, "x", "y^2", `\alpha`, "100\\%", "c & d")))
	}
	var names []string
	for i := 0; i < o.Tmpls; i++ {
		n := fmt.Sprintf("%s%s%d", pick(r, "Foo", "infobox x", "Über", "t"), id, i)
		b := ""
		switch i % 5 {
		case 0:
			b = "val " + argMark + " end"
		case 1:
			b = "\n{| class=\"x\"\n! head\n|-\n| cell || " + argMark + " x\n|}\n"
		case 2:
			b = "see [[Target|link " + argMark + "]] ok"
		case 3:
			if len(x.Imgs) > 0 {
				b = "pic [[File:" + x.Imgs[r.IntN(len(x.Imgs))].Use() + "|20px]] " + argMark
			} else {
				b = "pic " + argMark
			}
		default:
			if len(x.Formulas) > 0 {
				b = "<math>" + x.Formulas[r.IntN(len(x.Formulas))] + "</math> " + argMark
			} else {
				b = "m " + argMark
			}
		}
		if chance(r, 0.4) { // expansions may begin and end with anything
			b = pick(r, "", "", "\n", "* ", ":", " ") + b + pick(r, "\n", "\n\n", " ", "\n* tail", "<!-- c -->", "\n== Sub ==\n")
		}
		x.Bodies[n] = tmplBody{b, ""}
		names = append(names, n)
	}
	sort.Strings(names)
	wn := 0
	word := func() string { wn++; return fmt.Sprintf("w%s%d", id, wn) }
	for a := 0; a < o.Articles; a++ {
		t := fmt.Sprintf("%s %s %d", pick(r, "Article", "Über", "St. Paul", "C++", "AC/DC", "What?", "Mond (Himmel)", "A & B"), id, a)
		var sb strings.Builder
		img := func() string {
			if len(x.Imgs) == 0 {
				return ""
			}
			k := r.IntN(len(x.Imgs))
			if r.Float64() < o.Share {
				k = k % (1 + len(x.Imgs)/3)
			}
			u := x.Imgs[k].Use()
			if chance(r, 0.3) {
				u = strings.ReplaceAll(u, "_", " ")
			}
			return pick(r, "File:", "File:", "Image:", "file:", "Media:") + u
		}
		tm := func() string {
			if len(names) == 0 {
				return word()
			}
			k := r.IntN(len(names))
			arg := word()
			if r.Float64() < o.Share {
				k = k % (1 + len(names)/3)
				arg = "same"
			}
			if chance(r, 0.2) {
				arg += " {{" + names[0] + "|" + "in" + "}}"
			}
			return "{{" + names[k] + "|" + arg + "}}"
		}
		ma := func() string {
			if len(x.Formulas) == 0 {
				return word()
			}
			k := r.IntN(len(x.Formulas))
			if r.Float64() < o.Share {
				k = k % (1 + len(x.Formulas)/3)
			}
			f := x.Formulas[k]
			if !o.OneMath && chance(r, 0.3) { // another text with the same rendering
				f = strings.ReplaceAll(f, "+", pick(r, " + ", "+ ", " +"))
			}
			return "<math>" + f + "</math>"
		}
		fmt.Fprintf(&sb, "Intro %s '''bold %s''' ''it %s''.<ref name=\"n%d\">ref %s</ref>\n\n", word(), word(), word(), a, word())
		n := 3 + r.IntN(6)
		for k := 0; k < n; k++ {
			if k == 2 {
				fmt.Fprintf(&sb, "== Head %s ==\n", word())
			}
			switch r.IntN(7) {
			case 0:
				if i := img(); i != "" {
					fmt.Fprintf(&sb, "[[%s|thumb|120px|Caption %s]]\n", i, word())
				}
			case 1:
				if i := img(); i != "" {
					fmt.Fprintf(&sb, "Text %s [[%s|15px]] more.\n\n", word(), i)
				}
			case 2:
				fmt.Fprintf(&sb, "Tmpl %s %s and %s.\n\n", word(), tm(), tm())
			case 3:
				fmt.Fprintf(&sb, "Formula %s %s.\n\n", ma(), ma())
			case 4:
				fmt.Fprintf(&sb, "* item %s [[Some page %d]]\n* item <ref name=\"n%d\" /> %s\n** sub %s\n\n", word(), r.IntN(5), a, tm(), word())
			case 5:
				fmt.Fprintf(&sb, "{|\n! h%s\n|-\n| %s || %s\n|}\n", word(), ma(), word())
			case 6:
				if i := img(); i != "" {
					fmt.Fprintf(&sb, "<gallery>\n%s|cap %s\n%s\n</gallery>\n", i, word(), img())
				}
			}
		}
		fmt.Fprintf(&sb, "== End ==\nLast %s.\n<references />\n", word())
		x.Pages[t] = sb.String()
		x.Titles = append(x.Titles, t)
	}
	return x
}

// Wiki serves the scenario.
func (x *World) Wiki() *Wiki {
	w := NewWiki()
	for t, p := range x.Pages {
		w.AddPage("en.wikipedia.org", t, p)
	}
	for _, i := range x.Imgs {
		if i.Alias != "" {
			w.AddImageRedirect(i.Host, i.Alias, i.Name, []byte(i.Body))
		} else {
			w.AddImage(i.Host, i.Name, []byte(i.Body))
		}
	}
	for _, f := range x.Formulas { // renderings stay available between runs
		q := `{\displaystyle ` + f + `}`
		w.math[mathHash(q)] = normMath(q)
	}
	w.Expand = ExpandWith(func(n string) (tmplBody, bool) { b, ok := x.Bodies[n]; return b, ok })
	return w
}

// Cfg adds the scenario's options to a base configuration.
func (x *World) Cfg(base Cfg) Cfg {
	if x.Math != "" {
		base = base.With("math-converter", x.Math, "command-template-math-svg-to-png", "convtool math --in {INPUT} --out {OUTPUT}")
	}
	return base
}

// bookView is everything a reader can get from a finished EPUB run, independent of the scratch directory.
func bookView(e *Env, res *Result) []string {
	norm := func(s string) string { return strings.ReplaceAll(s, e.Dir, "$DIR") }
	b := res.Book()
	if b == nil {
		return []string{fmt.Sprintf("no book: %d converter calls", len(res.Calls("pandoc")))}
	}
	var out []string
	for _, a := range b.Args {
		out = append(out, "arg "+norm(a))
	}
	for _, ch := range b.Chapters {
		out = append(out, "chapter "+norm(ch.Path)+"\n"+norm(ch.Content))
		var ks []string
		for k := range ch.Refs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, "file "+k+" = "+norm(ch.Refs[k]))
		}
	}
	return out
}

// viewDiff describes the first difference of two views.
func viewDiff(want, got []string) string {
	for i := range want {
		if i >= len(got) {
			return "missing: " + clip(want[i], 300)
		}
		if want[i] != got[i] {
			a, b := want[i], got[i]
			k := 0
			for k < len(a) && k < len(b) && a[k] == b[k] {
				k++
			}
			s := max(0, k-80)
			return fmt.Sprintf("part %d differs at byte %d (part starts %q): expected …%q, observed …%q", i, k, clip(a, 60), clip(a[s:], 200), clip(b[s:], 200))
		}
	}
	if len(got) > len(want) {
		return "additional: " + clip(got[len(want)], 300)
	}
	return ""
}
