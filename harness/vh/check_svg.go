package main

import (
	"fmt"
	"math/rand/v2"
	"path/filepath"
	"strings"
)

// svgCase is a generated SVG file with the content it must have after the size fixing.
type svgCase struct {
	Kind, In, Want string
}

func genSvg(r *rand.Rand, id string) svgCase {
	kind := pick(r, "relative", "relative", "relative", "mixed", "one", "absolute", "novb", "badvb", "broken", "lowervb", "none")
	ws := func() string { return pick(r, " ", " ", "\n", "\t", "\r\n ", "  ") }
	num := func() string {
		return pick(r, fmt.Sprint(1+r.IntN(900)), fmt.Sprintf("%d.%02d", r.IntN(500), r.IntN(100)), ".5", "1e3", "100")
	}
	w, h := num(), num()
	sep := pick(r, " ", " ", ",", ", ", "  ", "\n", "\t", " ,")
	vb := strings.Join([]string{pick(r, "0", "-5", "0.0", "12"), pick(r, "0", "7", "-.5"), w, h}, sep)
	if chance(r, 0.15) {
		vb = " " + vb + " "
	}
	abs := func() string {
		return pick(r, "", "px", "pt", "mm", "em", "cm", "in")
	}
	pct := func() string { return pick(r, "100", "50", "33.3", "0") + "%" }
	ow, oh := num()+abs(), num()+abs()
	hasW, hasH := true, true
	switch kind {
	case "relative", "novb", "badvb", "broken", "lowervb":
		ow, oh = pct(), pct()
	case "mixed":
		if chance(r, 0.5) {
			ow = pct()
		} else {
			oh = pct()
		}
	case "one":
		ow, oh = pct(), pct()
		hasW = chance(r, 0.5)
		hasH = !hasW
	case "none":
		hasW, hasH = false, false
	}
	if kind == "badvb" {
		vb = pick(r, "0 0 100", "100", "", "0 0 1 2 3", ",,,", "0;0;5;5", " ")
	}
	eq := func(name, v string) string {
		q := pick(r, "\"", "\"", "\"", "\"", "'")
		return name + pick(r, "=", "=", "=", "=", " = ", "= ") + q + v + q
	}
	change := kind == "relative" || kind == "mixed" || kind == "one"
	nw, nh := ow, oh
	if change {
		nw, nh = w+"pt", h+"pt"
	}
	type attr struct{ name, old, new string }
	attrs := []attr{{"xmlns", "http://www.w3.org/2000/svg", ""}}
	if hasW {
		attrs = append(attrs, attr{"width", ow, nw})
	}
	if hasH {
		attrs = append(attrs, attr{"height", oh, nh})
	}
	if kind == "lowervb" {
		attrs = append(attrs, attr{"viewbox", vb, ""})
	} else if kind != "novb" {
		attrs = append(attrs, attr{"viewBox", vb, ""})
	}
	for _, a := range []attr{{"version", "1.1", ""}, {"stroke-width", ow, ""}, {"stroke-width", "100%", ""}, {"data-height", oh, ""}, {"data-viewBox", "0 0 1 1", ""},
		{"style", "width:100%;height:" + oh + "; viewBox: 0 0 3 3", ""}, {"id", "a>b /> width=100%", ""}, {"preserveAspectRatio", "none", ""}, {"class", "ä 日本", ""}, {"title", "width=", ""}} {
		dup := false
		for _, b := range attrs {
			dup = dup || b.name == a.name
		}
		if !dup && chance(r, 0.3) {
			attrs = append(attrs, a)
		}
	}
	r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	name := "svg"
	if chance(r, 0.1) {
		name = "svg:svg"
		attrs = append(attrs, attr{"xmlns:svg", "http://www.w3.org/2000/svg", ""})
	}
	var in, want strings.Builder
	both := func(s string) { in.WriteString(s); want.WriteString(s) }
	decoy := fmt.Sprintf(`<svg width="%s" height="%s" viewBox="0 0 9 9"/>`, ow, oh)
	if chance(r, 0.6) {
		both(pick(r, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version="1.0"?>`, "<?xml version='1.0' encoding='utf-8' standalone='no'?>") + pick(r, "\n", "\r\n", ""))
	} else if chance(r, 0.15) {
		both("\ufeff")
	}
	if chance(r, 0.4) {
		both("<!-- made by > " + pick(r, "tool", decoy, "width=\"100%\"") + " -->\n")
	}
	if chance(r, 0.3) {
		both(pick(r, `<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">`, "<!DOCTYPE svg [\n<!ENTITY ns_svg \"http://www.w3.org/2000/svg\">\n<!ENTITY x \"<y>\">\n]>", "<!DOCTYPE svg>") + "\n")
	}
	if chance(r, 0.15) {
		both("<?foo width=\"100%\" <svg ?>\n")
	}
	both("<" + name)
	for _, a := range attrs {
		s := ws()
		both(s)
		one := eq(a.name, "\x00")
		in.WriteString(strings.ReplaceAll(one, "\x00", a.old))
		if a.new == "" {
			a.new = a.old
		}
		want.WriteString(strings.ReplaceAll(one, "\x00", a.new))
	}
	if chance(r, 0.2) {
		both(ws())
	}
	if kind == "broken" {
		both(pick(r, ">", "", "><g>", "><g></svg>", ">&nbsp;</svg>", " foo></svg>", "></"+name+"") + " id" + id)
		return svgCase{kind, in.String(), want.String()}
	}
	both(">")
	for k := r.IntN(5); k > 0; k-- {
		both(pick(r, decoy, fmt.Sprintf(`<rect width="%s" height="%s"/>`, ow, oh), "\n", "<text>width=\"100%\" viewBox</text>", "<!-- "+decoy+" -->", "<![CDATA["+decoy+"]]>", "<style>svg{width:100%}</style>", "<title>ü</title>", "\t"))
	}
	both("<desc>" + id + "</desc></" + name + ">" + pick(r, "", "\n", "<!-- end width=\"100%\" -->"))
	return svgCase{kind, in.String(), want.String()}
}

// checkV01: fixing of the size of SVG images.
func checkV01(c *Ctx) {
	c.Rule = "generated SVG files (relative, absolute, mixed and missing sizes; all kinds of view boxes and separators; prologs, comments, DOCTYPEs and nested elements carrying the same attributes; broken files) served as images of a project, option on and off, with and without conversion; the cached file, the converter's input and the referenced image are compared byte for byte with the file built by the generator; then the fixed files are served to a fresh cache (idempotence) and the run is repeated on the same cache; distinct: (file, expectation)"
	c.Assume = []string{"attribute values of the root element contain no entities", "the root element carries width, height and viewBox without namespace prefix"}
	n := c.N(200, 4000)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("svg", ci)
		e := c.NewEnv()
		defer e.Close()
		on := chance(r, 0.8)
		var cs []svgCase
		var names []string
		text := "Text\n"
		for k := 3 + r.IntN(10); k > 0; k-- {
			cs = append(cs, genSvg(r, fmt.Sprintf("%d-%d", ci, k)))
			nm := fmt.Sprintf("Pic_k%d_%d.%s", ci, k, pick(r, "svg", "svg", "svg", "SVG", "Svg", "svg.svg"))
			names = append(names, nm)
			text += fmt.Sprintf("[[File:%s|%s]] t\n\n", nm, pick(r, "20px", "thumb|caption", "mini"))
		}
		other := fmt.Sprintf("Other_k%d.png", ci)
		otherBody := `<svg width="100%" height="100%" viewBox="0 0 5 6"></svg>`
		text += "[[File:" + other + "]] <math>x^2</math>\n"
		cfg := e.BaseCfg().With("svg-size-to-viewbox", on, "math-converter", pick(r, "none", "wikimedia"), "worker-threads", pick(r, 1, 5))
		conv := chance(r, 0.4)
		if conv {
			cfg["command-template-svg-to-png"] = "convtool svg --in {INPUT} --out {OUTPUT}"
		}
		serve := func(fixed bool) *Wiki {
			w := NewWiki()
			w.AddPage("en.wikipedia.org", "Svgs", text)
			for i, nm := range names {
				b := cs[i].In
				if fixed {
					b = cs[i].Want
				}
				w.AddImage("commons.wikimedia.org", nm, []byte(b))
			}
			w.AddImage("commons.wikimedia.org", other, []byte(otherBody))
			return w
		}
		check := func(stage string, w *Wiki, fixedIn bool) bool {
			res := e.Run(w, RunOpt{}, "project", e.Project(cfg, []string{"Svgs"}))
			viol := func(i int, kind, msg string) bool {
				c.Violate("V01:"+kind, stage+": "+msg, map[string]any{"case": ci, "config": cfg, "svg": cs[i].In, "expected": cs[i].Want, "kind": cs[i].Kind, "on": on})
				return false
			}
			if !res.Success() {
				return viol(0, "failed", "the run failed: "+res.Brief())
			}
			b := res.Book()
			if b == nil || len(b.Chapters) != 1 {
				return viol(0, "failed", "no book: "+res.Brief())
			}
			snap := Snapshot(filepath.Join(e.Cache, "images"))
			if snap[other] != otherBody {
				return viol(0, "other", "an image which is no SVG was changed: "+clip(snap[other], 200))
			}
			if cfg["math-converter"] != "none" {
				h := mathHash(mathQuery("x^2"))
				if s := snap[h+".svg"]; s != string(MathSvg(mathQuery("x^2"))) {
					return viol(0, "math", "the SVG of a formula was changed: "+clip(s, 200))
				}
			}
			for i, nm := range names {
				want := cs[i].In
				if on || fixedIn {
					want = cs[i].Want
				}
				got, ok := snap[nm]
				if !ok {
					return viol(i, "missing", "no cached image "+nm)
				}
				if got != want {
					return viol(i, "content "+cs[i].Kind, fmt.Sprintf("%s is %q instead of %q", nm, clip(got, 700), clip(want, 700)))
				}
				if conv {
					for _, t := range res.Tools {
						if t.Tool == "convtool" && strings.HasSuffix(t.In, "/"+nm) && !strings.HasPrefix(strings.ToValidUTF8(want, "\ufffd"), strings.TrimRight(t.InContent, "…\ufffd")) {
							return viol(i, "converted", "the conversion of "+nm+" saw "+clip(t.InContent, 200))
						}
					}
				} else {
					seen := false
					for src, body := range b.Chapters[0].Refs {
						if strings.HasSuffix(src, "/"+nm) {
							seen = true
							if body != want {
								return viol(i, "book", nm+" in the book is "+clip(body, 300))
							}
						}
					}
					if !seen {
						return viol(i, "book", nm+" is not referenced")
					}
				}
				if !fixedIn {
					c.Case(fmt.Sprint(on, cs[i].In))
					c.Seen("kinds", cs[i].Kind)
					if on && cs[i].In != cs[i].Want {
						c.Count("files_changed", 1)
					} else {
						c.Count("files_unchanged", 1)
					}
				}
			}
			return true
		}
		w := serve(false)
		if !check("first run", w, false) || !check("second run", w, false) {
			return
		}
		if on {
			e.Cache = filepath.Join(e.Dir, "cache2")
			cfg["cache-dir"] = e.Cache
			check("fixed files served", serve(true), true)
		}
		if ci == 0 {
			c.Sample(cs[0])
		}
	})
}
