package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register("P02", "exploration", checkP02)
	register("P03", "exploration", checkP03)
	register("P04", "exploration", checkP04)
	register("P05", "exploration", checkP05)
	register("P06", "exploration", checkP06)
	register("P07", "exploration", checkP07)
	register("P08", "exploration", checkP08)
	register("P09", "exploration", checkP09)
	register("P10", "exploration", checkP10)
	register("P11", "exploration", checkP11)
	register("P12", "exploration", checkP12)
	register("P13", "exploration", checkP13)
}

const contentRule = "documents composed at random from all constructs the generator knows (weights shifted towards the property's own), in batches of one project each, over thread counts, math converters and image tool settings; non-trivial: the converter was handed the chapter and it holds at least one construct the property is about; distinct: sequence of observed events"

func noWords(string) bool { return false }

// needs makes a document count as non-trivial only if it used one of the constructs.
func needs(feats ...string) func(d *docCase, ev []string) string {
	return func(d *docCase, ev []string) string {
		for _, f := range feats {
			if d.Gen.Feat[f] > 0 {
				return hashs(ev...)
			}
		}
		return ""
	}
}

// checkP02: well-formedness, no placeholder, one title heading.
func checkP02(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(200, 3000), Docs: 22, Size: 3, View: View{Words: noWords},
		Judge: func(d *docCase, ch *ChapterObs, res *Result) string { return docProblems(d.Title, ch.Content, d.F.exp) },
		Key:   func(d *docCase, ev []string) string { return hashs(d.F.src) }})
}

// docProblems finds what no chapter may contain; exp is the expected document, which may hold texts that look like placeholders.
func docProblems(title, doc, exp string) string {
	_, p := Canon(doc, View{})
	if len(p) > 0 {
		return "not well-formed: " + strings.Join(p, "; ")
	}
	for _, m := range placeholderRe.FindAllString(doc, -1) {
		if strings.Contains(exp, m) {
			continue
		}
		return "internal placeholder in the chapter: " + m
	}
	h := h1Re.FindAllStringSubmatch(doc, -1)
	if len(h) != 1 || unescapeHTML(strings.TrimSpace(h[0][1])) != title {
		return fmt.Sprintf("title headings: %v, expected one with %q", h, title)
	}
	return ""
}

// checkP03: every word exactly once, in order.
func checkP03(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(200, 3000), Docs: 22, Size: 3, View: View{}})
}

// checkP04: style of every character.
func checkP04(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(160, 2600), Docs: 22, Size: 3, Focus: map[string]float64{"style": 3, "math": .3, "iimg": .3, "gallery": .5, "imap": .3},
		View: View{Styles: true}, Key: needs("style", "boldends"), Judge: quotesJudge})
	c.Content(contentOpt{Stream: "dense", Batches: c.N(60, 1000), Docs: 30, Size: 1, View: View{Styles: true}, NoTools: true, Make: func(g *Gen) frag { return g.denseStyle() },
		Key: func(d *docCase, ev []string) string { return hashs(ev...) }})
}

// quotesJudge: no element may be empty or wrongly nested, which the comparison of single characters cannot see.
func quotesJudge(d *docCase, ch *ChapterObs, res *Result) string {
	if _, p := Canon(ch.Content, View{}); len(p) > 0 {
		return "formatting elements: " + strings.Join(p, "; ")
	}
	return ""
}

// checkP05: numbers at usages and lists.
func checkP05(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(160, 2600), Docs: 22, Size: 4, Focus: map[string]float64{"ref": 5, "reflist": 4, "trail": 0, "math": .3, "iimg": .3, "gallery": .4, "imap": .3},
		View: View{Brs: true}, Key: needs("ref")})
}

// checkP06: tables.
func checkP06(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(160, 2600), Docs: 22, Size: 3, Focus: map[string]float64{"table": 6, "math": .3, "gallery": .3, "imap": .3},
		View: View{Tags: tagset("table tr td th figure caption ul ol li dl dt dd a"), Styles: true, Imgs: true, Attrs: tagset("colspan rowspan style")}, Key: needs("table")})
}

// checkP07: lists.
func checkP07(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(160, 2600), Docs: 22, Size: 3, Focus: map[string]float64{"list": 6, "math": .3, "gallery": .3, "imap": .3},
		View: View{Tags: tagset("ul ol li dl dt dd"), Attrs: tagset("value")}, Key: needs("list")})
}

// checkP08: headings, sections, paragraphs.
func checkP08(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(160, 2600), Docs: 22, Size: 7, Focus: map[string]float64{"emptysec": 2, "h1": 1, "trail": 0, "math": .3, "iimg": .3, "table": .4, "gallery": .4, "imap": .3, "html": .5},
		View: View{Tags: tagset("h1 h2 h3 h4 h5 h6"), Brs: true}, Key: func(d *docCase, ev []string) string { return hashs(ev...) }})
}

// checkP09: images, their positions, sizes, captions, files and requests.
func checkP09(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(120, 2000), Docs: 18, Size: 3, Delay: true, Focus: map[string]float64{"iimg": 5, "thumb": 4, "gallery": 5, "imap": 5, "dead": 2, "math": .3},
		View: View{Tags: tagset("figure caption td th li dt dd"), Imgs: true}, Key: needs("iimg", "thumb", "gallery", "imap"), Batch: imageRequests})
}

// imageRequests: every wanted image was downloaded, no ignored one was ever asked for.
func imageRequests(ds []*docCase, b batchCfg, w *Wiki, res *Result) string {
	asked := map[string]int{}
	got := map[string]int{}
	for _, q := range res.Reqs {
		switch q.Kind {
		case "file":
			asked[normTitle(strings.TrimPrefix(q.Key, "File:"))]++
		case "image":
			_, n, _ := strings.Cut(q.Key, "/")
			if q.OK {
				got[n]++
			}
		}
	}
	want := map[string]bool{}
	for _, d := range ds {
		for _, n := range d.Gen.Images {
			want[n] = true
			if asked[n] == 0 && strings.Contains(d.F.exp, "LABEL:"+escLabel(d.Gen.ImgLabel[n])+`"`) {
				return "image " + n + " of " + d.Title + " was never requested"
			}
		}
		for _, n := range d.Gen.Ignored {
			for a := range asked {
				if strings.HasPrefix(a, n+".") {
					return "ignored file " + a + " was requested"
				}
			}
		}
	}
	for a := range asked {
		if !want[a] {
			return "file " + a + " was requested but no article shows it"
		}
	}
	for n, k := range got {
		if k > 1 {
			return fmt.Sprintf("image file %s was downloaded %d times", n, k)
		}
	}
	return ""
}

// checkP10: templates.
func checkP10(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(160, 2600), Docs: 22, Size: 3, Delay: true, Focus: map[string]float64{"tmpl": 5, "btmpl": 5, "igntmpl": 5, "trail": 4, "math": .3, "gallery": .3, "imap": .3},
		View: View{Tags: tagset("ul li table tr td th"), Styles: true}, Key: needs("tmpl", "btmpl", "igntmpl", "trail"), Batch: templateRequests})
}

func templateRequests(ds []*docCase, b batchCfg, w *Wiki, res *Result) string {
	n := 0
	for _, q := range res.Reqs {
		if q.Kind != "template" {
			continue
		}
		n++
		name, _, _ := strings.Cut(strings.Trim(q.Key, "{}"), "|")
		name = strings.ToLower(strings.TrimSpace(name))
		if strings.HasPrefix(name, "navbox gone") {
			return "an ignored template was sent for expansion: " + clip(q.Key, 200)
		}
		if !strings.HasPrefix(q.Key, "{{") || !strings.HasSuffix(q.Key, "}}") {
			return "something other than a template call was sent for expansion: " + clip(q.Key, 200)
		}
		if strings.Contains(q.Key[2:], "{{") {
			return "a call with unexpanded inner calls was sent for expansion: " + clip(q.Key, 200)
		}
	}
	want := 0
	for _, d := range ds {
		want += len(d.Gen.Templates)
	}
	if n == 0 && want > 0 {
		return "no template was sent for expansion"
	}
	return ""
}

// checkP11: links.
func checkP11(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(160, 2600), Docs: 22, Size: 3, Focus: map[string]float64{"ilink": 5, "elink": 5, "dead": 5, "math": .3, "gallery": .5, "imap": .3},
		View: View{Tags: tagset("a"), Attrs: tagset("href"), Styles: true}, Key: needs("ilink", "elink", "dead")})
}

// checkP12: formulas.
func checkP12(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(130, 2000), Docs: 16, Size: 3, Delay: true, Focus: map[string]float64{"math": 12, "gallery": .5, "imap": .3},
		View: View{Imgs: true}, Key: needs("math"), Batch: mathRequests})
}

// mathRequests: each distinct formula is submitted exactly as written, and nothing else.
func mathRequests(ds []*docCase, b batchCfg, w *Wiki, res *Result) string {
	got := map[string]int{}
	for _, q := range res.Reqs {
		if q.Kind == "texcheck" {
			got[q.Key]++
		}
	}
	want := map[string]bool{}
	shared := map[string]int{}
	for _, d := range ds {
		same := map[string]int{}
		for f := range d.Gen.Maths {
			same[mathHash(mathQuery(f))]++
		}
		for f := range d.Gen.Maths {
			h := mathHash(mathQuery(f))
			want[mathQuery(f)] = want[mathQuery(f)] || strings.Contains(d.F.exp, "MATH "+h) && (same[h] == 1 || strings.Contains(d.F.src, f))
			shared[mathQuery(f)]++
		}
	}
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if _, ok := want[k]; !ok {
			return "a formula was submitted that no article holds: " + k
		}
		if got[k] > 1 && shared[k] == 1 { // one article is processed by one thread, so nothing excuses a second submission
			return fmt.Sprintf("formula %s was submitted %d times", k, got[k])
		}
	}
	for k, used := range want {
		if used && got[k] == 0 {
			return "formula never submitted: " + k
		}
	}
	return ""
}

// checkP13: nowiki and comments.
func checkP13(c *Ctx) {
	c.Rule = contentRule
	c.Content(contentOpt{Stream: "doc", Batches: c.N(160, 2600), Docs: 22, Size: 3, Focus: map[string]float64{"nowiki": 8, "comment": 8, "cmtblock": 4, "math": .3, "gallery": .5, "imap": .3},
		View: View{Styles: true, Tags: tagset("a ul ol li table tr td th h1 h2 h3 h4 h5 h6 dl dt dd")}, Key: needs("nowiki", "comment", "cmtblock")})
}
