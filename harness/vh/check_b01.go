package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() { register("B01", "exploration", checkB01) }

var h1Re = regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)

func randTitle(r *rand.Rand, i int) string {
	base := pick(r, "Stern", "Röntgen", "Über uns", "St. Paul", "C++ language", "What is it?", "AC/DC", "50% rule", "Mond (Himmel)", "Ĝoja tago", "日本 文化", "It's", "Say \"hi\"", "A-B", "x, y", "Foo.html", "a*b", "A%2Fb", "Rock & Roll", "semi;colon", "Star = sun", "100 %", "Tilde~x")
	if chance(r, 0.03) { // titles have up to 255 bytes
		k := pick(r, 150, 200, 215, 225, 235, 245)
		for len(base) < k && len(base) < 230 {
			base += " " + base
		}
		base = strings.TrimSpace(strings.ToValidUTF8(base[:min(k, len(base))], ""))
	}
	return fmt.Sprintf("%s %d", base, i)
}

// checkB01: order, multiplicity and identity of the chapters handed to the converter, over thread counts, list lengths,
// duplicates and completion orders forced by per-request delays.
func checkB01(c *Ctx) {
	c.Rule = "random projects (1-40 articles, 1-24 worker threads, duplicated entries, awkward and similar titles, redirects, second runs on a filled cache) with per-request answer delays that permute the completion order; non-trivial: the converter was started; distinct: (number of articles, threads, order in which article answers completed)"
	c.Assume = []string{"the wiki, the TLS proxy and the converter are stand-ins; the program is the real binary", "two titles of one project differ in more than blanks versus underscores"}
	n := c.N(150, 2500)
	Par(n, 8, func(ci int) {
		r := c.Rand("proj", ci)
		na := pick(r, 1, 2, 3, 5, 8, 13, 20, 40)
		if ci%10 == 7 {
			na = 60
		}
		threads := pick(r, 1, 2, 3, 4, 5, 8, 16, 24)
		if ci == 0 {
			na, threads = 1, 16
		}
		if ci == 1 {
			na, threads = 40, 1
		}
		w := NewWiki()
		var titles []string
		words := map[string]string{}
		for i := 0; i < na; i++ {
			if i > 0 && chance(r, 0.2) { // duplicate of an earlier entry
				titles = append(titles, titles[r.IntN(len(titles))])
				continue
			}
			t := randTitle(r, i)
			if i > 0 && chance(r, 0.15) { // similar title: prefix, suffix or case of another one
				o := titles[r.IntN(len(titles))]
				t = pick(r, o+"1", o+" x", "X"+o, strings.ToUpper(o), o+".html")
			}
			if _, dup := words[t]; dup {
				t = fmt.Sprintf("%s u%d", t, i)
			}
			word := fmt.Sprintf("uniq%dq%d", ci, i)
			words[t] = word
			text := fmt.Sprintf("Text %s start.\n\n== Head ==\nMore %s end.\n", word, word)
			if chance(r, 0.2) {
				w.AddRedirect("en.wikipedia.org", t, "Target of "+fmt.Sprint(i), text)
			} else {
				w.AddPage("en.wikipedia.org", t, text)
			}
			titles = append(titles, t)
		}
		style := r.IntN(4)
		var dmu sync.Mutex
		dr := rand.New(rand.NewPCG(uint64(ci), 5))
		w.DelayFn = func(q *Req) time.Duration {
			dmu.Lock()
			defer dmu.Unlock()
			switch style {
			case 0:
				return 0
			case 1: // the earlier, the slower
				for i, t := range titles {
					if normTitle(t) == normTitle(q.Key) {
						return time.Duration(len(titles)-i) * 2 * time.Millisecond
					}
				}
				return 0
			case 2:
				return time.Duration(dr.IntN(30)) * time.Millisecond
			}
			if dr.IntN(5) == 0 { // a straggler now and then
				return time.Duration(80+dr.IntN(80)) * time.Millisecond
			}
			return 0
		}
		e := c.NewEnv()
		defer e.Close()
		cfg := e.BaseCfg().With("worker-threads", threads, "output-type", pick(r, "epub2", "epub3"))
		place := func(p string) string {
			if ci%6 != 3 {
				return p
			}
			// the project file lies within the cache directory
			must(os.MkdirAll(e.Cache, 0o755))
			b, err := os.ReadFile(p)
			must(err)
			p = filepath.Join(e.Cache, "project.json")
			must(os.WriteFile(p, b, 0o644))
			return p
		}
		p := place(e.Project(cfg, titles))
		run := func(tag string, titles []string) {
			replay := map[string]any{"case": ci, "run": tag, "articles": titles, "threads": threads, "delay_style": style}
			res := e.Run(w, RunOpt{}, "project", p)
			sig := func(kind string) string { return "B01:" + kind + ":" + hashs(strings.Join(titles, "|"), tag) }
			if !res.Success() {
				c.Violate(sig("failed"), "a healthy run failed: "+res.Brief(), replay)
				return
			}
			book := res.Book()
			if book == nil {
				c.Violate(sig("converter"), fmt.Sprintf("converter started %d times", len(res.Calls("pandoc"))), replay)
				return
			}
			if len(book.Chapters) != len(titles) {
				c.Violate(sig("count"), fmt.Sprintf("%d articles but %d chapters: %v", len(titles), len(book.Chapters), paths(book)), replay)
				return
			}
			for i, t := range titles {
				ch := book.Chapters[i]
				m := h1Re.FindAllStringSubmatch(ch.Content, -1)
				if len(m) != 1 || unescapeHTML(strings.TrimSpace(m[0][1])) != t {
					c.Violate(sig("title"), fmt.Sprintf("chapter %d should be %q but its headings are %v", i, t, m), replay)
					return
				}
				if strings.Count(ch.Content, words[t]) != 2 {
					c.Violate(sig("text"), fmt.Sprintf("chapter %d (%q) does not hold its own text", i, t), replay)
					return
				}
				for ot, ow := range words {
					if ot != t && regexp.MustCompile(`\b`+ow+`\b`).MatchString(ch.Content) {
						c.Violate(sig("foreign"), fmt.Sprintf("chapter %d (%q) holds text of %q", i, t, ot), replay)
						return
					}
				}
			}
			reqs := append([]*Req(nil), res.Reqs...)
			sort.Slice(reqs, func(a, b int) bool { return reqs[a].Sent.Before(reqs[b].Sent) })
			var ord []string
			for _, q := range reqs {
				ord = append(ord, q.Key)
			}
			c.Case(fmt.Sprintf("%d/%d/%s", len(titles), threads, hashs(ord...)))
			c.Seen("completion_orders", hashs(ord...))
			c.Count("chapters_checked", int64(len(titles)))
			if ci < 2 {
				c.Sample(map[string]any{"articles": titles, "threads": threads, "completion_order": ord, "converter_chapters": paths(book)})
			}
		}
		run("fresh", titles)
		if ci%3 == 0 { // the same cache, another list: permuted, shortened, with a repeated entry
			t2 := append([]string(nil), titles...)
			r.Shuffle(len(t2), func(i, j int) { t2[i], t2[j] = t2[j], t2[i] })
			t2 = append(t2[:1+r.IntN(len(t2))], t2[0])
			p = place(e.Project(cfg, t2))
			run("second", t2)
		}
		if ci%5 == 0 { // the article command: one chapter
			e2 := c.NewEnv()
			defer e2.Close()
			cf := e2.Dir + "/config.json"
			writeJSON(cf, e2.BaseCfg())
			res := e2.Run(w, RunOpt{}, "article", "-c", cf, "-o", e2.Out, titles[0])
			b := res.Book()
			if !res.Success() || b == nil || len(b.Chapters) != 1 || strings.Count(b.Chapters[0].Content, words[titles[0]]) != 2 {
				c.Violate("B01:article:"+hashs(titles[0]), "article command: "+res.Brief(), map[string]any{"title": titles[0]})
			} else {
				c.Case("article/" + titles[0])
			}
		}
	})
}

func paths(t *ToolCall) []string {
	var out []string
	for _, ch := range t.Chapters {
		out = append(out, ch.Path)
	}
	return out
}
