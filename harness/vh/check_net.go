package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"
)

func init() {
	register("H02", "exploration", checkH02)
	register("C03", "exploration", checkC03)
	registerAPI("C04", "exploration", checkC04)
}

// weird gives a string over characters that need care in URLs, forms, JSON and file names.
func weird(r *rand.Rand, without string, n int) string {
	parts := []string{"a", "Zq", "ß", "é", "e\u0301", "日本", "😀", "&", "+", "%", "?", "#", "\"", "'", "/", "\\", "=", ";", ",", ":", "~", "!", "@", "$", "^", "*", "(", ")", "-", ".", "_", " ", "%2F", "%20", "&amp;", "..", "//", "&x=y", "+ +", "{{{", "<", ">"}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		p := parts[r.IntN(len(parts))]
		if strings.ContainsAny(p, without) {
			continue
		}
		sb.WriteString(p)
	}
	return sb.String()
}

var spaceRunRe = regexp.MustCompile(`[ _]+`)
var doubleApoRe = regexp.MustCompile(`''+`)

func cleanTitle(s string) string {
	s = doubleApoRe.ReplaceAllString(s, "'")
	return strings.Trim(spaceRunRe.ReplaceAllString(s, " "), " ")
}

func sameTitle(a, b string) bool { return normTitle(a) == normTitle(b) }

// checkH02: identity, destination and headers of every request.
func checkH02(c *Ctx) {
	c.Rule = "random projects whose titles, image names, redirect targets, template calls and formulas contain characters that are special in URLs, forms, JSON and file names; random instance, wiki host, image hosts and their order, math API address, user agent template, thread count, project and article command; every request received is decoded by the fake wiki and compared with the set of requests the project needs; non-trivial: all expected requests seen; distinct: (project, request)"
	c.Assume = []string{"image article hosts look like Wikimedia hosts with a subdomain (the only ones for which the image path is specified)"}
	n := c.N(300, 6000)
	version := ""
	{
		e := c.NewEnv()
		res := e.Run(NewWiki(), RunOpt{}, "--version")
		f := strings.Fields(res.Stdout)
		if len(f) > 0 {
			version = f[len(f)-1]
		}
		e.Close()
	}
	if version == "" {
		c.Fail("no version")
		return
	}
	Par(n, 8, func(ci int) {
		if c.NViol() > 10 {
			return
		}
		r := c.Rand("proj", ci)
		inst := pick(r, "en", "de", "simple", "zh-min-nan", "be-tarask")
		host := pick(r, "wikipedia.org", "wikibooks.org", "wiki.example.org")
		imgHost := pick(r, "upload.wikimedia.org", "img.example.net")
		hosts := []string{"commons.wikimedia.org", inst + ".wikipedia.org", "fr.wikipedia.org", "species.wikimedia.org"}
		r.Shuffle(len(hosts), func(i, j int) { hosts[i], hosts[j] = hosts[j], hosts[i] })
		hosts = hosts[:1+r.IntN(4)]
		mathHost, mathPath := "wikimedia.org", "/api/rest_v1/media/math"
		if chance(r, 0.4) {
			mathHost, mathPath = "math.example.com", pick(r, "/m", "/v2/x/math")
		}
		ua := pick(r, "wiki2book {{VERSION}} (https://example.org; a@b.c)", "plain agent", "{{VERSION}}", "a/{{VERSION}} b/{{VERSION}}", "")
		w := NewWiki()
		w.ArticleHosts = map[string]bool{inst + "." + host: true}
		for _, h := range hosts {
			w.ArticleHosts[h] = true
		}
		w.ImageHost, w.MathHost, w.MathPath = imgHost, mathHost, mathPath
		want := map[string]bool{} // identities of the requests needed
		optional := map[string]bool{}
		key := func(kind, host, key string) string { return kind + " " + host + " " + key }
		conv := pick(r, "none", "template", "wikimedia")
		wikiHost := inst + "." + host
		var titles []string
		seenT := map[string]bool{}
		seenI := map[string]bool{}
		for a := 0; a < 1+r.IntN(3); a++ {
			t := cleanTitle("T" + weird(r, "#<>[]|{}&", 1+r.IntN(7)) + pick(r, "", " & co", "&b=c") + itoa(a))
			if seenT[normTitle(t)] {
				continue
			}
			seenT[normTitle(t)] = true
			var sb strings.Builder
			sb.WriteString("Start of text.\n\n")
			for k := 0; k < 2+r.IntN(4); k++ {
				switch r.IntN(3) {
				case 0: // image
					ext := pick(r, "png", "jpg", "svg", "JPG")
					name := cleanTitle("I"+weird(r, "#<>[]|{}/:", 1+r.IntN(7))+itoa(a*10+k)) + "." + ext
					name = strings.ReplaceAll(name, "%20", "")
					name = strings.ReplaceAll(name, "&amp;", "")
					if seenI[normTitle(name)] {
						continue
					}
					seenI[normTitle(name)] = true
					hi := r.IntN(len(hosts))
					target := name
					if chance(r, 0.3) {
						target = "R " + cleanTitle(strings.ReplaceAll(weird(r, "#<>[]|{}/:", 1+r.IntN(6)), "&amp;", "")) + itoa(a*10+k) + "." + ext
						if seenI[normTitle(target)] {
							continue
						}
						seenI[normTitle(target)] = true
						w.AddImageRedirect(hosts[hi], strings.ReplaceAll(name, " ", "_"), target, []byte("img "+target))
					} else {
						w.AddImage(hosts[hi], name, []byte("img "+name))
					}
					for i := 0; i <= hi; i++ {
						want[key("file", hosts[i], normTitle("File:"+name))] = true
					}
					want[key("image", imgHost, InstPath(hosts[hi])+"/"+normTitle(target))] = true
					use := name
					if chance(r, 0.5) {
						use = strings.ReplaceAll(name, " ", "_")
					}
					fmt.Fprintf(&sb, "Pic [[File:%s|%s]] here.\n\n", use, pick(r, "20px", "thumb|A caption", "mini|100px|left"))
				case 1: // template
					call := "{{Tm" + itoa(k) + "|" + cleanTmpl(weird(r, "<>[]|{}", 1+r.IntN(8))) + pick(r, "", "|x=1|  y = 2 ", "\n| z = 3\n") + "}}"
					want[key("template", wikiHost, call)] = true
					fmt.Fprintf(&sb, "Tmpl %s here.\n\n", call)
				case 2: // formula
					f := cleanTmpl("f_{" + itoa(a*10+k) + "} " + strings.NewReplacer("{", "", "}", "", "[[", "", "<", "", ">", "").Replace(weird(r, "<>[]{}", 1+r.IntN(7))) + ` \frac{x}{y}`)
					q := `{\displaystyle ` + f + `}`
					want[key("texcheck", mathHost, f)] = true
					want[key("mathsvg", mathHost, mathHash(q))] = true
					if conv == "wikimedia" {
						want[key("mathpng", mathHost, mathHash(q))] = true
					}
					fmt.Fprintf(&sb, "Math <math>%s</math> here.\n\n", f)
				}
			}
			if chance(r, 0.2) {
				w.AddRedirect(wikiHost, t, "Other "+itoa(a), sb.String())
			} else {
				w.AddPage(wikiHost, t, sb.String())
			}
			want[key("article", wikiHost, normTitle(t))] = true
			titles = append(titles, t)
		}
		w.Expand = func(text string) string { return "expanded" }
		e := c.NewEnv()
		defer e.Close()
		cfg := e.ToolCfg().With("wikipedia-instance", inst, "wikipedia-host", host, "wikipedia-image-article-hosts", hosts, "wikipedia-image-host", imgHost,
			"wikipedia-math-rest-api", "https://"+mathHost+mathPath, "user-agent-template", ua, "math-converter", conv, "worker-threads", pick(r, 1, 3, 8))
		wantUA := strings.ReplaceAll(ua, "{{VERSION}}", version)
		if ua == "" { // an empty option counts as not given
			wantUA = ""
		}
		args := []string{"project", e.Project(cfg, titles)}
		if ci%4 == 3 {
			titles = titles[:1]
			p := filepath.Join(e.Dir, "c.json")
			writeJSON(p, cfg)
			args = []string{"article", titles[0], "-c", p, "-o", e.Out}
		}
		res := e.Run(w, RunOpt{}, args...)
		replay := map[string]any{"case": ci, "pages": w.Pages, "config": cfg}
		if !res.Success() {
			prob := ""
			for _, q := range res.Reqs {
				if q.Problem != "" {
					prob = q.Host + " " + q.URI + ": " + q.Problem
				}
			}
			c.Violate("H02:failed:"+itoa(ci), "the run failed: "+prob+" "+res.Brief(), replay)
			return
		}
		got := map[string]bool{}
		for _, q := range res.Reqs {
			k := q.Key
			switch q.Kind {
			case "article", "file", "image":
				k = normKey(q.Kind, k)
			case "texcheck":
				k = strings.TrimSuffix(strings.TrimPrefix(k, `{\displaystyle `), "}")
			}
			id := key(q.Kind, q.Host, k)
			got[id] = true
			bad := ""
			switch {
			case q.Problem != "":
				bad = "a request a wiki does not understand: " + q.Problem
			case !want[id] && !optional[id] && ci%4 != 3:
				bad = "a request nothing in the project asks for"
			case ua != "" && q.Header.Get("User-Agent") != wantUA:
				bad = fmt.Sprintf("user agent %q instead of %q", q.Header.Get("User-Agent"), wantUA)
			case ua != "" && len(q.Header["User-Agent"]) != 1:
				bad = "several user agents"
			}
			if bad != "" {
				c.Violate("H02:"+q.Kind+":"+bad, fmt.Sprintf("%s: %s %s%s (decoded: %s)", bad, q.Method, q.Host, q.URI, id), replay)
				return
			}
			c.Case(fmt.Sprintf("%d/%s", ci, id))
			c.Seen("request_kinds", q.Kind)
		}
		if ci%4 != 3 {
			var miss []string
			for id := range want {
				if !got[id] {
					miss = append(miss, id)
				}
			}
			sort.Strings(miss)
			if len(miss) > 0 {
				c.Violate("H02:missing:"+miss[0], "requests that should have been made are missing: "+strings.Join(miss, " | "), replay)
				return
			}
		}
		// the order in which the hosts were asked for an image
		first := map[string]int{}
		for _, q := range res.Reqs {
			if q.Kind == "file" {
				k := normTitle(q.Key)
				pos := -1
				for i, h := range hosts {
					if h == q.Host {
						pos = i
					}
				}
				if last, ok := first[k]; ok && pos < last || !ok && pos != 0 {
					c.Violate("H02:host order", fmt.Sprintf("hosts asked for %s not in configured order %v", k, hosts), replay)
					return
				}
				first[k] = pos
			}
		}
		if ci == 0 {
			var ks []string
			for id := range want {
				ks = append(ks, id)
			}
			sort.Strings(ks)
			c.Sample(map[string]any{"expected_requests": ks, "user_agent": wantUA})
		}
	})
}

func normKey(kind, k string) string {
	if kind == "image" {
		i := strings.Index(k, "/")
		return k[:i+1] + normTitle(k[i+1:])
	}
	return normTitle(k)
}

func cleanTmpl(s string) string {
	return strings.TrimSpace(doubleApoRe.ReplaceAllString(strings.ReplaceAll(s, "--", "-"), "'"))
}

// stem strips what conversion and processing put around a downloaded body.
func stem(s string) string {
	for _, p := range []string{"PROC[", "PNG[", "PROC["} {
		if strings.HasPrefix(s, p) && strings.HasSuffix(s, "]") {
			s = s[len(p) : len(s)-1]
		}
	}
	return s
}

// hybrid is the second version of the world for some resources and the first for the others.
func (x *World) hybrid(v2 func(ident string) bool) *Wiki {
	w := x.Wiki()
	for h, ps := range w.Pages {
		for t, p := range ps {
			if strings.HasPrefix(t, "File:") {
				continue
			}
			if v2("article " + h + " " + t) {
				p.Text += "\nNew words of the second version " + hashs(t) + ".\n"
				ps[t] = p
			}
		}
	}
	for n, b := range w.Images {
		if v2("image " + w.ImageHost + " " + n) {
			w.Images[n] = []byte(strings.Replace(strings.Replace(string(b), "IMGDATA", "IMGDATA second", 1), "<title>", "<title>second ", 1))
		}
	}
	exp := w.Expand
	w.Expand = func(text string) string {
		out := exp(text)
		if v2("template en.wikipedia.org " + text) {
			out = out + " secondversion"
		}
		return out
	}
	return w
}

// checkC03: what is requested again depends only on the age of the cached copies.
func checkC03(c *Ctx) {
	c.Rule = "random projects (shared images of all kinds incl. redirects and second hosts, templates, formulas, image tools); history: cold run; same run again (no request may be made); then the wiki's content changes and a random subset of the cached downloads is aged to just below, just above or far beyond the configured maximum age; run again: exactly the outdated resources (and what they newly need) are requested, and book and cache equal those of a cold run against a wiki that serves new content for exactly the outdated resources; then again no request; non-trivial: at least one outdated and one fresh resource; distinct: (project, ages)"
	c.Assume = []string{"file ages are set through modification times; each run takes less than the 25 s margin kept from the limit"}
	n := c.N(70, 700)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("world", ci)
		x := NewWorld(r, fmt.Sprintf("k%dx", ci), worldOpt{Articles: 1 + r.IntN(4), Images: 2 + r.IntN(8), Tmpls: 4, Maths: 3, Share: 0.6})
		maxAge := pick(r, 1, 2, 60, 1440, 40320, 100000)
		strategy := pick(r, "lru", "none", "largest")
		threads := pick(r, 1, 1, 4)
		typ := pick(r, "epub", "epub", "epub", "stats-json")
		s := scene{c, x, typ}
		mk := func() (*Env, []string, string) {
			e, args, out := s.env(threads, false)
			var m Cfg
			readJSON(args[1], &m)
			m["cache-max-age"] = maxAge
			m["cache-eviction-strategy"] = strategy
			if ci%3 == 2 {
				delete(m, "command-template-image-processing")
				m["command-template-image-processing"] = ""
			}
			writeJSON(args[1], m)
			return e, args, out
		}
		e, args, out := mk()
		defer e.Close()
		replay := map[string]any{"case": ci, "articles": x.Pages, "images": x.Imgs, "math": x.Math, "max_age_minutes": maxAge, "strategy": strategy, "threads": threads}
		viol := func(kind, msg string) {
			c.Violate("C03:"+kind, fmt.Sprintf("%s (max age %d min, %s, threads=%d)", msg, maxAge, strategy, threads), replay)
		}
		v1 := x.hybrid(func(string) bool { return false })
		r1 := e.Run(v1, RunOpt{}, args...)
		if !r1.Success() {
			viol("failed", "the first run failed: "+r1.Brief())
			return
		}
		if threads == 1 {
			cnt := map[string]int{}
			for _, q := range r1.Reqs {
				if q.OK {
					cnt[q.Ident()]++
				}
			}
			for id, k := range cnt {
				if k > 1 {
					viol("repeated", fmt.Sprintf("%s was downloaded %d times in one run", id, k))
					return
				}
			}
		}
		want1 := s.view(e, r1, out)
		r1b := e.Run(v1, RunOpt{}, args...)
		if !r1b.Success() || len(r1b.Reqs) > 0 {
			d := ""
			if len(r1b.Reqs) > 0 {
				d = r1b.Reqs[0].Ident()
			}
			viol("second run", fmt.Sprintf("the second run made %d requests (%s): %s", len(r1b.Reqs), d, r1b.Brief()))
			return
		}
		if d := viewDiff(want1, s.view(e, r1b, out)); d != "" {
			viol("second result", "the second run's result differs: "+d)
			return
		}
		// which download is in which file
		bySum := map[string][]string{} // similar formulas have one rendering
		add := func(sum, id string) {
			if !slices.Contains(bySum[sum], id) {
				bySum[sum] = append(bySum[sum], id)
			}
		}
		for _, q := range r1.Reqs {
			if q.OK {
				add(q.RespSum, q.Ident())
				if q.Kind == "texcheck" {
					add(hash([]byte(mathHash(q.Key))), q.Ident())
				}
			}
		}
		outdated := map[string]bool{}
		known := map[string]bool{}
		var plan []string
		ages := map[string]int64{}
		byPath := cacheSnap(e)
		var files []string
		for f := range byPath {
			files = append(files, f)
		}
		sort.Strings(files)
		p := pick(r, 0.1, 0.3, 0.6, 1.0)
		done := map[string]int64{}
		for _, f := range files {
			ids := bySum[hash([]byte(stem(byPath[f])))]
			if len(ids) == 0 {
				continue
			}
			id := strings.Join(ids, " and ")
			if strings.HasPrefix(byPath[f], "PNG[") || strings.Contains(byPath[f], "PROC[PNG[") {
				continue // derived from the download
			}
			if secs, ok := done[id]; ok {
				if len(ids) > 1 {
					ages[f] = secs
				}
				continue
			}
			for _, id := range ids {
				known[id] = true
			}
			min := int64(maxAge)
			secs := pick(r, min*60-25, 0, min*60+30, min*30)
			if chance(r, p) {
				secs = pick(r, (min+1)*60+5, min*60+95, 3*min*60+1000, (min+1)*60+60)
				for _, id := range ids {
					outdated[id] = true
				}
			}
			done[id] = secs
			ages[f] = secs
			plan = append(plan, fmt.Sprintf("%s=%ds", id, secs))
		}
		for f, secs := range ages {
			t := time.Now().Add(-time.Duration(secs) * time.Second)
			must(os.Chtimes(filepath.Join(e.Cache, f), t, t))
		}
		isV2 := func(id string) bool { return outdated[id] || !known[id] }
		v2 := x.hybrid(func(id string) bool { return true })
		r2 := e.Run(v2, RunOpt{}, args...)
		took := r2.Dur
		// the same result from an empty cache, for comparison
		eh, ah, oh := mk()
		defer eh.Close()
		vh := x.hybrid(isV2)
		rh := eh.Run(vh, RunOpt{}, ah...)
		if !rh.Success() {
			viol("failed", "the comparison run failed: "+rh.Brief())
			return
		}
		if took > 20*time.Second {
			c.Count("discarded_slow", 1)
			return
		}
		if !r2.Success() {
			viol("failed", "the run with outdated entries failed: "+r2.Brief())
			return
		}
		got := map[string]bool{}
		for _, q := range r2.Reqs {
			if q.OK {
				got[q.Ident()] = true
				if known[q.Ident()] && !outdated[q.Ident()] {
					viol("fresh requested", q.Ident()+" was requested although its copy is fresh")
					return
				}
			}
		}
		for _, q := range rh.Reqs {
			if q.OK && isV2(q.Ident()) && !got[q.Ident()] {
				viol("outdated not requested", q.Ident()+" was not requested although its copy is outdated or missing")
				return
			}
		}
		if d := viewDiff(s.view(eh, rh, oh), s.view(e, r2, out)); d != "" {
			viol("result", "the result does not use new content for exactly the outdated resources: "+d)
			return
		}
		now, ref := cacheSnap(e), cacheSnap(eh)
		for f, v := range ref {
			if now[f] != v {
				viol("cache", fmt.Sprintf("the cache file %s holds %q instead of %q", f, clip(now[f], 120), clip(v, 120)))
				return
			}
		}
		r3 := e.Run(v2, RunOpt{}, args...)
		if !r3.Success() {
			viol("failed", "the last run failed: "+r3.Brief())
			return
		}
		for _, q := range r3.Reqs {
			if outdated[q.Ident()] || !known[q.Ident()] {
				viol("not replaced", q.Ident()+" was requested again after it had been renewed")
				return
			}
		}
		kk := ""
		if len(outdated) > 0 && len(outdated) < len(known) {
			kk = fmt.Sprintf("%d/%s", ci, hashs(plan...))
		}
		c.Case(kk)
		c.Count("outdated_resources", int64(len(outdated)))
		c.Count("fresh_resources", int64(len(known)-len(outdated)))
		if ci == 0 {
			c.Sample(map[string]any{"ages": plan, "requests": []int{len(r1.Reqs), len(r1b.Reqs), len(r2.Reqs), len(r3.Reqs)}})
		}
	})
}

// checkC04: similar names, in the cache itself and through whole runs.
func checkC04(c *Ctx) {
	c.Rule = "in-process: families of adversarial names (special characters, their percent-encoded forms, dots, slashes, prefixes, Unicode forms) stored through the cache with one body per name and looked up again, with every file's folder checked; black box: projects whose titles, images and templates form such families, comparing each chapter's, image's and expansion's content, and the set of cache folders, second run included; non-trivial: family of at least two names; distinct: (family)"
	c.Assume = []string{"names differ in more than blanks versus underscores; '.' and '..' are no names"}
	apiCheck(c, "c04", c.N(100, 1200))
	n := c.N(100, 1200)
	Par(n, 8, func(ci int) {
		if c.NViol() > 10 {
			return
		}
		r := c.Rand("fam", ci)
		w := NewWiki()
		fam := nameFamily(r, ci)
		var titles []string
		wordOf := map[string]string{}
		imgOf := map[string]string{}
		seen := map[string]bool{}
		exp := map[string]string{}
		for i, t := range fam {
			t = cleanTitle(strings.NewReplacer("|", "", "[", "", "]", "", "{", "", "}", "", "<", "", ">", "", "#", "").Replace(t))
			if t == "" || t == "." || t == ".." || seen[normTitle(t)] {
				continue
			}
			seen[normTitle(t)] = true
			word := fmt.Sprintf("own%dw%d", ci, i)
			wordOf[t] = word
			tx := "Text " + word + ".\n\n"
			in := strings.Trim(strings.NewReplacer("/", "", ":", "", "&", "", "%20", "").Replace(t), " _")
			if in != "" {
				name := in + "x.png"
				nn := normTitle("I" + name)
				if imgOf[nn] == "" {
					imgOf[nn] = fmt.Sprintf("IMG %d %d", ci, i)
					w.AddImage("commons.wikimedia.org", nn, []byte(imgOf[nn]))
				}
				tx += "Pic [[File:I" + name + "|20px]] here.\n\n"
			}
			call := "{{Tm|" + cleanTmpl(strings.NewReplacer("<", "", ">", "").Replace(t)) + "}}"
			ew, ok := exp[call]
			if !ok {
				ew = fmt.Sprintf("exp%dw%d", ci, i)
				exp[call] = ew
			}
			tx += "Tmpl " + call + " here.\n"
			w.AddPage("en.wikipedia.org", t, tx)
			titles = append(titles, t)
		}
		w.Expand = func(s string) string { return exp[s] }
		if len(titles) == 0 {
			return
		}
		e := c.NewEnv()
		defer e.Close()
		p := e.Project(e.BaseCfg().With("worker-threads", pick(r, 1, 4)), titles)
		for pass := 0; pass < 2; pass++ {
			res := e.Run(w, RunOpt{}, "project", p)
			replay := map[string]any{"case": ci, "pages": w.Pages, "pass": pass}
			b := res.Book()
			if !res.Success() || b == nil || len(b.Chapters) != len(titles) {
				c.Violate("C04:failed:"+itoa(ci), "the run failed: "+res.Brief(), replay)
				return
			}
			paths := map[string]string{}
			for i, t := range titles {
				ch := b.Chapters[i]
				if o, dup := paths[ch.Path]; dup {
					c.Violate("C04:chapter shared", fmt.Sprintf("%q and %q share the chapter file %s", o, t, ch.Path), replay)
					return
				}
				paths[ch.Path] = t
				for o, word := range wordOf {
					if strings.Contains(ch.Content, word+".") != (o == t) {
						c.Violate("C04:chapter content", fmt.Sprintf("the chapter of %q and the text of %q: presence is %v", t, o, o != t), replay)
						return
					}
				}
				call := "{{Tm|" + cleanTmpl(strings.NewReplacer("<", "", ">", "").Replace(t)) + "}}"
				if !strings.Contains(ch.Content, exp[call]) {
					c.Violate("C04:template content", fmt.Sprintf("the chapter of %q lacks the expansion of %s", t, call), replay)
					return
				}
				in := strings.Trim(strings.NewReplacer("/", "", ":", "", "&", "", "%20", "").Replace(t), " _")
				if in != "" {
					ok := false
					for _, body := range ch.Refs {
						ok = ok || body == imgOf[normTitle("I"+in+"x.png")]
					}
					if !ok {
						c.Violate("C04:image content", fmt.Sprintf("the chapter of %q does not refer to its own image %q: %v", t, "I"+in+"x.png", ch.Refs), replay)
						return
					}
				}
			}
			// nothing outside the kinds' folders
			dirs := map[string]bool{}
			for f := range Snapshot(e.Dir) {
				rel := strings.TrimPrefix(f, "cache/")
				if rel == f {
					switch {
					case strings.HasPrefix(f, "proj/"), strings.HasPrefix(f, "out/"), strings.HasPrefix(f, "tools/"), strings.HasPrefix(f, "tool.log"):
					default:
						c.Violate("C04:outside", "a file appeared outside the cache: "+f, replay)
						return
					}
					continue
				}
				if strings.Count(rel, "/") != 1 {
					c.Violate("C04:folder", "a cache file is not directly in its kind's folder: "+rel, replay)
					return
				}
				dirs[filepath.Dir(rel)] = true
			}
			for d := range dirs {
				c.Seen("cache_folders", d)
			}
		}
		k := ""
		if len(titles) > 1 {
			k = "bb/" + hashs(titles...)
		}
		c.Case(k)
		if ci == 0 {
			c.Sample(map[string]any{"titles": titles})
		}
	})
	// known finding: the wiki is no part of the key
	{
		e := c.NewEnv()
		defer e.Close()
		w := NewWiki()
		w.ArticleHosts["de.wikipedia.org"] = true
		w.AddPage("en.wikipedia.org", "Mars", "English text.")
		w.AddPage("de.wikipedia.org", "Mars", "Deutscher Text.")
		r1 := e.Run(w, RunOpt{}, "project", e.Project(e.BaseCfg().With("wikipedia-instance", "en"), []string{"Mars"}))
		r2 := e.Run(w, RunOpt{}, "project", e.Project(e.BaseCfg().With("wikipedia-instance", "de"), []string{"Mars"}))
		if b := r2.Book(); b == nil || !r1.Success() || len(b.Chapters) != 1 {
			c.Violate("C04:two wikis failed", "runs for two wikis failed: "+r2.Brief(), nil)
		} else if !strings.Contains(b.Chapters[0].Content, "Deutscher Text") {
			c.Violate("C04:two-wikis-one-cache", "the article of another wiki's run was used for the article of the same name", map[string]any{"chapter": b.Chapters[0].Content})
		}
		c.Case("two wikis")
	}
	// known finding: the converted copy of X.svg and an image named X.svg.png
	{
		e := c.NewEnv()
		defer e.Close()
		w := NewWiki()
		w.AddImage("commons.wikimedia.org", "A.svg", []byte(`<svg width="1px" height="1px"></svg>`))
		w.AddImage("commons.wikimedia.org", "A.svg.png", []byte("OTHER IMAGE"))
		w.AddPage("en.wikipedia.org", "Mars", "One [[File:A.svg|10px]] two [[File:A.svg.png|20px]].")
		res := e.Run(w, RunOpt{}, "project", e.Project(e.ToolCfg().With("worker-threads", 1), []string{"Mars"}))
		if b := res.Book(); b == nil || len(b.Chapters) != 1 {
			c.Violate("C04:converted name failed", "the run failed: "+res.Brief(), nil)
		} else {
			var bodies []string
			for _, s := range b.Chapters[0].Refs {
				bodies = append(bodies, s)
			}
			sort.Strings(bodies)
			if len(bodies) != 2 || bodies[0] == bodies[1] {
				c.Violate("C04:converted-copy-name", fmt.Sprintf("A.svg (converted) and A.svg.png share a cache file: %v", b.Chapters[0].Refs), nil)
			}
		}
		c.Case("converted name")
	}
}

// nameFamily is a set of names that a careless mapping to file names would mix up.
func nameFamily(r *rand.Rand, i int) []string {
	base := pick(r, "Foo", "AC", "Über", "x", "日本", "A b") + itoa(i)
	sp := pick(r, "/", ":", "?", "*", "\"", "\\", "%", "|", "<", ">")
	enc := fmt.Sprintf("%%%02X", sp[0])
	fam := []string{base + sp + "B", base + enc + "B", base + strings.ToLower(enc) + "B", base + "B", base + "%25" + enc[1:] + "B", base + sp + sp + "B", base + "B" + sp, sp + base + "B", base + "_B", base + "-B"}
	fam = append(fam, base, base+".", base+"..", base+".json", base+".html", "../"+base, "../../"+base, "./"+base, "/"+base, base+"/..", base+"/../"+base, base+"/.", "..%2F"+base, "~"+base, "."+base, "-"+base)
	fam = append(fam, base+"é", base+"e\u0301", strings.ToUpper(base)+"q", strings.ToLower(base)+"q", base+"'", base+"&", base+";", base+"$HOME", base+"`x`", base+"\u200b", base+"#")
	r.Shuffle(len(fam), func(a, b int) { fam[a], fam[b] = fam[b], fam[a] })
	fam = fam[:3+r.IntN(9)]
	if chance(r, 0.3) { // titles have up to 255 bytes, their encoded form is longer
		l := strings.Repeat(pick(r, "x", base, sp+"y", "é", "日本", "0123456789"), 255)
		n := pick(r, 180, 200, 220, 225, 230, 235, 238)
		l = strings.ToValidUTF8(base+l[:n-len(base)-r.IntN(4)], "")
		k := 0
		for _, x := range []string{l + "1", l + "2", l + sp, l + enc, l} {
			if len(x) <= 240 && chance(r, .6) {
				fam[k] = x
				k = (k + 1) % len(fam)
			}
		}
	}
	return fam
}
