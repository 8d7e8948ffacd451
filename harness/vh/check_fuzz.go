package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"unicode/utf8"
)

func init() { register("P01", "exploration", checkP01) }

// atoms are pieces of markup, complete and broken, and characters that are known to be troublesome.
var atoms = []string{
	"[[", "]]", "[", "]", "{{", "}}", "{|", "|}", "|-", "|+", "||", "!!", "|", "!", "\n|", "\n!", "\n|-", "\n{|", "\n|}", "\n|+", "{", "}", "{{{", "}}}", "{|class=x\n",
	"''", "'''", "'''''", "'", "\n*", "\n#", "\n;", "\n:", "*", "#", ";", ":", "\n:::*", "\n*#;:", "\n; a : b", "\n* ", "\n##", "\n;;",
	"==", "=", "===", "\n== a ==\n", "\n==", "==\n", "\n=", "\n====== b ======\n", "\n=======", "\n= =\n",
	"<ref", "<ref>", "</ref>", "<ref name=a>", "<ref name=\"a\" />", "<ref name=", "<ref group=x name='b'/>", "<references/>", "<references>", "</references>", "<references group=\"x\" />", "<refer", "<ref/>", "</re", "<ref name=\"a>",
	"<math>", "</math>", "<math", "<math/>", "<Math>", "<math>x</math>", "\\displaystyle",
	"<nowiki>", "</nowiki>", "<nowiki/>", "<nowiki", "<NOWIKI>", "<!--", "-->", "<!-", "--", "->", "<!---->", "<!-->",
	"<gallery>", "</gallery>", "<gallery", "<gallery mode=x>", "<imagemap>", "</imagemap>", "<imagemap", "<Gallery>", "<gallery/>",
	"<br>", "<br/>", "<div>", "</div>", "<div", "<span style=\"x\">", "</span>", "<small>", "</small>", "<", ">", "</", "/>", "<p>", "<table>", "<td>", "</table>",
	"[[File:", "[[File:a.png", "[[File:a.png|thumb|", "[[Image:b.svg|10x20px]]", "[[File:c.pdf|mini|x]]", "|thumb", "|10px", "|x10px", "|1x1px|", "px", "[[File:]]", "[[File:|thumb]]", "[[file:.png]]", "[[File:a.jpg|thumb|[[b]] '''c''']]", "File:d.webp|cap", "\nFile:e.png|x\n", "[[File:f.ogg]]", "|px|", "|xpx", "|-5px", "|99999999999999999999px", "|upright=",
	"[[a]]", "[[a|b]]", "[[a|", "[[|]]", "[[]]", "[[#a]]", "[[:a]]", "[[:]]", "[[Category:x]]", "[[de:x]]", "[[a#b|c]]", "[[a[[b]]c]]", "[[a|[[b]]]]", "[[ ]]", "[[::x:y]]", "[[Category:", "[[x:",
	"[http://a.b c]", "[http://a.b", "http://", "[https://x ", "[//a b]", "[ftp://a b]", "[mailto:x y]", "://", "[http://]", "[http:// ]",
	"{{a}}", "{{a|b}}", "{{a|{{b}}}}", "{{}}", "{{|}}", "{{a|", "{{Trailer|x}}", "{{navbox gone}}", "{{navbox gone|", "{{#if:x}}", "{{{1}}}", "{{:a}}",
	"colspan=", "colspan=\"2\" |", "rowspan=99999999999999999999|", "style=\"text-align:", "| style=\"text-align:center\" | ", "colspan=x|", "| a || b ||", "! a !! b", "text-align:;",
	"$$", "$$TOKEN_", "$$TOKEN_TABLE_0$$", "$$TOKEN_INTERNAL_LINK_1$$", "$$TOKEN_REF_USAGE_0$$", "$$MARKER_BOLD_OPEN$$", "$$MARKER_PARAGRAPH$$", "$$TEMPLATE_PLACEHOLDER_", "$$TOKEN_X_99999$$", "$$TOKEN_HEADING_2_0$$", "$$TOKEN_NOWIKI_0$$", "$$TOKEN_MATH_0$$", "$$TOKEN_STRING_0$$",
	"\n", "\n\n", "\n\n\n", " ", "\t", "\r\n", "\r", "\x00", "\x01", "\x0b", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\u200b", "İ", "ı", "ẞ", "K", "Å", "ﬁ", "é", "日", "𝔘", "🙂", "e\u0301", "\u202e", "\x7f", "ǅ",
	"&", "&amp;", "&lt;", "&#0;", "&#x110000;", "&nbsp", "%", "%s", "%d", "%!", "\\", "\"", "`", "~", "^", "_", "__TOC__", "__NOTOC__", "----", "\n----\n", "#REDIRECT [[x]]",
	"a", "word", "two words", "0", "10", "A", "x y z",
}

func soup(r *rand.Rand, n int) string {
	var sb strings.Builder
	// a small palette makes repetitions and combinations of the same pieces likely
	var pal []string
	for i := 0; i < 2+r.IntN(10); i++ {
		pal = append(pal, atoms[r.IntN(len(atoms))])
	}
	mixed := chance(r, 0.4)
	for i := 0; i < n; i++ {
		if mixed || chance(r, 0.1) {
			sb.WriteString(atoms[r.IntN(len(atoms))])
		} else {
			sb.WriteString(pal[r.IntN(len(pal))])
		}
		if chance(r, 0.15) {
			sb.WriteString(pick(r, " ", "\n", "a"))
		}
	}
	return sb.String()
}

// mutate damages a text.
func mutate(r *rand.Rand, s string) string {
	n := 1 + r.IntN(6)
	cut := func() int { return r.IntN(len(s) + 1) }
	for i := 0; i < n; i++ {
		if len(s) == 0 {
			return atoms[r.IntN(len(atoms))]
		}
		a, b := cut(), cut()
		if a > b {
			a, b = b, a
		}
		switch r.IntN(9) {
		case 0:
			s = s[:a]
		case 1:
			s = s[a:]
		case 2:
			b = min(b, a+40)
			s = s[:a] + s[b:]
		case 3:
			s = s[:a] + atoms[r.IntN(len(atoms))] + s[a:]
		case 4:
			b = min(b, a+60)
			s = s[:b] + s[a:b] + s[b:]
		case 5: // remove one piece of markup
			t := atoms[r.IntN(len(atoms))]
			if k := strings.Index(s[a:], t); k >= 0 {
				s = s[:a+k] + s[a+k+len(t):]
			}
		case 6: // replace one piece by another
			t := atoms[r.IntN(len(atoms))]
			if k := strings.Index(s[a:], t); k >= 0 {
				s = s[:a+k] + atoms[r.IntN(len(atoms))] + s[a+k+len(t):]
			}
		case 7:
			if a < len(s) {
				x := []byte(s)
				x[a] = byte(r.IntN(128))
				s = string(x)
			}
		case 8: // move a part
			b = min(b, a+200)
			p := s[a:b]
			s = s[:a] + s[b:]
			k := cut()
			s = s[:k] + p + s[k:]
		}
	}
	return s
}

func templateHash(text string) string { h := sha1.Sum([]byte(text)); return hex.EncodeToString(h[:]) }

// hostile is one text of the given class.
func hostile(r *rand.Rand, w *Wiki, id string, class int) (string, string) {
	doc := func() string {
		g := NewGen(r, id, w, map[string]float64{"nopdf": 1, "deco": 1, "emptysec": 1})
		return g.Doc(1 + r.IntN(3)).src
	}
	switch class % 8 {
	case 0:
		return "soup", soup(r, 1+r.IntN(40))
	case 1:
		return "truncated", func() string { d := doc(); return d[:r.IntN(len(d)+1)] }()
	case 2:
		return "mutated", mutate(r, doc())
	case 3: // the same piece again and again
		a, m, z := atoms[r.IntN(len(atoms))], "", ""
		if chance(r, 0.6) {
			m = atoms[r.IntN(len(atoms))]
		}
		if chance(r, 0.6) {
			z = atoms[r.IntN(len(atoms))]
		}
		n := 1 + r.IntN(40)
		if chance(r, 0.3) {
			n = 40 + r.IntN(160)
		}
		if a == "{{" || m == "{{" {
			n = min(n, 30)
		}
		switch r.IntN(3) {
		case 0:
			return "repeated", strings.Repeat(a+m, n) + z
		case 1:
			return "repeated", strings.Repeat(a, n) + m + strings.Repeat(z, n)
		}
		return "repeated", z + strings.Repeat(a+m+"\n", n) + z
	case 4: // deep nesting of complete constructs
		s := "x"
		kinds := []string{"{|\n| %s\n|}", "[[a|%s]]", "[[File:a.png|thumb|%s]]", "<ref>%s</ref>", "'''%s'''", "''%s''", "* %s", "<div>%s</div>", "{{a|%s}}", "<nowiki>%s</nowiki>", "<math>%s</math>", "== %s ==\n", "[http://a.b %s]", "<gallery>\nFile:a.png|%s\n</gallery>", "<!-- %s -->", "; a : %s", "\n{|\n|+ %s\n|}\n", "<references>%s</references>", "<imagemap>%s</imagemap>"}
		n := 2 + r.IntN(12)
		one := chance(r, 0.4)
		k := r.IntN(len(kinds))
		for i := 0; i < n; i++ {
			if !one {
				k = r.IntN(len(kinds))
			}
			s = strings.ReplaceAll(kinds[k], "%s", s)
			if chance(r, 0.2) {
				s += atoms[r.IntN(len(atoms))]
			}
		}
		return "nested", s
	case 5: // text that looks like the program's own placeholders, in all constructs
		t := func() string {
			ty := pick(r, "TABLE", "TABLE_ROW", "TABLE_COL", "TABLE_HEAD", "TABLE_CAPTION", "INTERNAL_LINK", "INTERNAL_LINK_ARTICLE", "INTERNAL_LINK_TEXT", "EXTERNAL_LINK", "UNORDERED_LIST", "ORDERED_LIST", "DESCRIPTION_LIST", "LIST_ITEM", "HEADING_1", "HEADING_2", "HEADING", "IMAGE", "INLINE_IMAGE", "IMAGE_INLINE", "IMAGE_CAPTION", "REF_DEF", "REF_USAGE", "MATH", "NOWIKI", "STRING", "GALLERY")
			return fmt.Sprintf("$$TOKEN_%s_%d$$", ty, r.IntN(6))
		}
		if chance(r, 0.4) { // constructs whose content names the token they become
			k := pick(r, "{|\n| %s\n|}", "[[a|%s]]", "* %s\n* %s", "<ref>%s</ref>\n<references />", "== %s ==\n", "[http://a.b %s]", "; %s : %s", "# %s", "[[File:a.png|thumb|%s]]", "{|\n|+ %s\n|}", "<gallery>\nFile:a.png|%s\n</gallery>", "[ftp://x %s]", ": %s")
			k = strings.ReplaceAll(k, "%s", "\x01")
			for strings.Contains(k, "\x01") {
				k = strings.Replace(k, "\x01", t()+" "+t(), 1)
			}
			return "lookalike", k
		}
		s := soup(r, r.IntN(10))
		for i := 0; i < 1+r.IntN(4); i++ {
			k := r.IntN(len(s) + 1)
			s = s[:k] + t() + s[k:]
		}
		return "lookalike", s
	case 6: // characters
		var sb strings.Builder
		for i := 0; i < r.IntN(300); i++ {
			switch r.IntN(4) {
			case 0:
				sb.WriteByte(byte(r.IntN(128)))
			case 1:
				sb.WriteRune(rune(r.IntN(0x11000)))
			case 2:
				sb.WriteByte("[]{}|'=*#:;<>\n !/-"[r.IntN(18)])
			case 3:
				sb.WriteByte("ab \n"[r.IntN(4)])
			}
		}
		return "characters", sb.String()
	}
	return "spliced", func() string {
		a, b := mutate(r, doc()), soup(r, 12)
		k := r.IntN(len(a) + 1)
		return a[:k] + b + a[k:]
	}()
}

type fuzzDoc struct{ title, class, src string }

func (c *Ctx) runFuzz(w *Wiki, ds []fuzzDoc, typ string, cpu float64) *Result {
	e := c.NewEnv()
	defer e.Close()
	e.CPULim = cpu
	var titles []string
	for _, d := range ds {
		titles = append(titles, d.title)
	}
	cfg := batchCfg{Threads: 4}.apply(e)
	if typ != "" {
		cfg = cfg.With("output-type", typ, "output-driver", "internal", "output-file", e.OutDir+"/s."+strings.TrimPrefix(typ, "stats-"))
	}
	return e.Run(w, RunOpt{}, "project", e.Project(cfg, titles))
}

// crashed describes a run that neither succeeded nor reported an error.
func crashed(res *Result) string {
	switch {
	case res.Hang == "cpu":
		return fmt.Sprintf("still computing after %.0f s of CPU time", res.CPU)
	case res.Hang != "":
		return "does not end and does nothing: " + clip(tail(res.Stderr, 1500), 1500)
	case res.Signal != "":
		return "ended by signal " + res.Signal
	case res.Exit == 2 || res.Exit > 2:
		i := strings.Index(res.Stderr, "goroutine ")
		return fmt.Sprintf("crash (exit %d): %s\n%s", res.Exit, res.Crash, clip(res.Stderr[max(0, i-200):], 1500))
	case res.Exit == 0 && !res.Claimed():
		return "ended without success message and without error"
	case res.Exit == 1 && strings.TrimSpace(res.Stderr) == "":
		return "failed without reporting an error"
	}
	return ""
}

func checkP01(c *Ctx) {
	c.Rule = "hostile texts of eight classes (token soups, truncated, mutated and spliced documents, repetitions, deep nesting, look-alikes of internal placeholders, random characters) as article contents and as template results, in batches and - when a batch does not succeed - alone, as EPUB and as statistics; non-trivial: the run ended with a chapter or a reported error; distinct: text"
	c.Assume = append(c.Assume, "texts reach the program through JSON, so they are valid Unicode of at most some 10 kB", "a run that needs more than 60 s of CPU time for one such text counts as a hang")
	var mu sync.Mutex
	classes := map[string]int{}
	Par(c.N(300, 7000), 8, func(bi int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("fuzz", bi)
		w := NewWiki()
		w.AnyFile = true
		n := 14
		var pool []string // results of templates
		for i := 0; i < 6; i++ {
			_, s := hostile(r, w, "p", r.IntN(64))
			for strings.Contains(s, "{{") { // the wiki expands nested templates itself
				s = strings.ReplaceAll(s, "{{", "{")
			}
			pool = append(pool, clip(strings.ToValidUTF8(s, "?"), 2000))
		}
		fuzzTmpl := chance(r, 0.5)
		w.Expand = func(t string) string {
			h := templateHash(t)
			if !fuzzTmpl {
				return "expanded " + strings.Trim(t, "{}")
			}
			k := int(h[0]) + int(h[1])
			switch k % 4 {
			case 0:
				return "" // nothing
			case 1: // refers to its own and other placeholders
				return "a $$TEMPLATE_PLACEHOLDER_" + h + "$$ b"
			}
			return pool[k%len(pool)]
		}
		var ds []fuzzDoc
		for k := 0; k < n; k++ {
			cl, s := hostile(r, w, fmt.Sprintf("q%dq", k), r.IntN(64))
			s = strings.ToValidUTF8(s, "?")
			if fuzzTmpl && chance(r, 0.6) {
				for i := 0; i < 1+r.IntN(3); i++ {
					x := r.IntN(len(s) + 1)
					for x < len(s) && !utf8.RuneStart(s[x]) {
						x++
					}
					s = s[:x] + fmt.Sprintf("{{t%d}}", r.IntN(50)) + s[x:]
				}
				cl += "+template"
			}
			ds = append(ds, fuzzDoc{fmt.Sprintf("Fuzz %d %d", bi, k), cl, s})
			w.AddPage("en.wikipedia.org", ds[k].title, s)
		}
		typ := pick(r, "", "", "", "stats-json", "stats-txt")
		judge := func(ds []fuzzDoc, res *Result) (string, bool) {
			if m := crashed(res); m != "" {
				return m, false
			}
			if res.Success() && typ == "" {
				if b := res.Book(); b == nil || len(b.Chapters) != len(ds) {
					return "success without a chapter for every article", false
				}
			}
			return "", res.Success()
		}
		seen := func(d fuzzDoc, ok bool) {
			c.Case(hashs(d.src))
			mu.Lock()
			classes[d.class]++
			mu.Unlock()
			if ok {
				c.Count("texts_converted", 1)
			} else {
				c.Count("texts_with_reported_error", 1)
			}
			c.Count("bytes_of_text", int64(len(d.src)))
		}
		msg, ok := judge(ds, c.runFuzz(w, ds, typ, 60))
		if ok {
			for _, d := range ds {
				seen(d, true)
			}
			return
		}
		blamed := false
		for _, d := range ds {
			res := c.runFuzz(w, []fuzzDoc{d}, typ, 60)
			m, ok := judge([]fuzzDoc{d}, res)
			if m == "" {
				seen(d, ok)
				continue
			}
			blamed = true
			src := d.src
			if res.Hang == "" {
				src = shrinkText(src, func(s string) bool {
					w.AddPage("en.wikipedia.org", d.title, s)
					m, _ := judge([]fuzzDoc{d}, c.runFuzz(w, []fuzzDoc{d}, typ, 60))
					return m != ""
				})
			}
			c.Violate("P01:text:"+hashs(d.src), fmt.Sprintf("%s\n  with %q (class %s)", m, clip(src, 400), d.class), map[string]any{"wikitext": d.src, "smaller": src, "output_type": typ, "templates": pool, "template_results_hostile": fuzzTmpl, "class": d.class})
			if c.NViol() > 8 {
				return
			}
		}
		if msg != "" && !blamed {
			var srcs []string
			for _, d := range ds {
				srcs = append(srcs, d.src)
			}
			c.Violate("P01:batch:"+hashs(srcs...), "only in a project with other articles: "+msg, map[string]any{"wikitext": srcs, "output_type": typ})
		}
	})
	c.Note("texts_by_class", classes)
}

// shrinkText removes parts as long as the failure stays.
func shrinkText(s string, fails func(string) bool) string {
	budget := 120
	for n := len(s) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(s) && budget > 0; {
			x := s[:i] + s[i+n:]
			budget--
			if utf8.ValidString(x) && fails(x) {
				s = x
			} else {
				i += n
			}
		}
	}
	return s
}
