package main

import (
	"fmt"
	"html"
	"regexp"
	"sort"
	"strings"

	xhtml "golang.org/x/net/html"
)

func unescapeHTML(s string) string { return html.UnescapeString(s) }

var voidTags = map[string]bool{"br": true, "img": true, "hr": true, "link": true, "meta": true, "wbr": true, "col": true}
var inlineTags = map[string]bool{"b": true, "i": true, "a": true, "sup": true, "sub": true, "small": true, "span": true, "u": true, "s": true, "big": true, "tt": true, "code": true, "em": true, "strong": true, "abbr": true, "cite": true, "q": true}

// View says which aspects of a document an oracle looks at; everything else is dropped before the comparison.
type View struct {
	Tags   map[string]bool // element events to keep (pseudo names: figure, caption, dl, dt, dd)
	Styles bool            // bold/italic per character
	Imgs   bool
	Brs    bool
	Attrs  map[string]bool         // attributes to keep on kept elements
	Src    func(src string) string // names what an image source resolves to
	Words  func(w string) bool     // words to keep (nil: all)
}

// Canon turns HTML into a linear list of events: words (with their styles), kept elements, images and line breaks.
// White space only separates words. problems lists violations of well-formedness.
func Canon(doc string, v View) (events []string, problems []string) {
	z := xhtml.NewTokenizer(strings.NewReader(doc))
	type open struct{ name, ev string }
	var stack []open
	b, i := 0, 0
	var word []rune
	var sty []byte
	flush := func() {
		if len(word) == 0 {
			return
		}
		w := unescapeHTML(string(word))
		if v.Words == nil || v.Words(w) {
			if v.Styles {
				uniform := true
				for _, s := range sty {
					if s != sty[0] {
						uniform = false
					}
				}
				names := []string{"", "/b", "/i", "/bi"}
				if uniform {
					events = append(events, w+names[sty[0]])
				} else {
					var sb strings.Builder
					from := 0
					for k := 1; k < len(word); k++ {
						if sty[k] != sty[k-1] {
							sb.WriteString(unescapeHTML(string(word[from:k])) + names[sty[k-1]] + "+")
							from = k
						}
					}
					sb.WriteString(unescapeHTML(string(word[from:])))
					events = append(events, sb.String()+names[sty[len(sty)-1]])
				}
			} else {
				events = append(events, w)
			}
		}
		word, sty = nil, nil
	}
	for {
		tt := z.Next()
		if tt == xhtml.ErrorToken {
			break
		}
		raw := string(z.Raw())
		switch tt {
		case xhtml.TextToken:
			for _, r := range raw {
				if r == ' ' || r == '\n' || r == '\t' || r == '\r' {
					flush()
					continue
				}
				word = append(word, r)
				s := byte(0)
				if b > 0 {
					s |= 1
				}
				if i > 0 {
					s |= 2
				}
				sty = append(sty, s)
			}
		case xhtml.CommentToken, xhtml.DoctypeToken:
			// the XML declaration shows up as a comment
			if !strings.HasPrefix(raw, "<?xml") && !strings.HasPrefix(raw, "<!DOCTYPE") {
				problems = append(problems, "markup declaration or comment: "+clip(raw, 80))
			}
		case xhtml.StartTagToken, xhtml.SelfClosingTagToken:
			t := z.Token()
			name := t.Data
			attrs := map[string]string{}
			for _, a := range t.Attr {
				if _, dup := attrs[a.Key]; dup {
					problems = append(problems, "duplicate attribute in "+clip(raw, 80))
				}
				attrs[a.Key] = a.Val
			}
			if !inlineTags[name] && name != "img" || v.Tags[name] {
				flush()
			}
			switch name {
			case "b":
				b++
			case "i":
				i++
			case "br":
				flush()
				if v.Brs {
					events = append(events, "br")
				}
			case "img":
				if v.Imgs {
					flush()
					label := attrs["src"]
					if v.Src != nil {
						label = v.Src(attrs["src"])
					}
					cl := ""
					if attrs["class"] != "" {
						cl = " ." + attrs["class"]
					}
					events = append(events, fmt.Sprintf("img(%s%s | %s)", label, cl, normStyle(attrs["style"])))
				}
			}
			if voidTags[name] || tt == xhtml.SelfClosingTagToken {
				continue
			}
			pseudo := name
			if name == "div" {
				switch attrs["class"] {
				case "figure", "caption", "dt", "dd":
					pseudo = attrs["class"]
				case "description-list":
					pseudo = "dl"
				}
			}
			ev := ""
			if v.Tags[pseudo] {
				flush()
				ev = pseudo
				events = append(events, "<"+pseudo+fmtAttrs(attrs, v.Attrs)+">")
			}
			stack = append(stack, open{name, ev})
		case xhtml.EndTagToken:
			t := z.Token()
			name := t.Data
			if !inlineTags[name] || v.Tags[name] {
				flush()
			}
			if name == "b" && b > 0 {
				b--
			}
			if name == "i" && i > 0 {
				i--
			}
			if len(stack) == 0 {
				problems = append(problems, "closing "+name+" without opening one")
				continue
			}
			top := stack[len(stack)-1]
			if top.name != name {
				problems = append(problems, fmt.Sprintf("closing %s while %s is open", name, top.name))
				// resynchronise: pop down to the matching element if there is one
				k := len(stack) - 1
				for k >= 0 && stack[k].name != name {
					k--
				}
				if k < 0 {
					continue
				}
				top = stack[k]
				stack = stack[:k]
			} else {
				stack = stack[:len(stack)-1]
			}
			if top.ev != "" {
				flush()
				events = append(events, "</"+top.ev+">")
			}
		}
	}
	flush()
	for _, o := range stack {
		problems = append(problems, "never closed: "+o.name)
	}
	// rows without cells and captions without content carry nothing
	for changed := true; changed; {
		changed = false
		var out []string
		for k := 0; k < len(events); k++ {
			if k+1 < len(events) && (events[k] == "<tr>" && events[k+1] == "</tr>" || events[k] == "<caption>" && events[k+1] == "</caption>") {
				k++
				changed = true
				continue
			}
			out = append(out, events[k])
		}
		events = out
	}
	return
}

func fmtAttrs(a map[string]string, keep map[string]bool) string {
	var ks []string
	for k := range a {
		if keep[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		val := a[k]
		if k == "style" {
			val = normStyle(val)
		}
		s += " " + k + "=" + val
	}
	return s
}

func normStyle(s string) string {
	var out []string
	for _, p := range strings.Split(s, ";") {
		p = strings.ToLower(strings.Join(strings.Fields(strings.ReplaceAll(p, ":", ": ")), " "))
		if p != "" {
			out = append(out, p)
		}
	}
	return strings.Join(out, "; ")
}

// bodyOf returns what lies between the body tags of a chapter.
func bodyOf(doc string) string {
	a := strings.Index(doc, "<body")
	if a < 0 {
		return doc
	}
	a += strings.Index(doc[a:], ">") + 1
	e := strings.LastIndex(doc, "</body>")
	if e < a {
		e = len(doc)
	}
	return doc[a:e]
}

// diffEvents describes the first difference of two event lists.
func diffEvents(want, got []string) string {
	n := 0
	for n < len(want) && n < len(got) && want[n] == got[n] {
		n++
	}
	if n == len(want) && n == len(got) {
		return ""
	}
	cut := func(x []string) string {
		a, e := n-6, n+8
		if a < 0 {
			a = 0
		}
		if e > len(x) {
			e = len(x)
		}
		if a > e {
			a = e
		}
		return strings.Join(x[a:e], " ")
	}
	return fmt.Sprintf("first difference at event %d (of %d expected, %d found): expected … %s … but found … %s …", n, len(want), len(got), cut(want), cut(got))
}

var placeholderRe = regexp.MustCompile(`\$\$[A-Z]*(TOKEN|MARKER|PLACEHOLDER)[A-Z_0-9a-f]*(\$\$)?|HEADINNOWIKI|__wiki2book`)

func tagset(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}
