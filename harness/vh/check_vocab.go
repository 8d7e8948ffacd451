package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

func init() {
	register("L01", "exploration", checkL01)
}

// vocab is the part of a configuration which depends on the language of the wiki.
type vocab struct {
	Files, Links, Cats, Ign, Trail, Params, Media []string
}

var vocabRoots = []string{"datei", "bild", "für", "größe", "файл", "категория", "αρχείο", "文件", "ملف", "alpha centauri", "be-tarask", "x2", "c++", "a.b", "(x)", "100%", "$x", "^y", "what?", "a*b", "o'neill", "a&b", "positionskarte+", "positionskarte~", "z", "élan", "ñandú", "ob\\x", "two  words", "größer als", "a/b", "a,b", "a;b", "x!y", "_u", "12"}

// vocabWords gives n different words in lower case; none is the beginning of another one.
func vocabWords(r *rand.Rand, tag string, n int, without string) []string {
	var out []string
	for len(out) < n {
		w := tag + vocabRoots[r.IntN(len(vocabRoots))]
		if chance(r, 0.3) {
			w += pick(r, " ", "-", "") + vocabRoots[r.IntN(len(vocabRoots))]
		}
		w = strings.Join(strings.Fields(w), " ")
		ok := !strings.ContainsAny(w, without)
		for _, o := range out {
			ok = ok && !strings.HasPrefix(o, w) && !strings.HasPrefix(w, o)
		}
		if ok {
			out = append(out, w)
		}
	}
	return out
}

// otherCase writes the word in another letter case which has the word as its only lower case.
func otherCase(r *rand.Rand, w string) string {
	c, n := utf8.DecodeRuneInString(w)
	v := pick(r, w, string(unicode.ToUpper(c))+w[n:], strings.ToUpper(w))
	if strings.ToLower(v) != w {
		return w
	}
	return v
}

var vocabEventRe = regexp.MustCompile(`mk\d+q|<img[^>]*?\ssrc="([^"]*)"`)

// vocabDoc is a document which uses the vocabulary, and what is to be seen of it.
type vocabDoc struct {
	r     *rand.Rand
	v     vocab
	w     *Wiki
	host  string
	id    string
	n     int
	src   strings.Builder
	want  []string
	trail []string
	reqs  map[string]bool // expected requests
	used  map[string]int
}

func (d *vocabDoc) mk() string { d.n++; return fmt.Sprintf("mk%s%dq", d.id, d.n) }
func (d *vocabDoc) img() string {
	d.n++
	n := fmt.Sprintf("V%s_%d.%s", d.id, d.n, pick(d.r, "png", "jpg", "JPG"))
	d.w.AddImage(d.host, n, []byte("VIMG "+n+"."))
	return n
}

// tmpl spells a template call.
func (d *vocabDoc) tmpl(name, arg string) string {
	return "{{" + pick(d.r, "", "", " ", "\n") + name + pick(d.r, "", "", " ", "\n") + arg + "}}"
}

func (d *vocabDoc) link(prefix, rest string) string {
	return "[[" + pick(d.r, "", "", "", " ") + prefix + pick(d.r, "", "", "", " ") + ":" + rest + "]]"
}

// item is the text of one use and the events it causes.
func (d *vocabDoc) item() (string, []string, bool) {
	r := d.r
	word := func(list string, ws []string) string {
		w := pick(r, ws...)
		d.used[list+" "+w]++
		return w
	}
	for {
		switch r.IntN(12) {
		case 0, 1: // ignored template
			if len(d.v.Ign) == 0 {
				continue
			}
			return d.tmpl(otherCase(r, word("ignored template", d.v.Ign)), pick(r, "", "|"+d.mk(), "|a="+d.mk()+"\n|b=[[x|"+d.mk()+"]]\n", "|{{Vx"+d.id+"|"+d.mk()+"}}")), nil, false
		case 2: // trailing template
			if len(d.v.Trail) == 0 {
				continue
			}
			m := d.mk()
			t := d.tmpl(otherCase(r, word("trailing template", d.v.Trail)), "|"+m)
			d.trail = append(d.trail, m)
			d.reqs["template "+t] = true
			return t, nil, false
		case 3: // any other template
			m := d.mk()
			t := d.tmpl(fmt.Sprintf("Vx%s%d", d.id, d.n), "|"+m)
			d.reqs["template "+t] = true
			return t, []string{m}, false
		case 4: // a category, linked or not
			if len(d.v.Cats) == 0 {
				continue
			}
			c := otherCase(r, word("category", d.v.Cats))
			a, b := d.mk(), d.mk()
			switch r.IntN(4) {
			case 0:
				return "[[:" + c + ":" + a + "]]", []string{a}, false
			case 1:
				return "[[:" + c + ":Xy|" + a + "]]", []string{a}, false
			}
			return d.link(c, pick(r, a, a+"|"+b, a+" "+b+"| ")), nil, false
		case 5: // links with allowed prefixes
			if len(d.v.Links) == 0 {
				continue
			}
			p := otherCase(r, word("link prefix", d.v.Links))
			a, b := d.mk(), d.mk()
			switch r.IntN(3) {
			case 0:
				return d.link(p, "Some x|"+a+" "+b), []string{a, b}, false
			case 1:
				return d.link(p, a), []string{a}, false
			}
			return d.link(p, otherCase(r, word("link prefix", d.v.Links))+":T|"+a), []string{a}, false
		case 6: // links with other prefixes
			a := d.mk()
			p := pick(r, "zz", "wikt", "zh-min-nan", "цц")
			if len(d.v.Links) > 0 && chance(r, 0.3) {
				for k := 1 + r.IntN(2)*r.IntN(5); k > 0; k-- { // behind allowed ones
					p = pick(r, d.v.Links...) + ":" + p
				}
				if chance(r, 0.3) {
					p += ":" + pick(r, d.v.Links...)
				}
			} else if chance(r, 0.3) {
				p = strings.ToUpper(p)
			}
			return d.link(p, pick(r, a, a+"|"+a)), nil, false
		case 7: // ignored media
			if len(d.v.Media) == 0 {
				continue
			}
			e := word("media type", d.v.Media)
			return d.link(otherCase(r, word("file prefix", d.v.Files)), "Clip"+itoa(r.IntN(99))+"."+pick(r, e, strings.ToUpper(e))+pick(r, "", "|20px", "|thumb|"+d.mk(), "|thumb|"+d.mk()+"|200px")), nil, false
		case 8, 9: // pictures
			if n := d.n; n > 0 && chance(r, 0.2) { // gallery or image map
				p := otherCase(r, word("file prefix", d.v.Files))
				a, b, m := d.img(), d.img(), d.mk()
				d.reqs["file File:"+a] = true
				if chance(r, 0.6) {
					d.reqs["file File:"+b] = true
					return "\n<gallery>\n" + p + ":" + a + "|" + m + "\n" + p + ":" + b + "\n</gallery>\n", []string{a, m, b}, true
				}
				return "\n<imagemap>\n" + p + ":" + a + "|thumb|150px|" + m + "\nrect 1 2 3 4 [[x]]\n</imagemap>\n", []string{a, m}, true
			}
			a := d.img()
			d.reqs["file File:"+a] = true
			p := otherCase(r, word("file prefix", d.v.Files))
			params := []string{}
			for k := r.IntN(4); k > 0 && len(d.v.Params) > 0; k-- {
				w := word("image parameter", d.v.Params)
				params = append(params, w+pick(r, "", "", "="+d.mk(), " = "+d.mk(), " 12", "=1.5"))
			}
			if chance(r, 0.4) {
				params = append(params, "30px")
				r.Shuffle(len(params), func(i, j int) { params[i], params[j] = params[j], params[i] })
				return d.link(p, a+"|"+strings.Join(params, "|")), []string{a}, false
			}
			params = append(params, pick(r, "thumb", "mini", "thumbnail", "miniatur"))
			r.Shuffle(len(params), func(i, j int) { params[i], params[j] = params[j], params[i] })
			ev := []string{a}
			m := d.mk()
			at := len(params) // the caption may be followed by ignored parameters
			for at > 0 && !strings.HasPrefix(params[at-1], "thumb") && !strings.HasPrefix(params[at-1], "mini") && chance(r, 0.5) {
				at--
			}
			// a caption which only begins like an ignored parameter stays
			cap := m
			if len(d.v.Params) > 0 && chance(r, 0.3) {
				cap = pick(r, d.v.Params...) + pick(r, "er ", " of ", "s, ") + m
			}
			params = append(params[:at:at], append([]string{cap}, params[at:]...)...)
			ev = append(ev, m)
			return d.link(p, a+"|"+strings.Join(params, "|")), ev, false
		default: // plain words
			m := d.mk()
			return m, []string{m}, false
		}
	}
}

func (d *vocabDoc) write(n int) {
	r := d.r
	for k := 0; k < n; k++ {
		t, ev, block := d.item()
		a, b := d.mk(), d.mk()
		ev = append(append([]string{a}, ev...), b)
		d.want = append(d.want, ev...)
		switch {
		case block:
			d.src.WriteString(a + "\n" + t + "\n" + b + "\n\n")
		case chance(r, 0.12) && !strings.Contains(t, "\n"):
			d.src.WriteString("* " + a + " " + t + " " + b + "\n\n")
		case chance(r, 0.12) && !strings.Contains(t, "|"):
			d.src.WriteString("{|\n| " + a + " " + t + "\n| " + b + "\n|}\n\n")
		case chance(r, 0.15):
			d.src.WriteString(a + "\n" + t + "\n" + b + "\n\n")
		default:
			d.src.WriteString(a + " " + t + " " + b + ".\n\n")
		}
	}
}

// checkL01: every configured word has its effect.
func checkL01(c *Ctx) {
	c.Rule = "configurations with random vocabularies (words of many scripts, with spaces, digits and characters that are special in patterns) for file, category and link prefixes, ignored and trailing templates, ignored image parameters and media types, given by config file, project file or command line, and the configurations shipped in configs/; articles use every list in any letter case, with spaces, in paragraphs, lists, tables, galleries and image maps, next to words that are not listed; the order of markers and images in the chapter and the requests are compared; non-trivial: at least five lists used; distinct: (configuration, list entry used)"
	c.Assume = []string{"words are given in lower case, as documented", "no word belongs to two lists"}
	var shipped []string
	repo := os.Getenv("VH_REPO")
	if repo != "" {
		shipped, _ = filepath.Glob(filepath.Join(repo, "configs", "*.json"))
	}
	sort.Strings(shipped)
	c.Count("shipped_configurations", int64(len(shipped)))
	n := c.N(220, 3500)
	Par(n, 8, func(ci int) {
		if c.NViol() > 8 {
			return
		}
		r := c.Rand("vocab", ci)
		e := c.NewEnv()
		defer e.Close()
		inst := "en"
		var v vocab
		project := e.BaseCfg().With("math-converter", "none")
		var args []string
		ship := ""
		get := func(m map[string]any, key string, def []string) []string {
			l, ok := m[key].([]any)
			if !ok {
				return def
			}
			var out []string
			for _, x := range l {
				out = append(out, fmt.Sprint(x))
			}
			return out
		}
		defMedia := []string{"gif", "mp3", "mp4", "pdf", "oga", "ogg", "ogv", "wav", "webm"}
		if ci%4 == 3 && len(shipped) > 0 {
			ship = shipped[(ci/4)%len(shipped)]
			b, err := os.ReadFile(ship)
			var m map[string]any
			if err != nil || json.Unmarshal(b, &m) != nil {
				c.Violate("L01:shipped:"+filepath.Base(ship), "the shipped configuration "+ship+" is no JSON", map[string]any{"file": ship})
				return
			}
			if s, ok := m["wikipedia-instance"].(string); ok {
				inst = s
			}
			v = vocab{get(m, "file-prefixes", []string{"file", "image", "media"}), get(m, "allowed-link-prefixes", []string{"arxiv", "doi"}), get(m, "category-prefixes", []string{"category"}), get(m, "ignored-templates", nil), get(m, "trailing-templates", nil), get(m, "ignored-image-params", nil), get(m, "ignored-media-types", defMedia)}
			args = append(args, "-c", ship)
		} else {
			np := "=|[]{}<>#\n:/\\"
			v = vocab{
				Files: vocabWords(r, "", 1+r.IntN(3), np+"&%"), Links: vocabWords(r, "l", 1+r.IntN(3), np), Cats: vocabWords(r, "k", 1+r.IntN(3), np),
				Ign: vocabWords(r, "i", 1+r.IntN(4), "=|[]{}<>\n"), Trail: vocabWords(r, "t", r.IntN(3), "=|[]{}<>\n"),
				Params: vocabWords(r, pick(r, "", "p"), r.IntN(5), np+","), Media: vocabWords(r, "m", 1+r.IntN(3), np+" .*?+^$()'\"&%;!~,_-"),
			}
			for i := range v.Media {
				v.Media[i] = fmt.Sprintf("m%d%s", i, pick(r, "v", "x", "ogx", "7z"))
			}
			conf := Cfg{}
			lists := []struct {
				k string
				l []string
			}{{"file-prefixes", v.Files}, {"allowed-link-prefixes", v.Links}, {"category-prefixes", v.Cats}, {"ignored-templates", v.Ign}, {"trailing-templates", v.Trail}, {"ignored-image-params", v.Params}, {"ignored-media-types", v.Media}}
			for _, l := range lists {
				if len(l.l) == 0 {
					continue
				}
				switch r.IntN(3) {
				case 0:
					conf[l.k] = l.l
				case 1:
					project[l.k] = l.l
				case 2:
					for _, w := range l.l {
						if chance(r, 0.5) {
							args = append(args, "--"+l.k+"="+w)
						} else {
							args = append(args, "--"+l.k, w)
						}
					}
				}
			}
			p := filepath.Join(e.Dir, "conf.json")
			writeJSON(p, conf)
			args = append(args, "-c", p)
		}
		w := NewWiki()
		host := "commons.wikimedia.org"
		w.ArticleHosts[inst+".wikipedia.org"] = true
		var ds []*vocabDoc
		var titles []string
		used := map[string]int{}
		for a := 0; a < 2+r.IntN(3); a++ {
			d := &vocabDoc{r: r, v: v, w: w, host: host, id: fmt.Sprintf("%d", 100+a), reqs: map[string]bool{}, used: used}
			d.write(10 + r.IntN(14))
			d.want = append(d.want, d.trail...)
			t := fmt.Sprintf("Doc %d %d", ci, a)
			w.AddPage(inst+".wikipedia.org", t, d.src.String())
			ds = append(ds, d)
			titles = append(titles, t)
		}
		w.Expand = func(text string) string { // the argument
			_, arg, _ := strings.Cut(strings.TrimSuffix(strings.TrimPrefix(text, "{{"), "}}"), "|")
			return "ex " + arg
		}
		res := e.Run(w, RunOpt{}, append([]string{"project", e.Project(project.With("worker-threads", 1+ci%4), titles)}, args...)...)
		replay := map[string]any{"case": ci, "vocabulary": v, "shipped": ship, "args": args}
		for i, d := range ds {
			replay["page "+titles[i]] = d.src.String()
		}
		name := "random"
		if ship != "" {
			name = filepath.Base(ship)
		}
		viol := func(kind, msg string) {
			c.Violate(fmt.Sprintf("L01:%s:%s:%d", kind, name, ci), msg, replay)
		}
		b := res.Book()
		if !res.Success() || b == nil || len(b.Chapters) != len(ds) {
			viol("run", "the run failed: "+res.Brief())
			return
		}
		want, got := map[string]bool{}, map[string]bool{}
		for i, d := range ds {
			for k := range d.reqs {
				want[k] = true
			}
			ch := &b.Chapters[i]
			var ev []string
			for _, m := range vocabEventRe.FindAllStringSubmatch(ch.Content, -1) {
				if m[1] == "" {
					ev = append(ev, m[0])
				} else {
					x := ch.Refs[m[1]]
					x = strings.TrimSuffix(strings.TrimPrefix(x, "VIMG "), ".")
					ev = append(ev, x)
				}
			}
			for k := 0; k < len(ev) || k < len(d.want); k++ {
				if k >= len(ev) || k >= len(d.want) || ev[k] != d.want[k] {
					lo := max(0, k-2)
					viol("shown", fmt.Sprintf("article %q shows … %v, expected … %v; vocabulary %+v; chapter %q", titles[i], ev[lo:min(len(ev), k+4)], d.want[lo:min(len(d.want), k+4)], v, clip(near(ch.Content, ev, k), 700)))
					return
				}
			}
		}
		for _, q := range res.Reqs {
			switch q.Kind {
			case "template":
				got["template "+q.Key] = true
			case "file":
				got["file "+strings.ReplaceAll(q.Key, " ", "_")] = true
			case "article", "image":
			default:
				viol("request", fmt.Sprintf("unexpected request %s %s", q.Method, q.URI))
				return
			}
		}
		for k := range want {
			if !got[k] {
				viol("request", fmt.Sprintf("no request for %q", k))
				return
			}
		}
		for k := range got {
			if !want[k] {
				viol("request", fmt.Sprintf("request for %q, which is not needed; vocabulary %+v", k, v))
				return
			}
		}
		kinds := map[string]bool{}
		for k := range used {
			f := strings.SplitN(k, " ", 3)
			kinds[f[0]+f[1]] = true
		}
		key := ""
		for k := range used {
			key = ""
			if len(kinds) >= 4 {
				key = name + "/" + k
			}
			c.Case(key)
		}
		c.Count("markers_compared", int64(len(vocabEventRe.FindAllString(b.Chapters[0].Content, -1))))
		if ci < 4 {
			c.Sample(map[string]any{"vocabulary": v, "configuration": name, "requests": len(res.Reqs), "entries_used": len(used)})
		}
	})
}

// near is the part of the chapter around the k-th event.
func near(content string, ev []string, k int) string {
	for ; k >= 0; k-- {
		if k < len(ev) {
			if i := strings.Index(content, ev[k]); i >= 0 {
				return content[max(0, i-100):min(len(content), i+600)]
			}
		}
	}
	return content
}
