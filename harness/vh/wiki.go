package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"
)

// Req is one request as seen by the (fake) wiki: the event log every monitor works on.
type Req struct {
	Seq     int
	Recv    time.Time
	Answer  time.Time // time right before the answer was handed over
	Sent    time.Time // time when the answer was completely handed over
	Host    string
	Method  string
	URI     string // raw request target
	Kind    string // article, file (article lookup of an image), template, image, texcheck, mathsvg, mathpng, unknown
	Key     string // decoded title / template text / "inst/Name" / formula / hash
	Query   url.Values
	Header  http.Header
	Body    string
	Status  int
	Fault   string // kind of the injected fault, "" if none
	OK      bool   // answered with genuine content
	Problem string // anything a real server would not understand
	RespLen int
	RespSum string
	TLS     bool
}

func (r *Req) Ident() string { return r.Kind + " " + r.Host + " " + r.Key }

// Fault describes an injected misbehaviour of the wiki.
type Fault struct {
	Kind    string // status, 429, reset, truncate, nonjson, apierror, emptyjson, stall
	Status  int
	Header  map[string]string
	Body    string
	Keep    bool   // keep the genuine body and headers
	Mid     func() // half: called between both parts
	AtBytes int    // truncate: number of body bytes delivered
}

type Page struct {
	Title string
	Text  string
}

type Wiki struct {
	ArticleHosts map[string]bool            // hosts with a w/api.php
	Pages        map[string]map[string]Page // host -> underscored title -> page
	Images       map[string][]byte          // "inst/Name" -> body
	ImageHost    string
	MathHost     string
	MathPath     string
	Expand       func(text string) string
	MathDims     func(q string) (w, h, style string)
	AnyFile      bool // every image exists

	FaultFn func(r *Req) *Fault
	DelayFn func(r *Req) time.Duration
	Hook    func(r *Req) // called when a request arrives, before it is answered

	mu       sync.Mutex
	log      []*Req
	math     map[string]string // hash -> q
	inflight int
	maxInfl  int
	waiting  int // requests whose answer has not begun
	maxWait  int
	conns    int // open connections
	maxConns int
	allConns int
}

func (w *Wiki) connection(d int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.conns += d
	if d > 0 {
		w.allConns++
	}
	w.maxConns = max(w.maxConns, w.conns)
}

func (w *Wiki) Waiting() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.waiting
}

// Load gives the largest number of requests waiting for their answer, of connections open at the same time, and the
// number of connections opened at all.
func (w *Wiki) Load() (int, int, int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.maxWait, w.maxConns, w.allConns
}

func NewWiki() *Wiki {
	return &Wiki{
		ArticleHosts: map[string]bool{"en.wikipedia.org": true, "commons.wikimedia.org": true},
		Pages:        map[string]map[string]Page{},
		Images:       map[string][]byte{},
		ImageHost:    "upload.wikimedia.org",
		MathHost:     "wikimedia.org",
		MathPath:     "/api/rest_v1/media/math",
		math:         map[string]string{},
	}
}

func normTitle(t string) string {
	t = strings.ReplaceAll(strings.TrimSpace(t), " ", "_")
	prefix := ""
	if i := strings.Index(t, ":"); i >= 0 && (t[:i] == "File") {
		prefix, t = t[:i+1], t[i+1:]
	}
	r, n := utf8.DecodeRuneInString(t)
	if n > 0 && r != utf8.RuneError {
		t = string(unicode.ToUpper(r)) + t[n:]
	}
	return prefix + t
}

func (w *Wiki) AddPage(host, title, text string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.Pages[host] == nil {
		w.Pages[host] = map[string]Page{}
	}
	w.Pages[host][normTitle(title)] = Page{Title: strings.ReplaceAll(title, "_", " "), Text: text}
}

// AddRedirect makes from resolve to the page title to (the answer carries the target's title).
func (w *Wiki) AddRedirect(host, from, to, text string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.Pages[host] == nil {
		w.Pages[host] = map[string]Page{}
	}
	w.Pages[host][normTitle(from)] = Page{Title: strings.ReplaceAll(to, "_", " "), Text: text}
}

// InstPath is the path segment an image host uses for the wiki at the host.
func InstPath(host string) string { return strings.SplitN(host, ".", 2)[0] }

// AddImage registers an image (name without prefix) with its description page on an article host.
func (w *Wiki) AddImage(host, name string, body []byte) {
	name = strings.ReplaceAll(name, " ", "_")
	w.AddPage(host, "File:"+name, "image page")
	w.mu.Lock()
	w.Images[InstPath(host)+"/"+normTitle(name)] = body
	w.mu.Unlock()
}

// AddImageRedirect registers an image under an alias.
func (w *Wiki) AddImageRedirect(host, alias, target string, body []byte) {
	w.AddImage(host, target, body)
	w.AddRedirect(host, "File:"+alias, "File:"+target, "redirect")
}

func (w *Wiki) Log() []*Req {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*Req(nil), w.log...)
}

func (w *Wiki) ResetLog() {
	w.mu.Lock()
	w.log = nil
	w.mu.Unlock()
}

func (w *Wiki) InFlight() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.inflight
}

type answer struct {
	status int
	header map[string]string
	body   []byte
}

func jsonBytes(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(v))
	return bytes.TrimSpace(b.Bytes())
}

func normMath(q string) string {
	for strings.Contains(q, " +") || strings.Contains(q, "+ ") {
		q = strings.ReplaceAll(strings.ReplaceAll(q, " +", "+"), "+ ", "+")
	}
	return q
}

// mathHash names the rendering of a formula. The service normalises formulas, so different texts may share a rendering.
func mathHash(q string) string {
	q = normMath(q)
	h := sha1.Sum([]byte("tex:" + q))
	return hex.EncodeToString(h[:])
}

// MathSize gives every formula its own size, so that swapped renderings show.
func MathSize(q string) (string, string, string) {
	h := sha1.Sum([]byte("dim:" + normMath(q)))
	return fmt.Sprintf("%d.%03dex", 1+int(h[0])%40, int(h[1])*3), fmt.Sprintf("%d.%03dex", 1+int(h[2])%9, int(h[3])*3), fmt.Sprintf("vertical-align: -0.%03dex;", int(h[4])*3)
}

func MathSvg(q string) []byte {
	wd, ht, st := MathSize(q)
	return []byte(fmt.Sprintf(`<svg xmlns="http://www.w3.org/2000/svg" width="%s" height="%s" style="%s" viewBox="0 -863.1 3000.4 1000"><title>%s</title></svg>`, wd, ht, st, mathHash(q)))
}
func MathPng(q string) []byte { return []byte("MATHPNG " + mathHash(q)) }

// classify fills Kind and Key of the request and gives the genuine answer.
func (w *Wiki) classify(r *Req, path, rawq string) answer {
	bad := func(code int, why string) answer {
		if r.Kind == "" {
			r.Kind = "unknown"
		}
		r.Problem = why
		return answer{code, nil, []byte("<html>error " + why + "</html>")}
	}
	switch {
	case w.ArticleHosts[r.Host] && path == "/w/api.php":
		q, err := url.ParseQuery(rawq)
		if err != nil {
			return bad(400, "unparsable query: "+err.Error())
		}
		r.Query = q
		for k, v := range q {
			if len(v) != 1 {
				return bad(400, "parameter "+k+" given several times")
			}
		}
		if q.Get("format") != "json" {
			return bad(400, "format is not json")
		}
		if r.Method != "GET" {
			return bad(400, "method "+r.Method)
		}
		switch q.Get("action") {
		case "parse":
			r.Kind = "article"
			r.Key = q.Get("page")
			if strings.HasPrefix(r.Key, "File:") {
				r.Kind = "file"
			}
			for k := range q {
				switch k {
				case "action", "prop", "redirects", "format", "page":
				default:
					return bad(400, "unexpected parameter "+k)
				}
			}
			if q.Get("prop") != "wikitext" || q.Get("redirects") == "" {
				return bad(400, "prop/redirects")
			}
			w.mu.Lock()
			p, ok := w.Pages[r.Host][normTitle(r.Key)]
			w.mu.Unlock()
			if !ok && w.AnyFile && r.Kind == "file" {
				p, ok = Page{Title: strings.ReplaceAll(normTitle(r.Key), "_", " "), Text: "x"}, true
			}
			if !ok {
				return answer{200, map[string]string{"mediawiki-api-error": "missingtitle", "Content-Type": "application/json"}, []byte(`{"error":{"code":"missingtitle","info":"The page you specified doesn't exist."}}`)}
			}
			r.OK = true
			return answer{200, map[string]string{"Content-Type": "application/json"}, jsonBytes(map[string]any{"parse": map[string]any{"title": p.Title, "pageid": 4711, "wikitext": map[string]any{"*": p.Text}}})}
		case "expandtemplates":
			r.Kind = "template"
			r.Key = q.Get("text")
			for k := range q {
				switch k {
				case "action", "prop", "format", "text":
				default:
					return bad(400, "unexpected parameter "+k)
				}
			}
			if q.Get("prop") != "wikitext" {
				return bad(400, "prop")
			}
			out := r.Key
			if w.Expand != nil {
				out = w.Expand(r.Key)
			}
			r.OK = true
			return answer{200, map[string]string{"Content-Type": "application/json"}, jsonBytes(map[string]any{"expandtemplates": map[string]any{"wikitext": out}})}
		}
		return bad(400, "action")
	case r.Host == w.ImageHost:
		r.Kind = "image"
		if r.Method != "GET" {
			return bad(400, "method "+r.Method)
		}
		parts := strings.Split(strings.TrimPrefix(path, "/"), "/")
		if len(parts) != 5 || parts[0] != "wikipedia" {
			return bad(404, "image path "+path)
		}
		name, err := url.PathUnescape(parts[4]) // "+" in a path stands for itself
		if err != nil {
			return bad(404, "image name escape "+parts[4])
		}
		r.Key = parts[1] + "/" + name
		sum := fmt.Sprintf("%x", md5.Sum([]byte(name)))
		if parts[2] != sum[:1] || parts[3] != sum[:2] {
			return bad(404, "hash path of "+name)
		}
		w.mu.Lock()
		b, ok := w.Images[r.Key]
		w.mu.Unlock()
		if !ok && w.AnyFile {
			b, ok = []byte("IMGDATA "+r.Key), true
			if strings.HasSuffix(strings.ToLower(r.Key), ".svg") {
				b = []byte(`<svg width="10px" height="20px" xmlns="http://www.w3.org/2000/svg"></svg>`)
			}
		}
		if !ok {
			return answer{404, nil, []byte("<html>no such image</html>")}
		}
		r.OK = true
		return answer{200, map[string]string{"Content-Type": "application/octet-stream"}, b}
	case r.Host == w.MathHost && strings.HasPrefix(path, w.MathPath+"/"):
		rest := strings.TrimPrefix(path, w.MathPath)
		if rest == "/check/tex" {
			r.Kind = "texcheck"
			if r.Method != "POST" {
				return bad(400, "method "+r.Method)
			}
			if ct := r.Header.Get("Content-Type"); ct != "application/x-www-form-urlencoded" {
				return bad(400, "content type "+ct)
			}
			q, err := url.ParseQuery(r.Body)
			if err != nil || len(q) != 1 || len(q["q"]) != 1 {
				return bad(400, "form body "+clip(r.Body, 200))
			}
			r.Key = q.Get("q")
			h := mathHash(r.Key)
			w.mu.Lock()
			w.math[h] = normMath(r.Key)
			w.mu.Unlock()
			r.OK = true
			return answer{200, map[string]string{"x-resource-location": h, "Content-Type": "application/json"}, []byte(`{"success":true}`)}
		}
		for _, k := range []string{"svg", "png"} {
			if strings.HasPrefix(rest, "/render/"+k+"/") {
				r.Kind = "math" + k
				r.Key = strings.TrimPrefix(rest, "/render/"+k+"/")
				if r.Method != "GET" {
					return bad(400, "method "+r.Method)
				}
				w.mu.Lock()
				q, ok := w.math[r.Key]
				w.mu.Unlock()
				if !ok {
					return bad(404, "unknown rendering "+r.Key)
				}
				r.OK = true
				if k == "svg" {
					return answer{200, map[string]string{"Content-Type": "image/svg+xml"}, MathSvg(q)}
				}
				return answer{200, map[string]string{"Content-Type": "image/png"}, MathPng(q)}
			}
		}
		return bad(404, "math path "+path)
	}
	return bad(404, "host or path not configured: "+r.Host+path)
}

// ServeHTTP answers one request that reached the wiki through the proxy.
func (w *Wiki) ServeHTTP(rw http.ResponseWriter, hr *http.Request) {
	body, _ := io.ReadAll(hr.Body)
	host := hr.Host
	if i := strings.LastIndex(host, ":"); i > 0 {
		host = host[:i]
	}
	r := &Req{Recv: time.Now(), Host: host, Method: hr.Method, URI: hr.RequestURI, Header: hr.Header.Clone(), Body: string(body), TLS: hr.TLS != nil || hr.Header.Get("X-Vh-Plain") == ""}
	path, rawq := hr.URL.EscapedPath(), hr.URL.RawQuery
	a := w.classify(r, path, rawq)
	w.mu.Lock()
	r.Seq = len(w.log)
	w.log = append(w.log, r)
	w.inflight++
	if w.inflight > w.maxInfl {
		w.maxInfl = w.inflight
	}
	w.waiting++
	w.maxWait = max(w.maxWait, w.waiting)
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.inflight--
		r.Sent = time.Now()
		w.mu.Unlock()
	}()
	if w.Hook != nil {
		w.Hook(r)
	}
	if w.DelayFn != nil {
		if d := w.DelayFn(r); d > 0 {
			time.Sleep(d)
		}
	}
	var f *Fault
	if w.FaultFn != nil {
		f = w.FaultFn(r)
	}
	r.Answer = time.Now()
	w.mu.Lock()
	w.waiting--
	w.mu.Unlock()
	if f != nil {
		r.Fault = f.Kind
		r.OK = false
		switch f.Kind {
		case "reset":
			if h, ok := rw.(http.Hijacker); ok {
				c, _, err := h.Hijack()
				if err == nil {
					c.Close()
				}
			}
			return
		case "truncate":
			b := a.body
			if f.Body != "" {
				b = []byte(f.Body)
			}
			n := f.AtBytes
			if n > len(b)-1 {
				n = len(b) - 1
			}
			if n < 0 {
				n = 0
			}
			if h, ok := rw.(http.Hijacker); ok {
				c, buf, err := h.Hijack()
				if err == nil {
					fmt.Fprintf(buf, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nContent-Type: application/octet-stream\r\n\r\n", len(b))
					buf.Write(b[:n])
					buf.Flush()
					c.Close()
				}
			}
			return
		case "half": // the body arrives in two parts with a pause
			if h, ok := rw.(http.Hijacker); ok {
				c, buf, err := h.Hijack()
				if err == nil {
					fmt.Fprintf(buf, "HTTP/1.1 %d OK\r\nContent-Length: %d\r\n", max(a.status, 200), len(a.body))
					for k, v := range a.header {
						fmt.Fprintf(buf, "%s: %s\r\n", k, v)
					}
					fmt.Fprintf(buf, "Connection: close\r\n\r\n")
					buf.Write(a.body[:len(a.body)/2])
					buf.Flush()
					if f.Mid != nil {
						f.Mid()
					}
					buf.Write(a.body[len(a.body)/2:])
					buf.Flush()
					c.Close()
				}
			}
			return
		case "chunktrunc":
			b := a.body
			if h, ok := rw.(http.Hijacker); ok {
				c, buf, err := h.Hijack()
				if err == nil {
					fmt.Fprintf(buf, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nContent-Type: application/octet-stream\r\n\r\n%x\r\n", len(b)+10)
					buf.Write(b)
					buf.Flush()
					c.Close()
				}
			}
			return
		}
		if f.Keep { // the genuine answer with another status and further headers
			h := map[string]string{}
			for k, v := range a.header {
				h[k] = v
			}
			for k, v := range f.Header {
				h[k] = v
			}
			a.header = h
		} else {
			a = answer{header: f.Header, body: []byte(f.Body)}
		}
		a.status = f.Status
		if a.status == 0 {
			a.status = 200
		}
	}
	for k, v := range a.header {
		rw.Header().Set(k, v)
	}
	r.Status = a.status
	r.RespLen = len(a.body)
	r.RespSum = hash(a.body)
	rw.Header().Set("Content-Length", fmt.Sprint(len(a.body)))
	rw.WriteHeader(a.status)
	rw.Write(a.body)
	if fl, ok := rw.(http.Flusher); ok {
		fl.Flush()
	}
}
