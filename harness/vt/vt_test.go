// Package vt drives the real HTTP service on a virtual clock (testing/synctest): announced waits of any length take no
// real time. It reports what its monitors observed as JSON lines (see vh/api.go).
package vt

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	nethttp "net/http"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"wiki2book/config"
	"wiki2book/http"

	"github.com/hauke96/sigolo/v2"
)

var outMu sync.Mutex

func emit(m map[string]any) {
	b, _ := json.Marshal(m)
	outMu.Lock()
	os.Stdout.Write(append(append([]byte("\n"), b...), '\n'))
	outMu.Unlock()
}
func viol(sig, msg string, replay any) {
	emit(map[string]any{"T": "viol", "Sig": sig, "Msg": msg, "Replay": replay})
}
func pick[T any](r *rand.Rand, v ...T) T { return v[r.IntN(len(v))] }

type answer struct {
	status int
	retry  *string
	wait   float64
	errHdr bool
	netErr bool
	body   string
}

type attempt struct {
	at     time.Time
	method string
	url    string
	header nethttp.Header
	body   string
	length int64
}

type conv struct {
	plan []answer
	got  []attempt
}

// fake answers every request by the plan of its URL (and body).
type fake struct {
	mu    sync.Mutex
	convs map[string]*conv
	other int
}

func (f *fake) RoundTrip(q *nethttp.Request) (*nethttp.Response, error) {
	var body []byte
	if q.Body != nil {
		body, _ = io.ReadAll(q.Body)
		q.Body.Close()
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	c := f.convs[q.Method+" "+q.URL.String()]
	if c == nil {
		f.other++
		return nil, errors.New("unexpected request " + q.URL.String())
	}
	c.got = append(c.got, attempt{time.Now(), q.Method, q.URL.String(), q.Header.Clone(), string(body), q.ContentLength})
	i := len(c.got) - 1
	if i >= len(c.plan) {
		return nil, errors.New("one attempt too many")
	}
	a := c.plan[i]
	if a.netErr {
		return nil, errors.New("connection reset")
	}
	h := nethttp.Header{}
	if a.retry != nil {
		h.Set("Retry-After", *a.retry)
	}
	if a.errHdr {
		h.Set("Mediawiki-Api-Error", "internal_error")
	}
	return &nethttp.Response{StatusCode: a.status, Status: strconv.Itoa(a.status) + " x", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h,
		Body: io.NopCloser(strings.NewReader(a.body)), ContentLength: int64(len(a.body)), Request: q}, nil
}

func newRand(s string, seed string, i int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%s/%d", s, seed, i)))
	var a, b uint64
	for k := 0; k < 8; k++ {
		a, b = a<<8|uint64(h[k]), b<<8|uint64(h[8+k])
	}
	return rand.New(rand.NewPCG(a, b))
}

func limited(r *rand.Rand) answer {
	p := func(s string) *string { return &s }
	num := func(n int) answer {
		return answer{status: 429, retry: p(strconv.Itoa(n)), wait: float64(n)}
	}
	var a answer
	switch r.IntN(12) {
	case 0:
		a = answer{status: 429, wait: 2}
	case 1:
		a = answer{status: 429, retry: p(pick(r, "soon", "1.5", "Fri, 31 Dec 2100 23:59:59 GMT", "12s", "ten", "1e3", "0x10")), wait: 2}
	case 2:
		a = num(0)
	case 3:
		a = num(61 + r.IntN(240))
	case 4:
		a = num(3601 + r.IntN(1000000))
	case 5:
		a = num(pick(r, 10, 11, 30, 31, 60, 61, 120, 300, 301, 600, 601, 900, 1000, 1800, 3600, 86400))
	case 6:
		a = answer{status: 429, retry: p("-" + strconv.Itoa(r.IntN(30))), wait: 0}
	default:
		a = num(1 + r.IntN(60))
	}
	a.body = "MARK429 " + strings.Repeat("slow down ", r.IntN(200))
	return a
}

func plan(r *rand.Rand, id int) []answer {
	var p []answer
	n := pick(r, 0, 1, 1, 2, 3, 5, 8, 20, 40, 130)
	for i := 0; i < n; i++ {
		p = append(p, limited(r))
	}
	last := answer{status: 200, body: fmt.Sprintf("body %d %s.", id, strings.Repeat("x", r.IntN(5000)))}
	switch r.IntN(8) {
	case 0:
		last = answer{status: pick(r, 400, 403, 404, 500, 502, 503, 301, 204), body: "MARKFAIL"}
	case 1:
		last = answer{status: 200, errHdr: true, body: "MARKFAIL"}
	case 2:
		last = answer{netErr: true}
	}
	return append(p, last)
}

func (a answer) good() bool { return a.status == 200 && !a.errHdr && !a.netErr }

func desc(p []answer) string {
	var s []string
	for _, a := range p {
		x := strconv.Itoa(a.status)
		if a.retry != nil {
			x += "(" + *a.retry + ")"
		}
		if a.errHdr {
			x += "+error header"
		}
		if a.netErr {
			x = "connection error"
		}
		s = append(s, x)
	}
	if len(s) > 12 {
		s = append(append(s[:8:8], "…"), s[len(s)-3:]...)
	}
	return strings.Join(s, " ")
}

type job struct {
	post bool
	url  string
	data string
	name string
	c    *conv
}

func do(svc *http.DefaultHttpService, j job) (got []byte, err error, fresh bool) {
	if j.post {
		resp, err := svc.PostFormEncoded(j.url, j.data)
		if err != nil {
			return nil, err, true
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		return b, err, true
	}
	p, fresh, err := svc.DownloadAndCache(j.url, "images", j.name)
	if err != nil {
		return nil, err, fresh
	}
	b, err := os.ReadFile(p)
	return b, err, fresh
}

func judge(j job, got []byte, err error, fresh bool, dir string, start time.Time) {
	p := j.c.plan
	m := map[string]any{"post": j.post, "url": j.url, "data": j.data, "answers": desc(p)}
	kind := "GET"
	if j.post {
		kind = "POST"
	}
	bad := func(sig, format string, a ...any) {
		viol(sig+" "+kind, fmt.Sprintf(format, a...)+fmt.Sprintf(" [%s, answers: %s]", kind, desc(p)), m)
	}
	att := j.c.got
	if len(att) != len(p) {
		bad("attempts", "%d attempts were made for %d answers, %v", len(att), len(p), err)
		return
	}
	for i, a := range att {
		if j.post && a.body != j.data {
			bad("body", "attempt %d was sent with the body %q instead of %q", i+1, a.body, j.data)
			return
		}
		if i == 0 {
			continue
		}
		f := att[0]
		if a.method != f.method || a.url != f.url || a.body != f.body || a.length != f.length || !reflect.DeepEqual(a.header, f.header) {
			bad("different", "attempt %d differs from the first one: %s %s %v %q %d / %s %s %v %q %d", i+1, a.method, a.url, a.header, a.body, a.length, f.method, f.url, f.header, f.body, f.length)
			return
		}
		if w := a.at.Sub(att[i-1].at).Seconds(); w < p[i-1].wait {
			ann := "nothing"
			if p[i-1].retry != nil {
				ann = *p[i-1].retry
			}
			bad("wait", "attempt %d was made after %v s although %s was announced", i+1, w, ann)
			return
		}
	}
	last := p[len(p)-1]
	file := filepath.Join(dir, "images", j.name)
	switch {
	case last.good() && err != nil:
		bad("error", "the request failed although the last answer was fine: %v", err)
	case last.good() && string(got) != last.body:
		bad("result", "the result is %q instead of %q", clip(string(got)), clip(last.body))
	case last.good() && !j.post && !fresh:
		bad("fresh", "the file is reported as not freshly downloaded")
	case !last.good() && err == nil:
		bad("hidden", "the request is reported as successful (%q) although it finally failed", clip(string(got)))
	}
	if !last.good() && !j.post {
		if b, e := os.ReadFile(file); e == nil {
			bad("stored", "the failed request left the file %q", clip(string(b)))
		}
	}
	emit(map[string]any{"T": "count", "Key": "virtual_attempts", "N": len(att)})
	emit(map[string]any{"T": "count", "Key": "virtual_seconds", "N": int(time.Since(start).Seconds())})
	emit(map[string]any{"T": "seen", "Sig": "virtual_plan_lengths", "Key": strconv.Itoa(len(p))})
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "…"
	}
	return s
}

func TestVT(t *testing.T) {
	sigolo.SetDefaultLogLevel(sigolo.LOG_FATAL)
	mode, dir, seed := os.Getenv("VT_MODE"), os.Getenv("VT_DIR"), os.Getenv("VERIF_SEED")
	n, _ := strconv.Atoi(os.Getenv("VT_N"))
	sh, _ := strconv.Atoi(os.Getenv("VT_SHARD"))
	config.Current.CacheDir = dir
	config.Current.CacheMaxSize = 1 << 40
	config.Current.UserAgentTemplate = "vt {{VERSION}}"
	f := &fake{convs: map[string]*conv{}}
	nethttp.DefaultTransport = f
	svc := http.NewDefaultHttpService()
	// If the service does not use the default transport, this way of observing it does not apply.
	f.convs["POST https://probe.invalid/"] = &conv{plan: []answer{{status: 200, body: "ok"}}}
	if r, err := svc.PostFormEncoded("https://probe.invalid/", "a=b"); err != nil || r == nil || len(f.convs["POST https://probe.invalid/"].got) != 1 {
		emit(map[string]any{"T": "count", "Key": "virtual_clock_not_applicable", "N": 1})
		emit(map[string]any{"T": "end"})
		return
	}
	nv := 0
	for i := sh; i < n && nv < 5; i += 8 {
		r := newRand("vt"+mode, seed, i)
		os.RemoveAll(filepath.Join(dir, "images"))
		os.MkdirAll(filepath.Join(dir, ".tmp"), 0o755)
		k := 1
		if mode == "multi" {
			k = 2 + r.IntN(5)
		}
		var jobs []job
		for g := 0; g < k; g++ {
			j := job{post: r.IntN(2) == 0, name: fmt.Sprintf("f%d.png", g), c: &conv{plan: plan(r, i*10+g)}}
			j.url = fmt.Sprintf("https://wiki.invalid/%d/%d?a=%s", i, g, pick(r, "1", "%C3%A4+b", "x%26y"))
			if j.post {
				j.data = "q=" + strings.Repeat(pick(r, "a", "%20", "ä", "\n"), r.IntN(400)) + fmt.Sprint("&n=", g)
			}
			m := "GET "
			if j.post {
				m = "POST "
			}
			f.convs[m+j.url] = j.c
			jobs = append(jobs, j)
		}
		synctest.Test(t, func(t *testing.T) {
			var wg sync.WaitGroup
			for _, j := range jobs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					start := time.Now()
					defer func() {
						if e := recover(); e != nil {
							viol("panic", fmt.Sprint("panic: ", e), map[string]any{"url": j.url, "answers": desc(j.c.plan)})
						}
					}()
					b, err, fresh := do(svc, j)
					judge(j, b, err, fresh, dir, start)
				}()
			}
			wg.Wait()
		})
		for _, j := range jobs {
			key := ""
			if len(j.c.plan) > 1 {
				key = fmt.Sprintf("vt/%s/%v/%s/%d", mode, j.post, desc(j.c.plan), i)
			}
			emit(map[string]any{"T": "case", "Key": key})
		}
		if i == sh && sh == 0 {
			emit(map[string]any{"T": "sample", "Replay": map[string]any{"virtual_clock": mode, "answers": desc(jobs[0].c.plan)}})
		}
	}
	emit(map[string]any{"T": "end"})
	_ = bytes.MinRead
}
