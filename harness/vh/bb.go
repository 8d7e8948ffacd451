package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func itoa(i int) string { return strconv.Itoa(i) }

// Env is the scratch world of one case: project directory, cache, output and stand-ins for the external tools.
type Env struct {
	c       *Ctx
	Dir     string
	Cache   string
	OutDir  string
	Out     string
	Tools   string
	ToolLog string
	Plan    []ToolRule
	Race    bool
	RaceLog string
	XEnv    []string
	BinPath string
	MayIdle bool     // long waits without activity are expected
	CPULim  float64  // seconds of CPU time
	Strace  []string // run under strace with these options
}

// ToolRule makes a stand-in tool misbehave.
type ToolRule struct {
	Tool   string `json:"tool"`
	Match  string `json:"match"`  // substring of the joined arguments
	Nth    int    `json:"nth"`    // only the n-th matching call (1-based), 0 = every
	Action string `json:"action"` // fail, failpartial, sleep, signal
	Ms     int    `json:"ms"`
}

var envSeq struct {
	sync.Mutex
	n int
}

func (c *Ctx) NewEnv() *Env {
	envSeq.Lock()
	envSeq.n++
	n := envSeq.n
	envSeq.Unlock()
	d := filepath.Join(c.Tmp, fmt.Sprintf("e%d", n))
	e := &Env{c: c, Dir: d, Cache: filepath.Join(d, "cache"), OutDir: filepath.Join(d, "out"), Tools: filepath.Join(d, "tools"), ToolLog: filepath.Join(d, "tool.log"), BinPath: c.Bin, CPULim: 60}
	e.Out = filepath.Join(e.OutDir, "book.epub")
	for _, x := range []string{d, e.Cache, e.OutDir, e.Tools, filepath.Join(d, "home"), filepath.Join(d, "proj")} {
		must(os.MkdirAll(x, 0o755))
	}
	for _, t := range []string{"pandoc", "magick", "rsvg-convert", "imgtool", "convtool"} {
		must(os.Symlink(c.Self, filepath.Join(e.Tools, t)))
	}
	return e
}

func (e *Env) Close() {
	if os.Getenv("VH_KEEP") != "" {
		return
	}
	os.RemoveAll(e.Dir)
}

// Cfg is the JSON content of a config or project file.
type Cfg map[string]any

func (a Cfg) With(kv ...any) Cfg {
	b := Cfg{}
	for k, v := range a {
		b[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		b[kv[i].(string)] = kv[i+1]
	}
	return b
}

// BaseCfg keeps every side effect in the scratch world and switches off external image tools.
func (e *Env) BaseCfg() Cfg {
	return Cfg{
		"cache-dir": e.Cache, "command-template-svg-to-png": "", "command-template-image-processing": "",
		"command-template-pdf-to-png": "", "command-template-webp-to-png": "",
	}
}

// ToolCfg is BaseCfg with the stand-in tools configured for images.
func (e *Env) ToolCfg() Cfg {
	return e.BaseCfg().With(
		"command-template-svg-to-png", "convtool svg --in {INPUT} --out {OUTPUT}",
		"command-template-pdf-to-png", "convtool pdf --in {INPUT} --out {OUTPUT}",
		"command-template-webp-to-png", "convtool webp --in {INPUT} --out {OUTPUT}",
		"command-template-math-svg-to-png", "convtool math --in {INPUT} --out {OUTPUT}",
		"command-template-image-processing", "imgtool --in {INPUT} --out {OUTPUT}")
}

func writeJSON(path string, v any) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0o644))
}

// Project writes a project file and returns its path.
func (e *Env) Project(cfg Cfg, articles []string) string {
	p := filepath.Join(e.Dir, "proj", "project.json")
	m := cfg.With("articles", articles)
	if _, ok := m["metadata"]; !ok {
		m["metadata"] = map[string]string{"title": "Book", "author": "Ann Author", "license": "CC", "language": "en-US", "date": "2020-01-02"}
	}
	if _, ok := m["output-file"]; !ok {
		m["output-file"] = e.Out
	}
	writeJSON(p, m)
	return p
}

// Result is what was observed of one run of the program.
type Result struct {
	Exit    int
	Signal  string
	Stdout  string
	Stderr  string
	Crash   string // panic or runtime error text
	Hang    string // "cpu" or "blocked" when the run was ended for not progressing
	Timeout bool   // watchdog: inconclusive
	Killed  bool   // killed on request
	Tools   []ToolCall
	Reqs    []*Req
	Dur     time.Duration
	CPU     float64
	MaxRSS  int64 // kB
}

func (r *Result) Brief() string {
	return fmt.Sprintf("exit=%d signal=%s hang=%s crash=%q stderr=%q stdout=%q", r.Exit, r.Signal, r.Hang, clip(r.Crash, 300), clip(tail(r.Stderr, 600), 600), clip(tail(r.Stdout, 600), 600))
}
func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (r *Result) Success() bool { return r.Exit == 0 && r.Signal == "" && r.Hang == "" }

// Claimed says whether the program reported success.
func (r *Result) Claimed() bool {
	return strings.Contains(r.Stdout+r.Stderr, "Successfully created")
}

var crashRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|SIG[A-Z]+: .*|runtime: goroutine stack exceeds.*)$`)

type RunOpt struct {
	Dir    string
	KillAt func(kill func()) // called once the process runs; may call kill at any time
	Stdin  string
	NoFile int // limit of open files, 0 for none
}

// Run starts the program with the wiki behind the proxy and waits for its end.
func (e *Env) Run(w *Wiki, opt RunOpt, args ...string) *Result {
	m := e.c.Mitm()
	proxy, id := m.Attach(w)
	defer m.Detach(id)
	os.Remove(e.ToolLog)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cmd := exec.CommandContext(ctx, e.BinPath, args...)
	if e.Strace != nil {
		cmd = exec.CommandContext(ctx, "strace", append(append(append([]string{}, e.Strace...), e.BinPath), args...)...)
	}
	if opt.NoFile > 0 {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -n %d && exec "$@"`, opt.NoFile), "sh", e.BinPath}, args...)...)
	}
	cmd.Dir = opt.Dir
	if cmd.Dir == "" {
		cmd.Dir = e.Dir
	}
	plan, _ := json.Marshal(e.Plan)
	cmd.Env = append([]string{
		"HOME=" + filepath.Join(e.Dir, "home"), "XDG_CACHE_HOME=" + filepath.Join(e.Dir, "home", "xcache"),
		"PATH=" + e.Tools + ":/usr/bin:/bin", "LANG=C.UTF-8",
		"HTTPS_PROXY=" + proxy, "HTTP_PROXY=" + proxy, "https_proxy=" + proxy, "http_proxy=" + proxy, "NO_PROXY=", "no_proxy=",
		"SSL_CERT_FILE=" + m.CAFile, "SSL_CERT_DIR=/nonexistent",
		"VH_TOOL_LOG=" + e.ToolLog, "VH_TOOL_PLAN=" + string(plan), "TMPDIR=" + e.Dir,
	}, e.XEnv...)
	if e.Race {
		e.RaceLog = filepath.Join(e.Dir, "race.log")
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=66 log_path="+e.RaceLog)
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if opt.Stdin != "" {
		cmd.Stdin = strings.NewReader(opt.Stdin)
	}
	cmd.WaitDelay = 5 * time.Second
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	before := len(w.Log())
	res := &Result{}
	t0 := time.Now()
	if err := cmd.Start(); err != nil && e.Strace != nil {
		res.Exit = -1
		return res
	} else if err != nil {
		e.c.Fail("start %s: %v", e.BinPath, err)
		res.Exit = -1
		return res
	}
	e.c.Count("program_runs", 1)
	pid := cmd.Process.Pid
	done := make(chan struct{})
	var wd sync.WaitGroup
	wd.Add(1)
	go func() {
		defer wd.Done()
		idleSince := time.Now()
		lastCPU := 0.0
		for {
			select {
			case <-done:
				return
			case <-time.After(250 * time.Millisecond):
			}
			cpu := procCPU(pid)
			if cpu < 0 {
				continue
			}
			res.CPU = cpu
			if cpu-lastCPU > 0.05 || w.InFlight() > 0 || hasChildren(pid) {
				idleSince, lastCPU = time.Now(), cpu
			}
			if cpu > e.CPULim {
				res.Hang = "cpu"
				cancel()
				return
			}
			if time.Since(idleSince) > 30*time.Second && !e.MayIdle {
				res.Hang = "blocked"
				syscall.Kill(pid, syscall.SIGQUIT) // goroutine dump into stderr
				time.Sleep(time.Second)
				cancel()
				return
			}
			if time.Since(t0) > 400*time.Second {
				res.Timeout = true
				cancel()
				return
			}
		}
	}()
	if opt.KillAt != nil {
		var once sync.Once
		opt.KillAt(func() {
			once.Do(func() { res.Killed = true; syscall.Kill(-pid, syscall.SIGKILL) })
		})
	}
	err := cmd.Wait()
	close(done)
	wd.Wait()
	syscall.Kill(-pid, syscall.SIGKILL) // nothing of the run may stay behind
	res.Dur = time.Since(t0)
	if os.Getenv("VH_SLOWLOG") != "" && res.Dur > 4*time.Second {
		fmt.Fprintf(os.Stderr, "slow run: %v cpu=%v %v in %s\n", res.Dur, procCPU(pid), args, e.Dir)
	}
	if cmd.ProcessState != nil {
		res.CPU = (cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()).Seconds()
		res.Exit = cmd.ProcessState.ExitCode()
		if ru, ok := cmd.ProcessState.SysUsage().(*syscall.Rusage); ok {
			res.MaxRSS = ru.Maxrss
		}
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Signal = ws.Signal().String()
		}
	} else if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			res.Exit = -1
		}
	}
	res.Stdout, res.Stderr = so.String(), se.String()
	if mm := crashRe.FindString(res.Stderr); mm != "" && !res.Killed && res.Hang == "" {
		res.Crash = mm
	}
	if res.Timeout {
		e.c.Fail("watchdog: run took more than 400 s: %v", args)
	}
	res.Tools = readToolLog(e.ToolLog)
	log := w.Log()
	res.Reqs = log[before:]
	e.c.Count("requests_observed", int64(len(res.Reqs)))
	e.c.Count("tool_calls_observed", int64(len(res.Tools)))
	return res
}

func procCPU(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	i := bytes.LastIndexByte(b, ')')
	if i < 0 {
		return -1
	}
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

func hasChildren(pid int) bool {
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/children", pid))
	for _, t := range ts {
		if b, _ := os.ReadFile(t); len(bytes.TrimSpace(b)) > 0 {
			return true
		}
	}
	return false
}

// Snapshot maps every file below dir (relative path) to its content.
func Snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}
