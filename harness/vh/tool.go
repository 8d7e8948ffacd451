package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

// ToolCall is one start of a stand-in tool, recorded by the stand-in itself.
type ToolCall struct {
	Tool  string   `json:"tool"`
	Exe   string   `json:"exe"`
	Args  []string `json:"args"`
	Cwd   string   `json:"cwd"`
	T0    int64    `json:"t0"`
	T1    int64    `json:"t1"`
	Fault string   `json:"fault"`
	Exit  int      `json:"exit"`
	// converter only
	Chapters []ChapterObs      `json:"chapters,omitempty"`
	Files    map[string]string `json:"files,omitempty"` // other path arguments -> content hash, "" if missing
	// image tools only
	In, Out   string
	InExists  bool
	InContent string // first bytes
}

// ChapterObs is a chapter document at the moment the converter ran.
type ChapterObs struct {
	Path    string            `json:"path"`
	Content string            `json:"content"`
	Missing bool              `json:"missing"`
	Refs    map[string]string `json:"refs"` // image source -> content ("\x00missing" if it does not resolve)
}

var imgSrcRe = regexp.MustCompile(`<img[^>]*?\ssrc="([^"]*)"`)

// toolMain is the stand-in for every external program. It records its invocation and imitates the tool's effect.
func toolMain() {
	tool := filepath.Base(os.Args[0])
	args := os.Args[1:]
	logf := os.Getenv("VH_TOOL_LOG")
	var plan []ToolRule
	json.Unmarshal([]byte(os.Getenv("VH_TOOL_PLAN")), &plan)
	cwd, _ := os.Getwd()
	tc := ToolCall{Tool: tool, Exe: os.Args[0], Args: args, Cwd: cwd, T0: time.Now().UnixNano()}

	var rule *ToolRule
	joined := strings.Join(args, " ")
	for i := range plan {
		p := &plan[i]
		if (p.Tool == "" || p.Tool == tool) && (p.Match == "" || strings.Contains(joined, p.Match)) {
			if p.Nth > 0 {
				n := countLine(logf + ".n" + fmt.Sprint(i))
				if n != p.Nth {
					continue
				}
			}
			rule = p
			break
		}
	}
	if rule != nil {
		tc.Fault = rule.Action
	}
	pause := func(at string) { // "sleep" pauses before, "sleepmid" in the middle of and "sleepend" after writing the result
		if rule != nil && rule.Ms > 0 && (rule.Action == at || at == "sleep" && rule.Action != "sleepmid" && rule.Action != "sleepend") {
			os.WriteFile(logf+".mark", []byte(tool), 0o644)
			time.Sleep(time.Duration(rule.Ms) * time.Millisecond)
		}
	}
	pause("sleep")
	exit := 0
	switch {
	case tool == "pandoc":
		exit = fakePandoc(&tc, rule, pause)
	default:
		exit = fakeImageTool(&tc, rule, pause)
	}
	pause("sleepend")
	if rule != nil && rule.Action == "failafter" && exit == 0 {
		fmt.Fprintln(os.Stderr, tool+": injected failure after writing the result")
		exit = 7
	}
	tc.Exit = exit
	tc.T1 = time.Now().UnixNano()
	b, _ := json.Marshal(tc)
	f, err := os.OpenFile(logf, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err == nil {
		syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
		f.Write(append(b, '\n'))
		f.Close()
	}
	if rule != nil && rule.Action == "signal" {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		time.Sleep(time.Second)
	}
	os.Exit(exit)
}

func countLine(path string) int {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_RDWR, 0o644)
	if err != nil {
		return 0
	}
	defer f.Close()
	syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
	f.Write([]byte("x"))
	fi, _ := f.Stat()
	return int(fi.Size())
}

var pandocValued = map[string]bool{"-f": true, "-t": true, "-o": true, "--metadata": true, "--toc-depth": true, "--data-dir": true, "--css": true, "--output": true, "--from": true, "--to": true, "-M": true, "-c": true}

// SplitPandocArgs separates options from input files.
func SplitPandocArgs(args []string) (opts [][2]string, inputs []string) {
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case pandocValued[a] && i+1 < len(args):
			opts = append(opts, [2]string{a, args[i+1]})
			i++
		case strings.HasPrefix(a, "--") && strings.Contains(a, "="):
			k, v, _ := strings.Cut(a, "=")
			opts = append(opts, [2]string{k, v})
		case strings.HasPrefix(a, "-") && a != "-":
			opts = append(opts, [2]string{a, ""})
		default:
			inputs = append(inputs, a)
		}
	}
	return
}

func fakePandoc(tc *ToolCall, rule *ToolRule, pause func(string)) int {
	opts, inputs := SplitPandocArgs(tc.Args)
	tc.Files = map[string]string{}
	out := ""
	for _, o := range opts {
		switch o[0] {
		case "-o", "--output":
			out = o[1]
		case "--css", "-c", "--epub-cover-image", "--epub-embed-font", "--data-dir":
			if fi, err := os.Stat(o[1]); err != nil {
				tc.Files[o[1]] = ""
			} else if fi.IsDir() {
				tc.Files[o[1]] = "dir"
			} else {
				b, _ := os.ReadFile(o[1])
				tc.Files[o[1]] = hash(b)
			}
		}
	}
	var sb strings.Builder
	missing := false
	for _, in := range inputs {
		ch := ChapterObs{Path: in, Refs: map[string]string{}}
		b, err := os.ReadFile(in)
		if err != nil {
			ch.Missing = true
			missing = true
		}
		ch.Content = string(b)
		for _, m := range imgSrcRe.FindAllStringSubmatch(ch.Content, -1) {
			src, err := url.PathUnescape(m[1])
			if err != nil {
				ch.Refs[m[1]] = "\x00badescape"
				continue
			}
			ib, err := os.ReadFile(src) // relative to the cache directory, the working directory of the converter
			if err != nil {
				ch.Refs[m[1]] = "\x00missing"
			} else {
				ch.Refs[m[1]] = string(ib)
			}
		}
		tc.Chapters = append(tc.Chapters, ch)
		sb.WriteString("=== " + in + "\n" + ch.Content + "\n")
	}
	pause("sleepmid")
	if rule != nil && (rule.Action == "fail" || rule.Action == "signal" || rule.Action == "failpartial") {
		fmt.Fprintln(os.Stderr, failText(tc.Args)+"pandoc: injected failure")
		return 64
	}
	if missing {
		fmt.Fprintln(os.Stderr, "pandoc: openBinaryFile: does not exist (No such file or directory)")
		return 1
	}
	if out != "" {
		if err := os.WriteFile(out, []byte("EPUB\n"+sb.String()), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "pandoc:", err)
			return 1
		}
	}
	return 0
}

// fakeImageTool understands "--in F --out G" anywhere in its arguments. Conversion wraps the content in PNG[…],
// processing (the tool "imgtool") in PROC[…], so that a second or missing run of a tool is visible in the file.
func fakeImageTool(tc *ToolCall, rule *ToolRule, pause func(string)) int {
	for i, a := range tc.Args {
		if a == "--in" && i+1 < len(tc.Args) {
			tc.In = tc.Args[i+1]
		}
		if a == "--out" && i+1 < len(tc.Args) {
			tc.Out = tc.Args[i+1]
		}
		if strings.HasPrefix(a, "--in=") {
			tc.In = a[5:]
		}
		if strings.HasPrefix(a, "--out=") {
			tc.Out = a[6:]
		}
	}
	if tc.In == "" && tc.Tool == "magick" && len(tc.Args) > 1 { // default command templates
		tc.In, tc.Out = tc.Args[0], tc.Args[len(tc.Args)-1]
	}
	if tc.In == "" && tc.Tool == "rsvg-convert" && len(tc.Args) > 0 {
		tc.In = tc.Args[len(tc.Args)-1]
		for i, a := range tc.Args {
			if a == "-o" && i+1 < len(tc.Args) {
				tc.Out = tc.Args[i+1]
			}
		}
	}
	b, err := os.ReadFile(tc.In)
	tc.InExists = err == nil
	tc.InContent = clip(string(b), 300)
	if rule != nil && (rule.Action == "fail" || rule.Action == "signal") {
		fmt.Fprintln(os.Stderr, failText(tc.Args)+"image tool: injected failure")
		return 5
	}
	if rule != nil && rule.Action == "failpartial" {
		os.WriteFile(tc.Out, []byte("PARTIAL"), 0o644)
		return 5
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "image tool: no input", tc.In)
		return 1
	}
	wrap := "PNG"
	if tc.Tool == "imgtool" {
		wrap = "PROC"
	}
	// Write in place, in two steps, like a real converter: a concurrent reader sees a partial file.
	f, err := os.OpenFile(tc.Out, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "image tool:", err)
		return 1
	}
	fmt.Fprintf(f, "%s[", wrap)
	if ms := os.Getenv("VH_TOOL_SLOW"); ms != "" {
		d, _ := time.ParseDuration(ms)
		time.Sleep(d)
	}
	pause("sleepmid")
	fmt.Fprintf(f, "%s]", b)
	f.Close()
	return 0
}

func readToolLog(path string) []ToolCall {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []ToolCall
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var t ToolCall
		if json.Unmarshal([]byte(l), &t) == nil {
			out = append(out, t)
		}
	}
	return out
}

// Calls filters the log by tool name.
func (r *Result) Calls(tool string) []ToolCall {
	var out []ToolCall
	for _, t := range r.Tools {
		if t.Tool == tool {
			out = append(out, t)
		}
	}
	return out
}

// Book returns the single successful converter call, or nil.
func (r *Result) Book() *ToolCall {
	p := r.Calls("pandoc")
	if len(p) != 1 || p[0].Exit != 0 {
		return nil
	}
	return &p[0]
}

// failText is what tools write besides their error message.
func failText(args []string) string {
	if (len(strings.Join(args, " "))+len(args))%3 == 0 {
		return ""
	}
	return "[WARNING] Could not fetch resource x.png: replacing image with description\n[INFO] Running filter\nwarning: deprecated option\nx.svg: success\n0 errors\n"
}
