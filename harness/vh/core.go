package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Ctx carries everything one check run needs: seed, tier, scratch directory, binaries, evidence counters and verdicts.
type Ctx struct {
	ID, Tier string
	Seed     uint64
	Verif    string // directory of the framework
	Tmp      string // scratch directory, removed by run.sh
	Bin      string // the real program
	BinRace  string // the real program with the race detector (only where needed)
	Self     string // this binary (used as stand-in for external tools)

	mu         sync.Mutex
	evals      int
	distinct   map[string]bool
	samples    []any
	counters   map[string]int64
	sets       map[string]map[string]bool
	violations []Violation
	known      []KnownFinding
	knownHit   map[string]string
	notes      map[string]any
	Rule       string
	Assume     []string
	Level      string
	start      time.Time
	errs       []string
	mitm       *Mitm
	nrun       int
}

type Violation struct {
	Sig    string `json:"signature"`
	Msg    string `json:"message"`
	Replay any    `json:"replay,omitempty"`
}

type KnownFinding struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a case count per tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rand returns a deterministic generator for a case.
func (c *Ctx) Rand(stream string, i int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%s/%d/%d", c.ID, stream, c.Seed, i)))
	var a, b uint64
	for k := 0; k < 8; k++ {
		a = a<<8 | uint64(h[k])
		b = b<<8 | uint64(h[8+k])
	}
	return rand.New(rand.NewPCG(a, b))
}

// Case counts one evaluated case; key identifies its non-trivial observation ("" if it was trivial).
func (c *Ctx) Case(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key != "" {
		c.distinct[key] = true
	}
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Seen records a member of a named set of distinct observations.
func (c *Ctx) Seen(set, member string) {
	c.mu.Lock()
	if c.sets[set] == nil {
		c.sets[set] = map[string]bool{}
	}
	c.sets[set][member] = true
	c.mu.Unlock()
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Note(k string, v any) {
	c.mu.Lock()
	c.notes[k] = v
	c.mu.Unlock()
}

// Fail is a problem of the check itself (inconclusive), not a verdict.
func (c *Ctx) Fail(format string, a ...any) {
	c.mu.Lock()
	c.errs = append(c.errs, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

// Violate reports that the property is broken. sig identifies the failing input, site or history; a listed known
// finding with exactly that signature turns the report into a KNOWN-FINDING line.
func (c *Ctx) Violate(sig, msg string, replay any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Property == c.ID && k.Signature == sig {
			c.knownHit[sig] = k.What
			return
		}
	}
	if len(c.violations) < 200 {
		c.violations = append(c.violations, Violation{sig, msg, replay})
	}
}

func (c *Ctx) NViol() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations)
}

func loadKnown(path string) []KnownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue // comments and "fixed: ..." lines suppress nothing
		}
		var k KnownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	rdir := filepath.Join(c.Verif, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, c.ID+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Rule,
		"samples":             c.samples,
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	for k, v := range c.counters {
		cov[k] = v
	}
	for k, v := range c.sets {
		cov["distinct_"+k] = len(v)
	}
	for k, v := range c.notes {
		cov[k] = v
	}
	if len(c.knownHit) > 0 {
		var ks []string
		for k := range c.knownHit {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings_observed"] = ks
	}
	if len(c.errs) > 0 {
		cov["inconclusive"] = c.errs
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": int64(c.Seed), "level": c.Level,
		"coverage": cov, "assumptions": c.Assume,
		"wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 3
	}
	if err := os.WriteFile(filepath.Join(c.Verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 3
	}
	var ks []string
	for k := range c.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, c.knownHit[k])
	}
	if len(c.violations) > 0 {
		seen := map[string]bool{}
		n := 0
		for i, v := range c.violations {
			if seen[v.Sig] || n >= 10 {
				continue
			}
			seen[v.Sig] = true
			n++
			p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.ID, i))
			vb, _ := json.MarshalIndent(map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "violation": v}, "", " ")
			os.WriteFile(p, vb, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
			fmt.Printf("  [%s] %s\n", v.Sig, clip(v.Msg, 1500))
		}
		fmt.Printf("%d violation(s)\n", len(c.violations))
		return 1
	}
	if len(c.errs) > 0 {
		for _, e := range c.errs {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", clip(e, 1500))
		}
		return 3
	}
	if c.evals == 0 || len(c.distinct) == 0 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing was observed")
		return 3
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", c.ID, c.Tier, c.evals, len(c.distinct), time.Since(c.start).Seconds())
	return 0
}

// Par runs f(0..n-1) on w workers.
func Par(n, w int, f func(i int)) {
	if w <= 0 {
		w = runtime.NumCPU()
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "…"
}

func hash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}
func hashs(s ...string) string { return hash([]byte(strings.Join(s, "\x00"))) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }
func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

type checkFn func(c *Ctx)

type checkDef struct {
	fn    checkFn
	level string
	needs string // what else is to be built: race, api, vt or fs
}

var checks = map[string]checkDef{}

func register(id, level string, fn checkFn)     { checks[id] = checkDef{fn, level, ""} }
func registerRace(id, level string, fn checkFn) { checks[id] = checkDef{fn, level, "race"} }
func registerFS(id, level string, fn checkFn)   { checks[id] = checkDef{fn, level, "fs"} }
func registerVT(id, level string, fn checkFn)   { checks[id] = checkDef{fn, level, "vt"} }
func registerAPI(id, level string, fn checkFn)  { checks[id] = checkDef{fn, level, "api"} }

func main() {
	if os.Getenv("VH_TOOL_LOG") != "" {
		toolMain()
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID tier | vh needs ID | vh list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "needs":
		if d, ok := checks[os.Args[2]]; ok && d.needs != "" {
			fmt.Println(d.needs)
		}
	case "fsoverlay":
		p, err := fsOverlay(os.Args[2])
		must(err)
		fmt.Println(p)
	case "check":
		id, tier := os.Args[2], os.Args[3]
		d, ok := checks[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
		self, err := os.Executable()
		must(err)
		c := &Ctx{ID: id, Tier: tier, Seed: seed, Verif: os.Getenv("VH_VERIF"), Tmp: os.Getenv("VH_TMP"), Bin: os.Getenv("VH_BIN"), BinRace: os.Getenv("VH_BIN_RACE"), Self: self,
			distinct: map[string]bool{}, counters: map[string]int64{}, sets: map[string]map[string]bool{}, knownHit: map[string]string{}, notes: map[string]any{}, start: time.Now(), Level: d.level}
		c.known = loadKnown(filepath.Join(c.Verif, "known_findings.txt"))
		os.RemoveAll(filepath.Join(c.Verif, "evidence", id+".json"))
		d.fn(c)
		os.Exit(c.finish())
	case "dbg":
		dbgMain()
	default:
		os.Exit(2)
	}
}
