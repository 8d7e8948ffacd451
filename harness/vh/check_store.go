package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	registerFS("D01", "fault_enumeration", checkD01)
}

var errnoName = map[syscall.Errno]string{syscall.EIO: "EIO", syscall.ENOSPC: "ENOSPC", syscall.EACCES: "EACCES", syscall.EMFILE: "EMFILE", syscall.EROFS: "EROFS"}

// fsPoint is one way to disturb the file operations of a run.
type fsPoint struct {
	op    fsOp
	mode  string
	errno syscall.Errno
}

func (p fsPoint) String() string {
	switch p.mode {
	case "full":
		return "disk full from " + p.op.Op + " in " + p.op.place() + " on"
	case "short":
		return "disk full in the middle of a write in " + p.op.place()
	case "kill":
		return "killed before " + p.op.Op + " in " + p.op.place()
	}
	return p.op.Op + " in " + p.op.place() + " fails with " + errnoName[p.errno]
}

// fsPoints enumerates the disturbances of the recorded operations.
func fsPoints(ops []fsOp) []fsPoint {
	var out []fsPoint
	for _, o := range ops {
		switch o.Op {
		case "write":
			out = append(out, fsPoint{o, "fail", syscall.ENOSPC}, fsPoint{o, "short", syscall.ENOSPC}, fsPoint{o, "fail", syscall.EIO}, fsPoint{o, "full", syscall.ENOSPC})
		case "create", "mkdir":
			out = append(out, fsPoint{o, "fail", syscall.ENOSPC}, fsPoint{o, "fail", syscall.EACCES}, fsPoint{o, "full", syscall.ENOSPC})
			if o.Op == "create" {
				out = append(out, fsPoint{o, "fail", syscall.EMFILE})
			}
		case "open":
			out = append(out, fsPoint{o, "fail", syscall.EACCES}, fsPoint{o, "fail", syscall.EMFILE}, fsPoint{o, "fail", syscall.EIO})
		case "rename", "remove", "removeall", "chtimes":
			out = append(out, fsPoint{o, "fail", syscall.EIO}, fsPoint{o, "fail", syscall.EACCES}, fsPoint{o, "fail", syscall.EROFS})
		default:
			out = append(out, fsPoint{o, "fail", syscall.EIO}, fsPoint{o, "fail", syscall.EACCES})
		}
	}
	return out
}

// spread takes at most n points, each kind of point (whatever the error) as often as possible the same number of times.
func spread(c *Ctx, ci int, ps []fsPoint, n int) []fsPoint {
	r := c.Rand("spread", ci)
	by := map[string][]fsPoint{}
	var ks []string
	for _, p := range ps {
		k := p.op.Op + " " + p.op.place() + " " + p.mode
		if by[k] == nil {
			ks = append(ks, k)
		}
		by[k] = append(by[k], p)
	}
	sort.Strings(ks)
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, k := range ks {
		l := by[k]
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	var out []fsPoint
	for round := 0; len(out) < len(ps) && (n <= 0 || len(out) < n); round++ {
		for _, k := range ks {
			if round < len(by[k]) && (n <= 0 || len(out) < n) {
				out = append(out, by[k][round])
			}
		}
	}
	return out
}

func checkD01(c *Ctx) {
	c.Rule = "the real program built against a standard library whose file operations are numbered, recorded and made to fail: from an undisturbed run (empty cache, filled cache, aged cache, cache too small) the operations in the scratch world are taken (open, create, read, write, rename, remove, mkdir, stat, readdir, chtimes), and each is replayed failing with EIO/ENOSPC/EACCES/EMFILE/EROFS, with a part written, or with a full disk from there on, for EPUB (both drivers), statistics and article commands, with and without an existing output; afterwards the same command runs on the left-over cache with healthy storage; non-trivial: the operation was really reached and failed; distinct: (project, cache state, disturbance, operation)"
	c.Assume = []string{"failures of closing a file are not simulated", "a failing write of the output itself may leave a partial output when the run reports failure"}
	storeSweep(c, "D01", fsPoints, c.N(12, 48), c.N(160, 450))
}

// fsKills enumerates the kills before the recorded operations.
func fsKills(ops []fsOp) []fsPoint {
	var out []fsPoint
	for _, o := range ops {
		out = append(out, fsPoint{o, "kill", 0})
	}
	return out
}

// converted says whether the image was made from another one in the cache, together with which it is renewed.
func converted(p string) bool {
	p, ok := strings.CutSuffix(p, ".png")
	return ok && (readFile(p) != "" || readFile(p+".svg") != "")
}

// storeSweep disturbs the file operations of n projects at per points each.
func storeSweep(c *Ctx, id string, points func(ops []fsOp) []fsPoint, n, per int) {
	states := []string{"empty", "filled", "aged", "aged", "small"}
	Par(n, 8, func(ci int) {
		s, r := faultWorld(c, ci)
		state := states[ci%len(states)]
		// the cache an undisturbed run leaves
		e1, a1, _ := s.env(1, false)
		defer e1.Close()
		e1.Run(s.x.Wiki(), RunOpt{}, a1...)
		snap := cacheSnap(e1)
		total, junk := 0, 0
		for _, v := range snap {
			total += len(v)
			junk = max(junk, len(v)+500)
		}
		// prepare gives a world in the given cache state
		prepare := func(threads int, old bool) (*Env, []string, string) {
			e, args, out := s.env(threads, old)
			if state == "empty" {
				return e, args, out
			}
			if state == "small" { // old files which have to make room
				for k := 0; k < 4; k++ {
					f := filepath.Join(e.Cache, "images", fmt.Sprintf("junk%d.png", k))
					must(os.MkdirAll(filepath.Dir(f), 0o755))
					must(os.WriteFile(f, make([]byte, junk), 0o644))
					t := time.Now().Add(-time.Hour)
					must(os.Chtimes(f, t, t))
				}
				return e, args, out
			}
			res := e.Run(s.x.Wiki(), RunOpt{}, args...)
			if !res.Success() {
				c.Fail(id+": the preparing run failed: %s", res.Brief())
			}
			os.Remove(out)
			if old {
				must(os.WriteFile(out, []byte("OLD BOOK"), 0o644))
			}
			if state == "aged" {
				filepath.Walk(e.Cache, func(p string, fi os.FileInfo, err error) error {
					if err == nil && fi.Mode().IsRegular() {
						rel, _ := filepath.Rel(e.Cache, p)
						if hashs(rel)[0]%5 < 3 {
							stale := map[string]string{"articles": `{"parse":{"title":"x","wikitext":{"*":"stale text"}}}`, "templates": `{"expandtemplates":{"wikitext":"stale"}}`, "images": "STALE IMAGE", "html": "<h1>stale</h1>", "stats": "{}"}
							if b := stale[filepath.Base(filepath.Dir(p))]; b != "" && !converted(p) {
								must(os.WriteFile(p, []byte(b), 0o644))
							}
							old := fi.ModTime().AddDate(-1, 0, 0)
							os.Chtimes(p, old, old)
						}
					}
					return nil
				})
			}
			return e, args, out
		}
		extra := []string{}
		if state == "small" {
			extra = []string{"--cache-max-size", itoa(total + junk*3/2), "--cache-eviction-strategy", pick(r, "lru", "largest")}
		}
		e0, a0, out0 := prepare(1, false)
		defer e0.Close()
		e0.fsFault(0, "", 0)
		ref := e0.Run(s.x.Wiki(), RunOpt{}, append(a0, extra...)...)
		ops := e0.fsLog()
		replay := map[string]any{"case": ci, "cache": state, "articles": s.x.Pages, "images": s.x.Imgs, "math": s.x.Math, "mode": s.mode}
		if !ref.Success() {
			c.Violate(fmt.Sprintf("%s:ref:%d", id, ci), "the undisturbed run failed: "+ref.Brief(), replay)
			return
		}
		if len(ops) < 20 {
			c.Fail(id+": only %d file operations recorded", len(ops))
			return
		}
		want := s.view(e0, ref, out0)
		c.Count("operations_recorded", int64(len(ops)))
		for _, o := range ops {
			c.Seen("operations", o.Op+" in "+o.place())
		}
		for ji, p := range spread(c, ci, points(ops), per) {
			if c.NViol() > 10 {
				return
			}
			threads := []int{1, 1, 1, 4}[ji%4]
			old := ji%2 == 0
			e, args, out := prepare(threads, old)
			e.fsFault(p.op.N, p.mode, p.errno)
			res := e.Run(s.x.Wiki(), RunOpt{}, append(args[:len(args):len(args)], extra...)...)
			var hit *fsOp
			for _, o := range e.fsLog() {
				if o.Hit {
					hit = &o
					break
				}
			}
			e.fsHealthy()
			if hit == nil {
				c.Count("not_reached", 1)
				e.Close()
				continue
			}
			p.op = *hit
			what := p.String()
			bad := ""
			onOut := strings.HasPrefix(hit.Name, "out/")
			switch {
			case p.mode == "kill":
				if res.Signal == "" {
					bad = "INTERNAL: not killed"
				}
				c.Count("kills", 1)
			case res.Crash != "" || res.Signal != "":
				bad = "the program crashed"
			case res.Hang != "":
				bad = "the run did not end"
			case res.Success():
				if d := viewDiff(want, s.view(e, res, out)); d != "" {
					bad = "the run succeeded with another result: " + d
				}
			case res.Claimed():
				bad = "success was reported"
			default:
				now := readFile(out)
				_, err := os.Stat(out)
				conv := len(res.Calls("pandoc")) > 0
				if conv {
					if d := viewDiff(want, s.view(e, res, out)); d != "" {
						bad = "the converter was started with something else: " + d
					}
				} else if old && now != "OLD BOOK" && !onOut && p.mode != "full" {
					bad = fmt.Sprintf("the existing output file was changed to %q", clip(now, 100))
				} else if !old && err == nil && len(now) > 0 && !onOut && p.mode != "full" {
					bad = fmt.Sprintf("an output file with %d bytes was written", len(now))
				}
			}
			if p.mode != "kill" {
				c.Count("exit_success_"+fmt.Sprint(res.Success()), 1)
			}
			after := ""
			if bad == "" {
				ref := snap
				if state == "small" {
					ref = nil
					if threads > 1 || p.mode == "kill" {
						for _, k := range interrupted(s.x, snap, cacheSnap(e)) {
							os.Remove(filepath.Join(e.Cache, k))
						}
					}
				}
				var known bool
				// another article's image may be in the middle of its processing when the run ends
				if after, known = s.recovers(e, args, out, ref, want, threads > 1 || p.mode == "kill"); known {
					c.Count("interrupted_image_processing", 1)
				}
			}
			c.Case(fmt.Sprintf("fs%d/%s/%s", ci, what, hit.Name))
			c.Seen("disturbances", what+"/"+s.mode+"/"+state)
			if ci < 2 && ji < 2 {
				c.Sample(map[string]any{"disturbance": what, "file": hit.Name, "operation_number": hit.N, "threads": threads, "mode": s.mode, "exit": res.Exit, "claimed": res.Claimed()})
			}
			e.Close()
			if bad != "" || after != "" {
				if after != "" {
					bad = "after a run ended by it: " + after
				}
				c.Violate(id+":"+s.mode+":"+what, fmt.Sprintf("%s, file %s (threads=%d mode=%s cache=%s): %s; %s", what, hit.Name, threads, s.mode, state, bad, res.Brief()), map[string]any{"scene": replay, "disturbance": what, "operation": hit.N, "threads": threads, "old_output": old})
			}
		}
	})
}
