package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

func readJSON(path string, v any) {
	b, err := os.ReadFile(path)
	must(err)
	must(json.Unmarshal(b, v))
}

// apiCheck runs the in-process driver of the real cache package (built with the race detector) in several processes and
// takes over what it observed.
func apiCheck(c *Ctx, mode string, n int) {
	bin := os.Getenv("VH_API")
	if bin == "" {
		c.Note("in_process_part", "skipped: the driver does not build against this tree")
		return
	}
	const shards = 8
	Par(shards, shards, func(k int) {
		dir := filepath.Join(c.Tmp, fmt.Sprintf("api-%s-%d", mode, k))
		inProcess(c, dir, nil, false, bin, mode, dir, fmt.Sprint(c.Seed), fmt.Sprint(n), fmt.Sprint(k), fmt.Sprint(shards))
	})
}

// inProcess runs a driver and reads the JSON lines of its monitors.
// With mayBlock, no end within two minutes is no verdict: threads waiting for locks stop the virtual clock.
func inProcess(c *Ctx, dir string, env []string, mayBlock bool, bin string, args ...string) {
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66", "HOME="+dir, "TMPDIR="+dir)
	cmd.Env = append(cmd.Env, env...)
	limit := 800 * time.Second
	if mayBlock {
		limit = 120 * time.Second
	}
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		c.Fail("api: %v", err)
		return
	}
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		if mayBlock {
			c.Count("virtual_clock_blocked", 1)
			return
		}
		c.Violate(c.ID+":api-hang", "the in-process driver did not end: "+clip(tail(se.String(), 800), 800), nil)
		return
	}
	ended := false
	for _, l := range strings.Split(so.String(), "\n") {
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var m struct {
			T, Sig, Msg, Key string
			N                int64
			Replay           any
		}
		if json.Unmarshal([]byte(l), &m) != nil {
			continue
		}
		switch m.T {
		case "viol":
			c.Violate(c.ID+":"+m.Sig, m.Msg, m.Replay)
		case "case":
			c.Case(m.Key)
		case "count":
			c.Count(m.Key, m.N)
		case "seen":
			c.Seen(m.Sig, m.Key)
		case "sample":
			c.Sample(m.Replay)
		case "end":
			ended = true
		}
	}
	raced := false
	for _, rep := range strings.Split(se.String(), "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		if raceSite(rep) == "logging library" {
			c.Count("races_of_the_logging_library", 1) // see B03
			continue
		}
		raced = true
		c.Violate(c.ID+":race", "data race: "+clip(rep, 2500), nil)
	}
	if !ended && !raced {
		c.Violate(c.ID+":crash", "the in-process driver crashed: "+fmt.Sprint(err)+" "+clip(tail(se.String(), 1500), 1500), nil)
	}
}

// virtualClock runs the driver of the real HTTP service on a virtual clock.
func virtualClock(c *Ctx, mode string, n int) {
	bin := os.Getenv("VH_VT")
	if bin == "" {
		c.Note("virtual_clock_part", "skipped: the driver does not build against this tree")
		return
	}
	Par(8, 8, func(k int) {
		dir := filepath.Join(c.Tmp, fmt.Sprintf("vt-%s-%d", mode, k))
		inProcess(c, dir, []string{"VT_MODE=" + mode, "VT_DIR=" + dir, fmt.Sprintf("VT_N=%d", n), fmt.Sprintf("VT_SHARD=%d", k)}, mode == "multi", bin, "-test.run=TestVT", "-test.timeout=0")
	})
}
