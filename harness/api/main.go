// Command api drives the real cache package in-process, with a fault-injecting file system and the race detector, and
// reports what its monitors observed as JSON lines (see vh/api.go).
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/util"

	"github.com/hauke96/sigolo/v2"
)

var (
	outMu  sync.Mutex
	nviol  int
	dir    string
	seed   uint64
	ncases int
	shard  int // this process takes the cases i with i%shards == shard
	shards int
)

func mine(i int) bool { return i%shards == shard }

func emit(m map[string]any) {
	b, _ := json.Marshal(m)
	outMu.Lock()
	os.Stdout.Write(append(b, '\n'))
	outMu.Unlock()
}

func viol(sig, msg string, replay any) {
	outMu.Lock()
	nviol++
	n := nviol
	outMu.Unlock()
	if n <= 20 {
		emit(map[string]any{"T": "viol", "Sig": sig, "Msg": msg, "Replay": replay})
	}
}
func tooMany() bool           { outMu.Lock(); defer outMu.Unlock(); return nviol > 10 }
func kase(key string)         { emit(map[string]any{"T": "case", "Key": key}) }
func count(k string, n int)   { emit(map[string]any{"T": "count", "Key": k, "N": n}) }
func seen(set, member string) { emit(map[string]any{"T": "seen", "Sig": set, "Key": member}) }
func sample(v any)            { emit(map[string]any{"T": "sample", "Replay": v}) }
func newRand(s string, i int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", s, seed, i)))
	var a, b uint64
	for k := 0; k < 8; k++ {
		a, b = a<<8|uint64(h[k]), b<<8|uint64(h[8+k])
	}
	return rand.New(rand.NewPCG(a, b))
}
func pick[T any](r *rand.Rand, v ...T) T { return v[r.IntN(len(v))] }
func must(err error) {
	if err != nil {
		panic(err)
	}
}

// body makes a self-describing document: any truncation or mixture is recognised by parse.
func body(id int, size int) []byte {
	h := sha256.Sum256([]byte(strconv.Itoa(id)))
	x := hex.EncodeToString(h[:8])
	head := fmt.Sprintf("<%d:%d:", id, size)
	var sb bytes.Buffer
	sb.WriteString(head)
	for sb.Len() < len(head)+size {
		sb.WriteString(x)
	}
	sb.Truncate(len(head) + size)
	sb.WriteString(">")
	return sb.Bytes()
}

func parse(b []byte) (int, bool) {
	var id, size int
	if _, err := fmt.Sscanf(string(b[:min(len(b), 40)]), "<%d:%d:", &id, &size); err != nil || size > 1<<26 {
		return 0, false
	}
	return id, bytes.Equal(b, body(id, size))
}

// chunkReader hands out small pieces, optionally failing after some bytes or pausing.
type chunkReader struct {
	b      []byte
	pos    int
	chunk  int
	failAt int // -1: never
	pause  func()
	err    error // what a failing source reports
	joined bool  // the error comes along with the last bytes
}

var errSource = errors.New("source failed")

// what sources fail with: closed connections, truncated bodies, timeouts, and errors a careless reader takes for an end
var sourceErrors = []error{errSource, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrDeadlineExceeded, context.Canceled, net.ErrClosed,
	syscall.ECONNRESET, os.ErrNotExist, os.ErrExist, fmt.Errorf("wrapped: %w", io.EOF), &net.OpError{Op: "read", Err: syscall.EPIPE}}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.pause != nil {
		c.pause()
	}
	end := len(c.b)
	if c.failAt >= 0 && c.failAt < end {
		end = c.failAt
	}
	e := c.err
	if e == nil {
		e = errSource
	}
	if c.pos >= end {
		if c.failAt >= 0 {
			return 0, e
		}
		return 0, io.EOF
	}
	n := min(len(p), c.chunk, end-c.pos)
	copy(p, c.b[c.pos:c.pos+n])
	c.pos += n
	if c.joined && c.pos >= end {
		if c.failAt >= 0 {
			return n, e
		}
		return n, io.EOF
	}
	return n, nil
}

// faultFS is the real file system with a hook before every call.
type faultFS struct {
	util.Filesystem
	hook  func(op, path string) action
	after func(op, path string)
}

type action int

const (
	pass action = iota
	fail
	partial  // a write that writes half and reports an error
	shortOK  // (not used for real files) a write that writes half and reports it without error
	dieNow   // nothing from here on has an effect
	dieAfter // this call has its effect, nothing after it
)

var errFault = errors.New("injected fault: no space left on device")
var errDead = errors.New("dead")

type killFS struct {
	mu   sync.Mutex
	dead bool
}

func (f *faultFS) pre(op, path string) action {
	if f.hook == nil {
		return pass
	}
	return f.hook(op, path)
}
func (f *faultFS) post(op, path string) {
	if f.after != nil {
		f.after(op, path)
	}
}
func blocked(a action) error {
	switch a {
	case fail, partial:
		return errFault
	case dieNow:
		return errDead
	}
	return nil
}
func (f *faultFS) GetSizeInBytes(p string) (int64, error) {
	if e := blocked(f.pre("size", p)); e != nil {
		return 0, e
	}
	return f.Filesystem.GetSizeInBytes(p)
}
func (f *faultFS) Rename(a, b string) error {
	if e := blocked(f.pre("rename", b)); e != nil {
		return e
	}
	err := f.Filesystem.Rename(a, b)
	f.post("rename", b)
	return err
}
func (f *faultFS) Remove(a string) error {
	if e := blocked(f.pre("remove", a)); e != nil {
		return e
	}
	err := f.Filesystem.Remove(a)
	f.post("remove", a)
	return err
}
func (f *faultFS) MkdirAll(a string) error {
	if e := blocked(f.pre("mkdir", a)); e != nil {
		return e
	}
	return f.Filesystem.MkdirAll(a)
}
func (f *faultFS) Create(a string) (util.FileLike, error) {
	if e := blocked(f.pre("create", a)); e != nil {
		return nil, e
	}
	h, err := f.Filesystem.Create(a)
	if err != nil {
		return h, err
	}
	return &faultFile{h, f}, nil
}
func (f *faultFS) CreateTemp(d, p string) (util.FileLike, error) {
	if e := blocked(f.pre("createtemp", d)); e != nil {
		return nil, e
	}
	h, err := f.Filesystem.CreateTemp(d, p)
	if err != nil {
		return h, err
	}
	return &faultFile{h, f}, nil
}
func (f *faultFS) DirSizeInBytes(p string) (error, int64) {
	if e := blocked(f.pre("dirsize", p)); e != nil {
		return e, 0
	}
	return f.Filesystem.DirSizeInBytes(p)
}
func (f *faultFS) FindLargestFile(p, x string) (error, int64, string) {
	if e := blocked(f.pre("largest", p)); e != nil {
		return e, 0, ""
	}
	return f.Filesystem.FindLargestFile(p, x)
}
func (f *faultFS) FindLruFile(p, x string) (error, int64, string) {
	if e := blocked(f.pre("lru", p)); e != nil {
		return e, 0, ""
	}
	return f.Filesystem.FindLruFile(p, x)
}
func (f *faultFS) ReadFile(p string) ([]byte, error) {
	if e := blocked(f.pre("read", p)); e != nil {
		return nil, e
	}
	return f.Filesystem.ReadFile(p)
}
func (f *faultFS) Stat(p string) (os.FileInfo, error) {
	if e := blocked(f.pre("stat", p)); e != nil {
		return nil, e
	}
	return f.Filesystem.Stat(p)
}
func (f *faultFS) Chtimes(p string, a, m time.Time) error {
	if e := blocked(f.pre("chtimes", p)); e != nil {
		return e
	}
	return f.Filesystem.Chtimes(p, a, m)
}

type faultFile struct {
	util.FileLike
	f *faultFS
}

func (h *faultFile) Write(p []byte) (int, error) {
	switch h.f.pre("write", h.Name()) {
	case fail:
		return 0, errFault
	case partial:
		n, _ := h.FileLike.Write(p[:len(p)/2])
		return n, errFault
	case dieNow:
		return 0, errDead
	}
	return h.FileLike.Write(p)
}
func (h *faultFile) Stat() (os.FileInfo, error) {
	if e := blocked(h.f.pre("fstat", h.Name())); e != nil {
		return nil, e
	}
	return h.FileLike.Stat()
}
func (h *faultFile) Close() error {
	e := blocked(h.f.pre("close", h.Name()))
	err := h.FileLike.Close()
	if e != nil {
		return e
	}
	return err
}

// entries reads all files of the cache except the temporary ones.
func entries(root string) map[string][]byte {
	out := map[string][]byte{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == cache.TempDirName {
				return filepath.SkipDir
			}
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			rel, _ := filepath.Rel(root, p)
			out[rel] = b
		}
		return nil
	})
	return out
}

func temps(root string) []string {
	d, _ := os.ReadDir(filepath.Join(root, cache.TempDirName))
	var out []string
	for _, e := range d {
		out = append(out, e.Name())
	}
	return out
}

func totalSize(root string) int64 {
	var n int64
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == cache.TempDirName {
				return filepath.SkipDir
			}
			return nil
		}
		n += fi.Size()
		return nil
	})
	return n
}

func freshCache(name string) string {
	d := filepath.Join(dir, name)
	os.RemoveAll(d)
	must(os.MkdirAll(filepath.Join(d, cache.TempDirName), 0o755))
	config.Current.CacheDir = d
	return d
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func main() {
	sigolo.SetDefaultLogLevel(sigolo.LOG_FATAL)
	if len(os.Args) < 5 {
		os.Exit(2)
	}
	dir = os.Args[2]
	s, _ := strconv.ParseUint(os.Args[3], 10, 64)
	seed = s
	ncases, _ = strconv.Atoi(os.Args[4])
	shards = 1
	if len(os.Args) > 6 {
		shard, _ = strconv.Atoi(os.Args[5])
		shards, _ = strconv.Atoi(os.Args[6])
	}
	config.Current.CacheMaxAge = 100000
	config.Current.CacheMaxSize = 1 << 40
	config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyLru
	switch os.Args[1] {
	case "c01":
		runC01()
	case "c02":
		runC02()
	case "c04":
		runC04()
	default:
		os.Exit(2)
	}
	fmt.Println(`{"T":"end"}`)
	_ = strings.TrimSpace
}
