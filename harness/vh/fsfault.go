package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
)

// The program is also built against a standard library whose os package calls a hook before every file operation (go
// build -overlay, nothing in /repo changes). The hook numbers and records the operations beneath a scratch directory and
// makes chosen ones fail, lets the disk be full from one on, or ends the process there.

const fsHookSource = `package os

import (
	"sync"
	"syscall"
)

var vhfs struct {
	sync.Mutex
	init bool
	root, skip string
	log  int
	n, at int
	mode string
	errno syscall.Errno
}

func vhAtoi(s string) int {
	n := 0
	for i := 0; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func vhItoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func vhHas(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// vhFS returns an error the operation has to end with, and whether a part of the data is to be written.
func vhFS(op, name string) (error, bool) {
	vhfs.Lock()
	defer vhfs.Unlock()
	v := &vhfs
	if !v.init {
		v.init = true
		v.root, _ = syscall.Getenv("VH_FSROOT")
		v.skip = v.root + "/tools"
		v.log = -1
		if l, ok := syscall.Getenv("VH_FSLOG"); ok && v.root != "" {
			v.log, _ = syscall.Open(l, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND|syscall.O_CLOEXEC, 0644)
		}
		s, _ := syscall.Getenv("VH_FSAT")
		v.at = vhAtoi(s)
		v.mode, _ = syscall.Getenv("VH_FSMODE")
		s, _ = syscall.Getenv("VH_FSERRNO")
		v.errno = syscall.Errno(vhAtoi(s))
	}
	if v.root == "" || name == "" || name[0] == '/' && (!vhHas(name, v.root) || vhHas(name, v.skip)) || name[0] == '|' {
		return nil, false
	}
	v.n++
	hit := v.n == v.at
	if v.mode == "full" && v.at > 0 && v.n >= v.at {
		hit = op == "write" || op == "create" || op == "mkdir"
	}
	if v.log >= 0 {
		h := " "
		if hit {
			h = "!"
		}
		syscall.Write(v.log, []byte(vhItoa(v.n)+h+op+" "+name+"\n"))
	}
	if !hit {
		return nil, false
	}
	switch v.mode {
	case "kill":
		syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
		select {}
	case "short", "full":
		return v.errno, op == "write"
	}
	return v.errno, false
}
`

// fsOverlay writes the changed files of the os package and the overlay description, and returns the latter's path.
func fsOverlay(dir string) (string, error) {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	osDir := filepath.Join(strings.TrimSpace(string(b)), "src", "os")
	type edit struct{ file, sig, hook string }
	pe := func(op, name, ret string) string {
		return fmt.Sprintf("\tif e, _ := vhFS(%q, %s); e != nil {\n\t\treturn %s&PathError{Op: %q, Path: %s, Err: e}\n\t}\n", op, name, ret, op, name)
	}
	edits := []edit{
		{"file.go", "func (f *File) Read(b []byte) (n int, err error) {", "\tif f != nil && f.file != nil {\n" + pe("read", "f.name", "0, ") + "\t}\n"},
		{"file.go", "func (f *File) Write(b []byte) (n int, err error) {", "\tif f != nil && f.file != nil {\n\t\tif e, part := vhFS(\"write\", f.name); e != nil {\n\t\t\tm := 0\n\t\t\tif part {\n\t\t\t\tm, _ = f.write(b[:len(b)/2])\n\t\t\t}\n\t\t\treturn m, &PathError{Op: \"write\", Path: f.name, Err: e}\n\t\t}\n\t}\n"},
		{"file.go", "func Mkdir(name string, perm FileMode) error {", pe("mkdir", "name", "")},
		{"file.go", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {", "\tvhOp := \"open\"\n\tif flag&O_CREATE != 0 {\n\t\tvhOp = \"create\"\n\t}\n" + strings.ReplaceAll(pe("open", "name", "nil, "), `vhFS("open"`, "vhFS(vhOp")},
		{"file.go", "func Rename(oldpath, newpath string) error {", "\tif e, _ := vhFS(\"rename\", newpath); e != nil {\n\t\treturn &LinkError{\"rename\", oldpath, newpath, e}\n\t}\n"},
		{"file_unix.go", "func Remove(name string) error {", pe("remove", "name", "")},
		{"path.go", "func RemoveAll(path string) error {", pe("removeall", "path", "")},
		{"stat.go", "func Stat(name string) (FileInfo, error) {", pe("stat", "name", "nil, ")},
		{"stat.go", "func Lstat(name string) (FileInfo, error) {", pe("lstat", "name", "nil, ")},
		{"stat_unix.go", "func (f *File) Stat() (FileInfo, error) {", "\tif f != nil && f.file != nil {\n" + pe("fstat", "f.name", "nil, ") + "\t}\n"},
		{"file_posix.go", "func Chtimes(name string, atime time.Time, mtime time.Time) error {", pe("chtimes", "name", "")},
		{"dir.go", "func (f *File) Readdirnames(n int) (names []string, err error) {", "\tif f != nil && f.file != nil {\n" + pe("readdir", "f.name", "nil, ") + "\t}\n"},
		{"dir.go", "func (f *File) ReadDir(n int) ([]DirEntry, error) {", "\tif f != nil && f.file != nil {\n" + pe("readdir", "f.name", "nil, ") + "\t}\n"},
	}
	src := map[string]string{}
	for _, e := range edits {
		if src[e.file] == "" {
			b, err := os.ReadFile(filepath.Join(osDir, e.file))
			if err != nil {
				return "", err
			}
			src[e.file] = string(b)
		}
		if strings.Count(src[e.file], e.sig+"\n") != 1 {
			return "", fmt.Errorf("%s not found in %s", e.sig, e.file)
		}
		src[e.file] = strings.Replace(src[e.file], e.sig+"\n", e.sig+"\n"+e.hook, 1)
	}
	src["zz_vhfs.go"] = fsHookSource
	repl := map[string]string{}
	for f, s := range src {
		p := filepath.Join(dir, "os_"+f)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			return "", err
		}
		repl[filepath.Join(osDir, f)] = p
	}
	p := filepath.Join(dir, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	return p, os.WriteFile(p, j, 0o644)
}

// fsOp is one recorded file operation.
type fsOp struct {
	N    int
	Hit  bool
	Op   string
	Name string
}

var fsLogRe = regexp.MustCompile(`^(\d+)([ !])(\S+) (.*)$`)
var tempDigitsRe = regexp.MustCompile(`(\.tmp/.*?)\d{6,}$`)

// fsLog reads the recorded operations of the last run; names are relative to the scratch directory.
func (e *Env) fsLog() []fsOp {
	var out []fsOp
	for _, l := range strings.Split(readFile(filepath.Join(e.Dir, "fs.log")), "\n") {
		if m := fsLogRe.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			name := strings.TrimPrefix(m[4], e.Dir+"/")
			out = append(out, fsOp{n, m[2] == "!", m[3], tempDigitsRe.ReplaceAllString(name, "$1*")})
		}
	}
	return out
}

// place is where in the scratch world the file is.
func (o fsOp) place() string {
	d := filepath.Dir(o.Name)
	switch {
	case strings.HasPrefix(o.Name, "cache/"), strings.HasPrefix(o.Name, "out/"), strings.HasPrefix(o.Name, "proj/"):
		return d
	}
	return o.Name
}

// fsFault makes the next runs use the build with the hook; at = 0 only records.
func (e *Env) fsFault(at int, mode string, errno syscall.Errno) {
	e.BinPath = os.Getenv("VH_BIN_FS")
	l := filepath.Join(e.Dir, "fs.log")
	os.Remove(l)
	e.XEnv = []string{"VH_FSROOT=" + e.Dir, "VH_FSLOG=" + l, "VH_FSAT=" + itoa(at), "VH_FSMODE=" + mode, "VH_FSERRNO=" + itoa(int(errno))}
}

func (e *Env) fsHealthy() { e.BinPath, e.XEnv = e.c.Bin, nil }
