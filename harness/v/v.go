// Package v is the interface between the verification harnesses and the two ways
// of running them: the symbolic engine intercepts most of these functions, the
// native bodies below replay one concrete assignment on the real build.
package v

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ---- native state ----

var (
	In       map[string]int64
	names    = map[string]int{}
	Failed   []string
	Obs      []string
	caught   string
	thorough bool
)

type AssumeFailed struct{}
type skipped struct{}

func uniq(n string) string {
	k := names[n]
	names[n] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

// Int is an arbitrary integer in lo..hi.
func Int(name string, lo, hi int64) int64 {
	n := uniq(name)
	x, ok := In[n]
	if !ok {
		return lo
	}
	return x
}

func Bool(name string) bool { return In[uniq(name)] != 0 }
func Byte(name string) byte { return byte(In[uniq(name)]) }

// Str is an arbitrary string of exactly n bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(In[uniq(fmt.Sprintf("%s[%d]", name, i))])
	}
	return string(b)
}

// Choice is an arbitrary number in 0..n-1, concrete on every path.
func Choice(name string, n int) int { return int(In[uniq(name)]) }

// Lit is the text of an integer literal with an arbitrary value in lo..hi.
func Lit(name string, lo, hi int64) (string, int64) {
	x := Int(name, lo, hi)
	return strconv.FormatInt(x, 10), x
}

// LitOf is the text of an integer literal whose value is x (x >= 0).
func LitOf(x int64) string { return strconv.FormatInt(x, 10) }

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, id string) {
	if !c {
		Failed = append(Failed, id)
	}
}

// Reach marks that this point of the harness is reachable (vacuity witness).
func Reach(id string) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func StrEq(a, b string) bool { return a == b }

// Decide forces a case split on c.
func Decide(c bool) bool { return c }

// Conc forces a case split on the value of x.
func Conc(x int64) int64 { return x }

func Skip() { panic(skipped{}) }

func Symbolic() bool { return false }
func Thorough() bool { return thorough }

// Permute runs goroutines in any order if gos and up to n map iterations in any order,
// with data race detection; off if n < 0. Natively all of that is up to the Go runtime.
func Permute(n int, gos bool) {}

func Raced() bool         { return false }
func AbstractHash()       {}
func FreeHash()           {}
func Caught() string      { return caught }
func GetState(string) any { return nil }
func SetThorough(on bool) { thorough = on }

func Observe(name string, x int64)   { Obs = append(Obs, fmt.Sprintf("%s=%d", name, x)) }
func ObserveS(name string, x string) { Obs = append(Obs, name+"="+x) }

type fatalMark struct{}

var fatalCh chan struct{}

type catcher struct{}

func (catcher) Write(b []byte) (int, error) {
	pc := make([]uintptr, 16)
	n := runtime.Callers(1, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.Contains(f.Function, "Logger).Fatal") {
			caught = "exit: " + string(b)
			if fatalCh != nil {
				close(fatalCh)
				fatalCh = nil
				select {}
			}
			fmt.Println("RESULT {\"end\":\"fatal\"}")
			os.Exit(0)
		}
		if !more {
			break
		}
	}
	return len(b), nil
}

func resetLog() { *log.Default() = *log.New(catcher{}, "", 0) }

func init() {
	if !Symbolic() {
		resetLog()
	}
}

// Try runs f: 0 returned, 1 panicked, 2 terminated the program through a fatal
// log message, 3 did not terminate (engine only; natively the process dies).
func Try(f func()) int {
	resetLog()
	done := make(chan int, 1)
	fc := make(chan struct{})
	fatalCh = fc
	go func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case AssumeFailed, skipped:
					fmt.Println("RESULT {\"end\":\"assume\"}")
					os.Exit(0)
				}
				caught = fmt.Sprint("panic: ", r)
				done <- 1
			}
		}()
		f()
		done <- 0
	}()
	select {
	case c := <-done:
		fatalCh = nil
		return c
	case <-fc:
		time.Sleep(time.Millisecond)
		resetLog()
		return 2
	}
}

// ---- file system: virtual in the engine, the current directory natively ----

var vfs = map[string]string{}

const vroot = "/w"

var (
	vcwd   = vroot
	vlinks = map[string]string{}
	venv   = map[string]string{}
	vinos  = map[string]uint64{}
)

// File creates a file (path relative to the working directory).
func File(path, content string) {
	if Symbolic() {
		vfs[vroot+"/"+path] = content
		return
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
		panic(err)
	}
}

type dirEntry struct {
	name string
	dir  bool
	link bool
	ino  uint64
}

func (d dirEntry) Name() string               { return d.name }
func (d dirEntry) IsDir() bool                { return d.dir }
func (d dirEntry) Type() fs.FileMode          { return d.Mode() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d, nil }
func (d dirEntry) Size() int64                { return 0 }
func (d dirEntry) ModTime() (t time.Time)     { return }
func (d dirEntry) Sys() any                   { return &syscall.Stat_t{Ino: d.ino} }
func (d dirEntry) Mode() fs.FileMode {
	if d.dir {
		return fs.ModeDir
	}
	if d.link {
		return fs.ModeSymlink
	}
	return 0
}

func abs(p string) string {
	if p == "." || p == "" {
		return vcwd
	}
	if p[0] != '/' {
		p = vcwd + "/" + p
	}
	if strings.Contains(p, "..") || strings.Contains(p, "//") || strings.Contains(p, "/./") {
		p = filepath.Clean(p)
	}
	return p
}

// Link creates a symbolic link; target is absolute ("/" is the initial working
// directory) or relative to the directory of the link.
func Link(path, target string) {
	if Symbolic() {
		if target[0] == '/' {
			target = vroot + target
		}
		vlinks[vroot+"/"+path] = target
		return
	}
	wd, _ := os.Getwd()
	if target[0] == '/' {
		target = wd + target
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.Symlink(target, path); err != nil {
		panic(err)
	}
}

// Chdir changes the working directory to one below the initial one; call it after
// all files are made.
func Chdir(path string) {
	if Symbolic() {
		vcwd = vroot + "/" + path
		return
	}
	os.MkdirAll(path, 0o755)
	if err := os.Chdir(path); err != nil {
		panic(err)
	}
}

// Setenv sets an environment variable.
func Setenv(name, value string) {
	if Symbolic() {
		venv[name] = value
		return
	}
	os.Setenv(name, value)
}

func notFound(p string) error { return &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist} }

// resolve follows the links of an absolute path; last: also the last element.
func resolve(p string, last bool) (string, bool) {
	if len(vlinks) == 0 {
		return p, true
	}
	out := ""
	rest := strings.Split(p, "/")[1:]
	for n := 0; len(rest) > 0; {
		e := rest[0]
		rest = rest[1:]
		next := out + "/" + e
		t, ok := vlinks[next]
		if !ok || !last && len(rest) == 0 {
			out = next
			continue
		}
		n++
		if n > 40 {
			return "", false
		}
		if t[0] != '/' {
			t = out + "/" + t
		}
		rest = append(strings.Split(filepath.Clean(t), "/")[1:], rest...)
		out = ""
	}
	return out, true
}

func OSEvalSymlinks(p string) (string, error) {
	r, ok := resolve(abs(p), true)
	if !ok {
		return "", notFound(p)
	}
	if _, err := OSStat(r); err != nil {
		return "", err
	}
	if p == "" || p[0] != '/' {
		if r == vcwd {
			return ".", nil
		}
		return filepath.Rel(vcwd, r)
	}
	return r, nil
}

func OSReadFile(p string) ([]byte, error) {
	a, ok := resolve(abs(p), true)
	if !ok {
		return nil, notFound(p)
	}
	s, ok := vfs[a]
	if !ok {
		return nil, notFound(p)
	}
	return []byte(s), nil
}

func sortedPaths() []string {
	var ps []string
	for k := range vfs {
		ps = append(ps, k)
	}
	for k := range vlinks {
		ps = append(ps, k)
	}
	sort.Strings(ps)
	return ps
}

func OSReadDir(p string) ([]os.DirEntry, error) {
	a, ok := resolve(abs(p), true)
	if !ok {
		return nil, notFound(p)
	}
	a += "/"
	var out []os.DirEntry
	last := ""
	for _, k := range sortedPaths() {
		if !strings.HasPrefix(k, a) {
			continue
		}
		rest := k[len(a):]
		dir := false
		if j := strings.IndexByte(rest, '/'); j >= 0 {
			rest = rest[:j]
			dir = true
		}
		if rest == last {
			continue
		}
		last = rest
		_, link := vlinks[a+rest]
		out = append(out, dirEntry{rest, dir, link, ino(a + rest)})
	}
	if len(out) > 1 {
		sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	}
	return out, nil
}

// ino is the number of a file or directory.
func ino(p string) uint64 {
	n, ok := vinos[p]
	if !ok {
		n = uint64(len(vinos)) + 100
		vinos[p] = n
	}
	return n
}

func OSLstat(p string) (os.FileInfo, error) {
	a, ok := resolve(abs(p), false)
	if !ok {
		return nil, notFound(p)
	}
	if _, link := vlinks[a]; link {
		return dirEntry{filepath.Base(a), false, true, ino(a)}, nil
	}
	return OSStat(a)
}

func OSStat(p string) (os.FileInfo, error) {
	a, ok := resolve(abs(p), true)
	if !ok || p == "" {
		return nil, notFound(p)
	}
	for _, k := range sortedPaths() {
		if k == a {
			return dirEntry{filepath.Base(a), false, false, ino(a)}, nil
		}
		if strings.HasPrefix(k, a+"/") {
			return dirEntry{filepath.Base(a), true, false, ino(a)}, nil
		}
	}
	if a == vroot || a == vcwd {
		return dirEntry{filepath.Base(a), true, false, ino(a)}, nil
	}
	return nil, notFound(p)
}

func OSGetwd() (string, error) { return vcwd, nil }
func OSGetenv(n string) string { return venv[n] }
func OSLookupEnv(n string) (string, bool) {
	s, ok := venv[n]
	return s, ok
}

// ---- files the program writes, and the program itself ----

var (
	vfiles = map[*os.File]string{}
	vout   string
	verr   string
)

var voff = map[*os.File]int{}

func OSCreate(p string) (*os.File, error) {
	return OSOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OSOpenFile(p string, flag int, _ os.FileMode) (*os.File, error) {
	a, ok := resolve(abs(p), true)
	if !ok {
		return nil, notFound(p)
	}
	if st, err := OSStat(filepath.Dir(a)); err != nil || !st.IsDir() {
		return nil, notFound(p)
	}
	old, ok := vfs[a]
	if !ok && flag&os.O_CREATE == 0 {
		return nil, notFound(p)
	}
	if ok && flag&os.O_EXCL != 0 {
		return nil, fs.ErrExist
	}
	if flag&os.O_TRUNC != 0 {
		old = ""
	}
	f := new(os.File)
	vfiles[f] = a
	vfs[a] = old
	if flag&os.O_APPEND != 0 {
		voff[f] = len(old)
	}
	return f, nil
}

func OSWriteFile(p string, b []byte, _ os.FileMode) error {
	f, err := OSCreate(p)
	if err == nil {
		vfs[vfiles[f]] = string(b)
	}
	return err
}

func OSFileWrite(f *os.File, b []byte) (int, error) {
	switch f {
	case os.Stdout:
		vout += string(b)
	case os.Stderr:
		verr += string(b)
	default:
		p, ok := vfiles[f]
		if !ok {
			return 0, fs.ErrClosed
		}
		old, o := vfs[p], voff[f]
		s := old[:o] + string(b)
		if len(old) > len(s) {
			s += old[len(s):]
		}
		vfs[p] = s
		voff[f] = o + len(b)
	}
	return len(b), nil
}

// OSOpen opens a file for reading.
func OSOpen(p string) (*os.File, error) { return OSOpenFile(p, os.O_RDONLY, 0) }

func OSFileRead(f *os.File, b []byte) (int, error) {
	p, ok := vfiles[f]
	if !ok {
		return 0, fs.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	s := vfs[p][voff[f]:]
	if len(s) == 0 {
		return 0, io.EOF
	}
	n := copy(b, s)
	voff[f] += n
	return n, nil
}

func OSFileWriteString(f *os.File, s string) (int, error) { return OSFileWrite(f, []byte(s)) }
func OSFileClose(f *os.File) error                        { return nil }

func runProgram() {}

// StopClock makes the current time the same from now on (natively it is so for
// runs within one second).
func StopClock() {}

// Program runs the command line program in the working directory: 0 success,
// 1 crash, 2 failure reported by the exit code, 3 does not terminate.
func Program(args ...string) (stdout, stderr string, code int) {
	if Symbolic() {
		os.Args = append([]string{"fbdl"}, args...)
		vout, verr = "", ""
		code = Try(runProgram)
		return vout, verr, code
	}
	cmd := exec.Command(os.Getenv("VERIF_FBDL"), args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		code = 2
		if strings.Contains(se.String(), "goroutine ") {
			code = 1
		}
	}
	return compact(so.String()), se.String(), code
}

func compact(s string) string {
	var b bytes.Buffer
	if json.Compact(&b, []byte(s)) == nil {
		return b.String()
	}
	return s
}

func jsonOf(x any) string { return "" }

// JSON is the JSON text of a value without any white space.
func JSON(x any) string {
	if Symbolic() {
		return jsonOf(x)
	}
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Read is the content of a file, white space removed from JSON.
func Read(path string) (string, bool) {
	if Symbolic() {
		s, ok := vfs[vroot+"/"+path]
		return s, ok
	}
	b, err := os.ReadFile(path)
	return compact(string(b)), err == nil
}

// Files is the number of regular files at and below the working directory.
func Files() int {
	if Symbolic() {
		return len(vfs)
	}
	n := 0
	filepath.Walk(".", func(_ string, i fs.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			n++
		}
		return nil
	})
	return n
}
