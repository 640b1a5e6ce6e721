// Package zv is the verification API. Under the symbolic engine every call
// below is intercepted: inputs are symbolic variables, Assert is a solver query.
// This file is the native side, used to replay concrete inputs against the
// real build.
package zv

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// Alphabets for Str and StrN; any other alphabet lists its (ASCII) bytes.
const (
	Any   = "\x00any"
	ASCII = "\x00ascii"
)

type stop struct{ kind, msg string }

var (
	in      []json.RawMessage
	pos     int
	tier    int
	known   []string
	covers  map[string]bool
	dir     string
	outW    *os.File
	outC    chan string
	stdin   *os.File
	realOut = os.Stdout
	realIn  = os.Stdin
)

func next() json.RawMessage {
	if pos >= len(in) {
		panic(stop{"desync", "more inputs requested than recorded"})
	}
	pos++
	return in[pos-1]
}

func num() int64 {
	r := next()
	v, err := strconv.ParseInt(string(r), 10, 64)
	if err != nil {
		panic(stop{"desync", "input is not an integer: " + string(r)})
	}
	return v
}

// Int is an arbitrary int.
func Int(label string) int { return int(num()) }

// IntRange is an arbitrary int in [lo,hi].
func IntRange(label string, lo, hi int) int { return int(num()) }

// Byte is an arbitrary byte.
func Byte(label string) byte { return byte(num()) }

// Bool is an arbitrary bool.
func Bool(label string) bool { return num() != 0 }

// Float is an arbitrary float64, NaNs and infinities included.
func Float(label string) float64 {
	var s string
	if err := json.Unmarshal(next(), &s); err != nil {
		panic(stop{"desync", "bad float input"})
	}
	v, err := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	if err != nil {
		panic(stop{"desync", "bad float input"})
	}
	return math.Float64frombits(v)
}

// Choose forks over 0..n-1.
func Choose(label string, n int) int {
	if n <= 1 {
		num()
		return 0
	}
	return int(num())
}

// Concrete forks over the values of i.
func Concrete(i int) int { return i }

// ConcreteStr forks over the contents of s.
func ConcreteStr(s string) string { return s }

// Str is an arbitrary string of at most max bytes over the alphabet.
func Str(label string, max int, alphabet string) string {
	return StrN(label, int(num()), alphabet)
}

// StrN is an arbitrary string of n bytes over the alphabet.
func StrN(label string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(num())
	}
	return string(b)
}

// Assume discards paths on which c is false.
func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(stop{"fail", msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(stop{"fail", msg}) }

// Cover marks a point that must be reachable (vacuity guard).
func Cover(name string) { covers[name] = true }

// Known marks a recorded finding.
func Known(id string) { known = append(known, id) }

// ExpectExit says that the code under test must now end the process with the
// given exit code, having written each of the given texts to standard output,
// one after the other; returning instead is for the harness to judge. Natively
// the run moves to a child process.
func ExpectExit(code int, texts ...string) {
	if os.Getenv("ZV_CHILD") == "" {
		panic(stop{"respawn", ""})
	}
	var cs []string
	for c := range covers {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	o, _ := json.Marshal(expected{&code, cs, texts})
	realOut.Write(append(o, '\n'))
	f, err := os.Create(filepath.Join(os.TempDir(), "zvout"))
	if err != nil {
		panic(stop{"desync", err.Error()})
	}
	os.Stdout = f
}

type forked struct {
	Fork  bool     `json:"fork"`
	Texts [][]byte `json:"texts"`
	Ints  []int    `json:"ints"`
	Pos   int      `json:"pos"`
}

var (
	request Request
	forks   int
)

// Fork runs f in a copy of the process as it is now and returns f's results;
// the effects f has here are none. Natively the copy is a child process that is replayed to this point.
func Fork(f func() ([]string, []int)) ([]string, []int) {
	forks++
	var r forked
	if os.Getenv("ZV_FORK") == strconv.Itoa(forks) {
		ts, is := f()
		r = forked{Fork: true, Ints: is, Pos: pos}
		for _, t := range ts {
			r.Texts = append(r.Texts, []byte(t))
		}
		o, _ := json.Marshal(r)
		realOut.Write(append(o, '\n'))
		os.RemoveAll(dir)
		os.Exit(0)
	}
	file, err := os.CreateTemp("", "zvreq")
	if err != nil {
		panic(stop{"desync", err.Error()})
	}
	defer os.Remove(file.Name())
	j, _ := json.Marshal(request)
	file.Write(j)
	file.Close()
	exe, _ := os.Executable()
	cmd := exec.Command(exe, file.Name())
	cmd.Env = append(os.Environ(), "ZV_FORK="+strconv.Itoa(forks))
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		var fin Result
		if json.Unmarshal([]byte(l), &fin) == nil && fin.Status != "" {
			panic(stop{fin.Status, fin.Msg})
		}
		if json.Unmarshal([]byte(l), &r) == nil && r.Fork {
			pos = r.Pos
			var ts []string
			for _, t := range r.Texts {
				ts = append(ts, string(t))
			}
			return ts, r.Ints
		}
	}
	panic(stop{"desync", "a forked run gave no result: " + string(out)})
}

type expected struct {
	Exit   *int     `json:"exit"`
	Covers []string `json:"covers"`
	Texts  []string `json:"texts"`
}

// respawn replays r in a child process that is expected to exit.
func respawn(r Request) (res Result) {
	f, err := os.CreateTemp("", "zvreq")
	if err != nil {
		return Result{Status: "desync", Msg: err.Error()}
	}
	defer os.Remove(f.Name())
	j, _ := json.Marshal(r)
	f.Write(j)
	f.Close()
	tmp, err := os.MkdirTemp("", "zv")
	if err != nil {
		return Result{Status: "desync", Msg: err.Error()}
	}
	defer os.RemoveAll(tmp)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, f.Name())
	cmd.Env = append(os.Environ(), "ZV_CHILD=1", "TMPDIR="+tmp)
	out, err := cmd.Output()
	code := cmd.ProcessState.ExitCode()
	var want *int
	var texts []string
	for _, l := range strings.Split(string(out), "\n") {
		var e expected
		if json.Unmarshal([]byte(l), &e) == nil && e.Exit != nil {
			want, res.Covers, texts = e.Exit, e.Covers, e.Texts
			continue
		}
		var fin Result
		if json.Unmarshal([]byte(l), &fin) == nil && fin.Status != "" {
			return fin
		}
	}
	if want != nil && *want == code {
		b, _ := os.ReadFile(filepath.Join(tmp, "zvout"))
		o := string(b)
		for _, t := range texts {
			i := strings.Index(o, t)
			if i < 0 {
				return Result{Status: "fail", Msg: fmt.Sprintf("standard output at exit lacks %q", t)}
			}
			o = o[i+len(t):]
		}
		res.Status = "ok"
		return
	}
	return Result{Status: "panic", Msg: fmt.Sprintf("exit code %d", code)}
}

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return tier }

// MapOrder selects the iteration order of maps (engine only); MapOrders is the number of orders.
func MapOrder(k int) {}
func MapOrders() int { return 5 }

// ExactFmt makes the engine fork over numbers that are formatted as text.
func ExactFmt(bool) {}

// Scale is the first number for the engine, whose call depth is bounded, and the second natively, where the stack is 1 GB.
func Scale(engine, native int) int { return native }

// TempDir is an empty scratch directory.
func TempDir() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "zv")
		if err != nil {
			panic(stop{"desync", err.Error()})
		}
		dir = d
	}
	return dir
}

// FailWritesAfter makes writes beyond file offset n fail (n<0: never).
func FailWritesAfter(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	var rl syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &rl)
	if n < 0 {
		rl.Cur = rl.Max
	} else {
		rl.Cur = uint64(n)
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &rl)
}

// SetStdin provides standard input.
func SetStdin(s string) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(stop{"desync", err.Error()})
	}
	go func() { w.WriteString(s); w.Close() }()
	stdin = r
	os.Stdin = r
}

func capture() {
	r, w, err := os.Pipe()
	if err != nil {
		panic(stop{"desync", err.Error()})
	}
	outW = w
	outC = make(chan string, 1)
	os.Stdout = w
	c := outC
	go func() {
		var sb strings.Builder
		buf := make([]byte, 4096)
		for {
			n, err := r.Read(buf)
			sb.Write(buf[:n])
			if err != nil {
				break
			}
		}
		r.Close()
		c <- sb.String()
	}()
}

// TakeStdout returns and clears what was written to standard output.
func TakeStdout() string {
	outW.Close()
	s := <-outC
	capture()
	return s
}

// ListDir lists the regular files directly below d.
func ListDir(d string) []string {
	var out []string
	es, _ := os.ReadDir(d)
	for _, e := range es {
		if !e.IsDir() {
			out = append(out, e.Name())
		}
	}
	sort.Strings(out)
	return out
}

// Catch runs f and reports a panic.
func Catch(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			msg, panicked = fmt.Sprint(r), true
		}
	}()
	f()
	return "", false
}

// Request is one replay request; Result its outcome.
type Request struct {
	H    string            `json:"h"`
	In   []json.RawMessage `json:"in"`
	Tier int               `json:"tier"`
}

// Result of a replay.
type Result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg,omitempty"`
	Known  []string `json:"known,omitempty"`
	Covers []string `json:"covers,omitempty"`
}

// Replay runs f on concrete inputs.
func Replay(r Request, f func()) (res Result) {
	request, forks = r, 0
	in, pos, tier, known, covers, dir = r.In, 0, r.Tier, nil, map[string]bool{}, ""
	capture()
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				res.Status, res.Msg = s.kind, s.msg
			} else {
				res.Status, res.Msg = "panic", fmt.Sprint(r)
				st := strings.Split(string(debug.Stack()), "\n")
				for _, l := range st {
					if strings.Contains(l, "/edlisp") || strings.Contains(l, "texted") && !strings.Contains(l, "zzverif") {
						res.Msg += " | " + strings.TrimSpace(l)
						break
					}
				}
			}
		} else {
			res.Status = "ok"
		}
		FailWritesAfter(-1)
		os.Stdout = realOut
		os.Stdin = realIn
		outW.Close()
		<-outC
		if stdin != nil {
			stdin.Close()
			stdin = nil
		}
		res.Known = known
		for c := range covers {
			res.Covers = append(res.Covers, c)
		}
		sort.Strings(res.Covers)
		if dir != "" && strings.HasPrefix(filepath.Base(dir), "zv") {
			os.RemoveAll(dir)
		}
	}()
	f()
	return
}

// Serve answers replay requests read from a file, one JSON object per line.
func Serve(path string, hs map[string]func()) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, line := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var r Request
		if err := json.Unmarshal([]byte(line), &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		f := hs[r.H]
		var res Result
		if f == nil {
			res = Result{Status: "desync", Msg: "no harness " + r.H}
		} else {
			if res = Replay(r, f); res.Status == "respawn" {
				res = respawn(r)
			}
		}
		o, _ := json.Marshal(res)
		realOut.Write(append(o, '\n'))
	}
}
