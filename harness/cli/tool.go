// Package cli checks the neojhat command as users run it.
package cli

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/model"
	"verif/prop"
)

// Result of a run of the tool.
type Result struct {
	Args     []string
	Out, Err string
	Code     int // exit code, -1 if killed by a signal
	Signal   syscall.Signal
	MaxRSS   int64 // KiB, of RunMeasured
}

func (r *Result) String() string {
	return fmt.Sprintf("neojhat %q: exit code %d signal %d, stdout %q, stderr %q", r.Args, r.Code, int(r.Signal), head(r.Out), head(r.Err))
}

func head(s string) string {
	if len(s) > 400 {
		return s[:200] + " ... " + s[len(s)-200:]
	}
	return s
}

// Bin is the tool built from the tree under test.
func Bin() string {
	b := os.Getenv("VERIF_BIN")
	if b == "" {
		prop.Broken("VERIF_BIN is not set")
	}
	return b
}

// limits of a single run: the tool takes milliseconds
var limits = []time.Duration{40 * time.Second, 150 * time.Second}

// Run runs the tool in the directory. A run that does not end in time is
// repeated with more time, then it counts as a hang.
func Run(dir string, args ...string) *Result {
	return RunCmd(dir, Bin(), args...)
}

// measure runs the tool from a small process: the kernel counts the memory of
// the process that starts a program as used by the program.
const measure = `import resource, subprocess, sys
code = subprocess.call(sys.argv[2:])
with open(sys.argv[1], "w") as f:
    f.write(str(resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss))
sys.exit(code if code >= 0 else 125)
`

// RunMeasured runs the tool and measures its memory.
func RunMeasured(dir string, args ...string) *Result {
	out := filepath.Join(prop.Scratch(), "rss")
	r := RunCmd(dir, "/usr/bin/python3", append([]string{"-c", measure, out, Bin()}, args...)...)
	b, err := os.ReadFile(out)
	prop.Must(err)
	r.MaxRSS, err = strconv.ParseInt(string(b), 10, 64)
	prop.Must(err)
	if r.Code == 125 {
		r.Code = -1
	}
	r.Args = args
	return r
}

// RunAll runs commands at the same time, the result has their order.
func RunAll(n int, f func(i int) *Result) []*Result {
	rs := make([]*Result, n)
	ps := make([]any, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { ps[i] = recover() }()
			rs[i] = f(i)
		}(i)
	}
	wg.Wait()
	for _, p := range ps {
		if p != nil {
			panic(p)
		}
	}
	return rs
}

// Call is a system call of a disturbed run.
type Call struct {
	N       int
	Name    string
	Path    string
	Changes bool
	Hit     bool
}

// Disturb runs the tool under faultrun. Only files below dir count.
func Disturb(dir string, opts []string, args ...string) (*Result, []Call) {
	return disturb(dir, opts, append([]string{Bin()}, args...)...)
}

// DisturbTo is the same with standard output going to out.txt.
func DisturbTo(dir string, opts []string, args ...string) (*Result, []Call) {
	return disturb(dir, opts, append([]string{"/bin/sh", "-c", `exec "$0" "$@" > "$OUT"`, Bin()}, args...)...)
}

func disturb(dir string, opts []string, args ...string) (*Result, []Call) {
	return disturbIn(dir, dir, opts, args...)
}

// disturbIn runs a program under faultrun in a directory, files below the other
// directory count.
func disturbIn(cwd, dir string, opts []string, args ...string) (*Result, []Call) {
	bin := os.Getenv("VERIF_FAULTRUN")
	if bin == "" {
		prop.Broken("VERIF_FAULTRUN is not set")
	}
	rep := filepath.Join(prop.Scratch(), "faults.txt")
	a := append([]string{"-d", dir, "-o", rep}, opts...)
	a = append(a, "--")
	a = append(a, args...)
	r := RunCmd(cwd, bin, a...)
	if r.Code == 125 {
		prop.Broken("faultrun: %s", r.Err)
	}
	b, err := os.ReadFile(rep)
	prop.Must(err)
	ls := strings.Split(strings.TrimSpace(string(b)), "\n")
	if !strings.HasPrefix(ls[len(ls)-1], "end ") {
		prop.Broken("faultrun report is not complete: %q", b)
	}
	var calls []Call
	for _, l := range ls[:len(ls)-1] {
		c := Call{}
		if strings.HasSuffix(l, " hit") {
			c.Hit = true
			l = l[:len(l)-4]
		}
		if strings.HasSuffix(l, " changes") {
			c.Changes = true
			l = l[:len(l)-8]
		}
		f := strings.SplitN(l, " ", 3)
		c.N, err = strconv.Atoi(f[0])
		prop.Must(err)
		c.Name, c.Path = f[1], f[2]
		calls = append(calls, c)
	}
	return r, calls
}

// Tree lists all files below the directory with their sizes and contents.
func Tree(dir string) map[string]string {
	m := map[string]string{}
	prop.Must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		m[rel] = fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[rel] += fmt.Sprintf(" %d %x %d", fi.Size(), sha256.Sum256(b), fi.ModTime().UnixNano())
		}
		return nil
	}))
	return m
}

type hangPanic struct{ prop.Hang }

// RunCmd runs any command like Run.
func RunCmd(dir, bin string, args ...string) *Result {
	for _, limit := range limits {
		if r := runOnce(dir, limit, bin, args...); r != nil {
			return r
		}
	}
	panic(hangPanic{prop.Hang{What: fmt.Sprintf("neojhat %q did not finish in %v", args, limits[len(limits)-1])}})
}

func runOnce(dir string, limit time.Duration, bin string, args ...string) *Result {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "OUT=" + filepath.Join(dir, "out.txt")}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil
	}
	r := &Result{Args: args, Out: out.String(), Err: errb.String()}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		prop.Broken("%v", err)
	}
	st := cmd.ProcessState
	ws := st.Sys().(syscall.WaitStatus)
	r.Code = st.ExitCode()
	if ws.Signaled() {
		r.Signal = ws.Signal()
		if r.Signal == syscall.SIGKILL {
			// the machine is short of memory, nothing is known about the tool
			prop.Broken("killed: %v", r)
		}
	}
	return r
}

// Guard makes an error of a hang.
func Guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			h, ok := p.(hangPanic)
			if !ok {
				panic(p)
			}
			err = h.Hang
		}
	}()
	return f()
}

// Write stores the dump in the directory.
func Write(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	prop.Must(os.WriteFile(p, b, 0o644))
	return p
}

// WriteChunks stores a dump with long runs of zeros as a sparse file.
func WriteChunks(path string, cs []model.Chunk) int64 {
	f, err := os.Create(path)
	prop.Must(err)
	var pos int64
	for _, c := range cs {
		_, err := f.WriteAt(c.B, pos)
		prop.Must(err)
		pos += int64(len(c.B)) + int64(c.Pad)
	}
	prop.Must(f.Truncate(pos))
	prop.Must(f.Close())
	return pos
}

// ok checks that the run succeeded. Nothing but the report is printed without
// the progress display.
func ok(r *Result) error {
	if r.Code != 0 {
		return fmt.Errorf("unexpected failure: %v", r)
	}
	return nil
}

// refused checks that the run failed in an orderly way.
func refused(r *Result) error {
	if err := crashed(r); err != nil {
		return err
	}
	if r.Code == 0 {
		return fmt.Errorf("expected an error and non-zero exit code: %v", r)
	}
	if strings.TrimSpace(r.Out)+strings.TrimSpace(r.Err) == "" {
		return fmt.Errorf("no error message: %v", r)
	}
	if looksLikeReport(r.Out) {
		return fmt.Errorf("a report is printed together with an error: %v", r)
	}
	return nil
}

func looksLikeReport(out string) bool {
	for _, mark := range []string{"- Environment", "Instances: ", "Total Size: ", ", prio=", "<html", "- Heap"} {
		if strings.Contains(out, mark) {
			return true
		}
	}
	return false
}

// crashed tells about runtime failures.
func crashed(r *Result) error {
	if r.Code == 2 && strings.Contains(r.Err, "goroutine ") || r.Code < 0 || strings.Contains(r.Err, "panic: ") || strings.Contains(r.Err, "fatal error: ") {
		return fmt.Errorf("crash: %v", r)
	}
	return nil
}

// Cmd is a command with flags.
type Cmd struct {
	Name     string `json:"n"`
	Color    bool   `json:"c,omitempty"`
	HTML     bool   `json:"h,omitempty"`
	Locals   bool   `json:"l,omitempty"`
	AllProps bool   `json:"p,omitempty"`
	BySize   bool   `json:"s,omitempty"`
	Progress bool   `json:"i,omitempty"`
}

// Args is the command line.
func (c Cmd) Args(dump string) []string {
	a := []string{c.Name, "-hprof", dump}
	if !c.Color {
		a = append(a, "-no-color")
	}
	if !c.Progress {
		a = append(a, "-non-interactive")
	}
	if c.HTML {
		a = append(a, "-output", "html")
	}
	switch c.Name {
	case "threads":
		if c.Locals {
			a = append(a, "-local-vars")
		}
	case "summary":
		if c.AllProps {
			a = append(a, "-all-props")
		}
	case "objects":
		if c.BySize {
			a = append(a, "-sort-by", "size")
		}
	}
	return a
}

// Expected is the content of all the reports of a dump.
type Expected struct {
	Threads   []model.ThreadText
	Histogram model.Histogram
	Summary   model.Summary
}

// Expect computes reports from the model.
func Expect(w *model.World) *Expected {
	return &Expected{w.Threads(), w.Histogram(), w.Summary()}
}

// Check compares a successful run with the expected content.
func (e *Expected) Check(c Cmd, r *Result) error {
	if err := ok(r); err != nil {
		return err
	}
	if err := e.content(c, r.Out); err != nil {
		return fmt.Errorf("%v: %w", r.Args, err)
	}
	return nil
}

func (e *Expected) content(c Cmd, out string) error {
	if c.HTML {
		switch c.Name {
		case "threads":
			ls, err := model.ThreadsHTML(out)
			if err != nil {
				return err
			}
			return model.CompareThreads(ls, e.Threads, c.Locals)
		case "summary":
			ss, err := model.SummaryHTML(out)
			if err != nil {
				return err
			}
			return model.CompareSummarySections(ss, e.Summary, c.AllProps)
		default:
			o, err := model.ObjectsHTML(out)
			if err != nil {
				return err
			}
			return model.CompareObjects(o, e.Histogram, c.sort())
		}
	}
	if c.Color {
		out = model.StripColors(out)
	}
	switch c.Name {
	case "threads":
		return model.CompareThreads(model.Lines(out), e.Threads, c.Locals)
	case "summary":
		return model.CompareSummaryPlain(out, e.Summary, c.AllProps)
	default:
		o, err := model.ParseObjectsPlain(out)
		if err != nil {
			return err
		}
		return model.CompareObjects(o, e.Histogram, c.sort())
	}
}

func (c Cmd) sort() string {
	if c.BySize {
		return "size"
	}
	return "count"
}
