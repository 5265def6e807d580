package cli

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

// Reads is how much a run read from files, by path relative to the directory.
func Reads(dir string, args ...string) (*Result, map[string]int64) {
	rep := filepath.Join(prop.Scratch(), "reads.txt")
	r, _ := Disturb(dir, []string{"-b", rep}, args...)
	b, err := os.ReadFile(rep)
	prop.Must(err)
	m := map[string]int64{}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.SplitN(l, " ", 2)
		if len(f) != 2 {
			continue
		}
		n, err := strconv.ParseInt(f[0], 10, 64)
		prop.Must(err)
		rel, err := filepath.Rel(dir, f[1])
		prop.Must(err)
		m[rel] += n
	}
	return r, m
}

func sum(m map[string]int64, name string, not bool) int64 {
	var n int64
	for k, v := range m {
		if (k == name) != not {
			n += v
		}
	}
	return n
}

func dirSize(dir string) int64 {
	var n int64
	prop.Must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			n += fi.Size()
		}
		return err
	}))
	return n
}

// shown makes local variables of the objects with long payloads.
func shown(w *model.World, seed uint64) {
	r := model.NewRng(seed)
	traces := map[uint32]*model.Trace{}
	for i := range w.Traces {
		traces[w.Traces[i].Thread] = &w.Traces[i]
	}
	type at struct{ thread, frame uint64 }
	var frames []at
	for _, root := range w.Roots {
		if root.Kind == model.RootThread {
			for k := range traces[uint32(root.A)].Frames {
				frames = append(frames, at{root.A, uint64(k)})
			}
		}
	}
	if len(frames) == 0 {
		return
	}
	for i := range w.Objs {
		if w.Objs[i].Zeros > 0 {
			f := frames[r.Intn(len(frames))]
			w.Roots = append(w.Roots, model.Root{Kind: []byte{model.RootJavaFrame, model.RootJNILocal}[r.Intn(2)], Obj: w.Objs[i].ID, A: f.thread, B: f.frame})
		}
	}
}

// someLocals makes local variables of any objects.
func someLocals(w *model.World, n int, seed uint64) {
	r := model.NewRng(seed)
	var roots []model.Root
	for _, t := range w.Roots {
		if t.Kind == model.RootThread {
			roots = append(roots, t)
		}
	}
	frames := map[uint32]int{}
	for i := range w.Traces {
		frames[w.Traces[i].Thread] = len(w.Traces[i].Frames)
	}
	for ; n > 0 && len(roots) > 0 && len(w.Objs) > 0; n-- {
		t := roots[r.Intn(len(roots))]
		if k := frames[uint32(t.A)]; k > 0 {
			w.Roots = append(w.Roots, model.Root{Kind: []byte{model.RootJavaFrame, model.RootJNILocal}[r.Intn(2)], Obj: w.Objs[r.Intn(len(w.Objs))].ID, A: t.A, B: uint64(r.Intn(k))})
		}
	}
}

// checkCost compares what runs read from a dump with what they read from the
// same dump without its weight.
func (x Huge) checkCost(c *prop.Ctx) error {
	x.W = x.W.Clone()
	someLocals(x.W, x.Locals, x.Gap)
	light := x
	light.Total = 0
	light.Arrays = append([]HugeArray(nil), x.Arrays...)
	for i := range light.Arrays {
		light.Arrays[i].N = 1
	}
	const slack = 256 << 10
	cost := func(name string, x Huge) (size, index, objs int64, first, later map[string]int64, e *Expected, err error) {
		w := x.world()
		shown(w, x.Gap)
		dir := filepath.Join(c.Dir(), name)
		prop.Must(os.Mkdir(dir, 0o755))
		size = WriteChunks(filepath.Join(dir, "h.hprof"), w.EncodeItems(w.Items(x.L), x.L))
		e = Expect(w)
		var r *Result
		r, first = Reads(dir, x.Cs[0].Args("h.hprof")...)
		if err = e.Check(x.Cs[0], r); err != nil {
			return
		}
		r, later = Reads(dir, x.Cs[0].Args("h.hprof")...)
		err = e.Check(x.Cs[0], r)
		c.Executions(2)
		return size, dirSize(dir) - size, int64(len(w.Objs)), first, later, e, err
	}
	size0, index0, objs0, first0, later0, _, err := cost("light", light)
	if err != nil {
		return err
	}
	size, index, objs, first, later, _, err := cost("heavy", x)
	if err != nil {
		return err
	}
	cmd := x.Cs[0]
	what := fmt.Sprintf("%v: dump of %d bytes and %d objects (without the others %d and %d)", cmd, size, objs, size0, objs0)
	n0, n := sum(first0, "h.hprof", false), sum(first, "h.hprof", false)
	if n > size+size/2+4*n0+slack {
		return fmt.Errorf("%s: analysing reads %d bytes of the dump (%d)", what, n, n0)
	}
	if index > 2*index0+64*(objs-objs0)+slack {
		return fmt.Errorf("%s: the index takes %d bytes (%d)", what, index, index0)
	}
	n0, n = sum(later0, "h.hprof", false), sum(later, "h.hprof", false)
	if n > 4*n0+(size-size0)/8+slack {
		return fmt.Errorf("%s: a report from the saved index reads %d bytes of the dump (%d)", what, n, n0)
	}
	// lookups are in a logarithmic number of steps, the rest does not grow
	n0, n = sum(later0, "h.hprof", true), sum(later, "h.hprof", true)
	if n > 12*n0+slack {
		return fmt.Errorf("%s: a report from the saved index of %d bytes (%d) reads %d bytes of it (%d)", what, index, index0, n, n0)
	}
	c.Nontrivial(size-size0 > 3<<20 && objs-objs0 > 10000)
	c.Class("%s", cmd.Name)
	c.ClassIf(x.W.IDSize == 4, "4-byte ids")
	c.Sample("%s; from the saved index: %d bytes of the dump and %d of %d bytes of the index are read", what, sum(later, "h.hprof", false), n, index)
	return nil
}

// Place is a way to name the dump.
type Place struct {
	Dir  string `json:"dir"`
	Name string `json:"name"`
	How  int    `json:"how"` // 0: relative, 1: with ./, 2: absolute, 3: through the parent, 4: a link to the file, 5: a link to the directory, 6: with // and /./, 7: up from a linked directory
}

// Places are commands naming the dump in some ways.
type Places struct {
	W     *model.World `json:"w"`
	L     model.Layout `json:"l"`
	Cs    []Cmd        `json:"cs"`
	At    []Place      `json:"at"`
	Write bool         `json:"write,omitempty"` // the file system becomes read-only after the first run
}

func genName(t *rapid.T, label string) string {
	if rapid.IntRange(0, 3).Draw(t, label+"Plain") == 0 {
		return rapid.SampledFrom([]string{"heap.hprof", "h", "java_pid1.hprof", "a.db", "dump.hprof.db", "x.tmp", "-x", "--", "h.hprof.1", ".hidden", "source.txt", "meta.bin", "incomplete-1"}).Draw(t, label)
	}
	s := rapid.StringOfN(rapid.RuneFrom([]rune("ab.- %*?$'\"\\&;<|(){}[]~#!=:,@^`+\n\téßЖ漢😀\u200b%")), 1, 20, 60).Draw(t, label)
	if s == "." || s == ".." {
		s += "x"
	}
	if rapid.IntRange(0, 7).Draw(t, label+"Long") == 0 {
		s = strings.Repeat("long", 30) + s
	}
	return s
}

func init() {
	prop.Add("C30", "cost", 64, 1600, func(t *rapid.T) Huge {
		x := Huge{W: genWorld(t, model.Opts{Small: rapid.Bool().Draw(t, "small"), SmallSizes: true, ForceLocals: true}), L: model.GenLayout(t)}
		x.L.Mix = min(x.L.Mix, 1)
		cmd := genCmd(t)
		if cmd.Name == "objects" && rapid.IntRange(0, 2).Draw(t, "less") > 0 {
			cmd = genCmd(t, "threads", "summary")
		}
		x.Cs = []Cmd{cmd}
		left := uint64(rapid.IntRange(4, 12).Draw(t, "megabytes")) << 20
		n := rapid.IntRange(1, 6).Draw(t, "arrays")
		for i := 0; i < n; i++ {
			a := HugeArray{Type: rapid.SampledFrom(append([]byte{model.TObject}, model.PrimTypes...)).Draw(t, "type"), Gap: rapid.Uint64().Draw(t, "gap")}
			size := left / uint64(n)
			a.N = uint32(size/uint64(model.TypeSize(a.Type, x.W.IDSize))) + 1
			x.Arrays = append(x.Arrays, a)
		}
		x.Bulk = rapid.SampledFrom([]byte{model.KInst, model.KObjA, model.KPrim}).Draw(t, "kind")
		x.Total = rapid.IntRange(40000, 400000).Draw(t, "objects")
		x.Gap = rapid.Uint64().Draw(t, "gap")
		x.Spread = rapid.IntRange(0, 2).Draw(t, "spread") > 0
		x.Locals = rapid.IntRange(0, 300).Draw(t, "locals")
		return x
	}, func(c *prop.Ctx, x Huge) error {
		return Guard(func() error { return x.checkCost(c) })
	})

	prop.Add("C31", "traces", 500, 9000, func(t *rapid.T) Places {
		x := Places{W: genWorld(t, model.Opts{Small: true}), L: model.GenLayout(t), Cs: genCmds(t, 2, 5)}
		for range x.Cs {
			x.At = append(x.At, Place{genName(t, "dir"), genName(t, "name"), rapid.IntRange(0, 7).Draw(t, "how")})
		}
		if rapid.IntRange(0, 2).Draw(t, "same") > 0 {
			// one dump
			for i := range x.At {
				x.At[i].Dir, x.At[i].Name = x.At[0].Dir, x.At[0].Name
				if h := x.At[i].How; h == 4 || h == 5 || h == 7 {
					x.At[i].How = x.At[0].How
				}
			}
		}
		x.Write = rapid.Bool().Draw(t, "readonly")
		return x
	}, func(c *prop.Ctx, x Places) error {
		return Guard(func() error { return x.check(c) })
	})

	prop.Add("C31", "failing", 400, 7000, func(t *rapid.T) Troubled {
		x := genTroubled(t)
		x.Spoil = rapid.IntRange(0, 10).Draw(t, "spoil")
		return x
	}, func(c *prop.Ctx, x Troubled) error {
		return Guard(func() error {
			d := filepath.Join(c.Dir(), "r")
			prop.Must(os.Mkdir(d, 0o755))
			b := x.spoilt().Encode(x.L)
			r := model.NewRng(x.X)
			name := "h.hprof"
			switch x.Spoil {
			case 7:
				b = b[:r.Intn(len(b))]
			case 8:
				b = b[:len(b)-1-r.Intn(min(len(b)-1, 40))]
			case 9:
				b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
			case 10:
				name = "missing.hprof"
			}
			Write(d, "h.hprof", b)
			Write(d, "h.hprof.err", []byte("neighbour"))
			prop.Must(os.Mkdir(filepath.Join(d, "logs"), 0o755))
			before := Tree(d)
			sets := map[bool]string{}
			failed, done := 0, false
			for i := range x.Cs {
				res := x.run(i, d, name)
				c.Executions(1)
				if err := crashed(res); err != nil {
					return err
				}
				after := Tree(d)
				for p, v := range before {
					if after[p] != v {
						return fmt.Errorf("%v changes or removes %q: %s, was %s", res, p, after[p], v)
					}
				}
				var own []string
				for p := range after {
					if _, ok := before[p]; ok {
						continue
					}
					if p != name+".db" && !strings.HasPrefix(p, name+".db/") {
						return fmt.Errorf("%v leaves %q", res, p)
					}
					own = append(own, p)
				}
				if res.Code != 0 {
					failed++
				}
				sort.Strings(own)
				set := strings.Join(own, ", ")
				done = done || res.Code == 0
				// nothing comes to what the first run of the kind has left
				if len(own) > 0 {
					if was, ok := sets[done]; ok && was != set {
						return fmt.Errorf("%v leaves the index %s, it was %s", res, set, was)
					}
					sets[done] = set
				}
			}
			c.Nontrivial(failed > 0)
			c.Class("spoilt in way %d", x.Spoil)
			c.Sample("%s; spoilt %d; %v %v", describe(x.W, x.L), x.Spoil, x.Cs, x.How)
			return nil
		})
	})

	prop.Add("C32", "surroundings", 1300, 20000, func(t *rapid.T) Surrounded {
		x := Surrounded{W: genWorld(t, model.Opts{Small: rapid.IntRange(0, 2).Draw(t, "small") > 0, AnyText: true}), L: model.GenLayout(t), C: genCmd(t)}
		x.C.Progress = rapid.IntRange(0, 11).Draw(t, "progress") == 0
		n := rapid.IntRange(1, 3).Draw(t, "runs")
		for i := 0; i < n; i++ {
			x.At = append(x.At, genSurroundings(t))
		}
		return x
	}, func(c *prop.Ctx, x Surrounded) error {
		return Guard(func() error { return x.check(c) })
	})
}

// check runs the commands and watches the files.
func (x Places) check(c *prop.Ctx) error {
	root := filepath.Join(c.Dir(), "r")
	work := filepath.Join(root, "work")
	prop.Must(os.MkdirAll(work, 0o755))
	prop.Must(os.Mkdir(filepath.Join(root, "tmp"), 0o755))
	b := x.W.Encode(x.L)
	e := Expect(x.W)
	var index map[string]string
	seen := map[string]bool{}
	nothing := 0
	for i, cmd := range x.Cs {
		at := x.At[i]
		dir := filepath.Join(work, at.Dir)
		prop.Must(os.MkdirAll(dir, 0o755))
		file := filepath.Join(dir, at.Name)
		if fi, err := os.Lstat(file); err == nil && fi.IsDir() {
			continue
		}
		if err := os.WriteFile(file, b, 0o644); err != nil {
			continue // the name is taken or does not fit
		}
		setTime(file, 20000*day)
		// neighbours with similar names
		for k, s := range []string{".dbx", ".d", ".db~", "1", ".db.lock", ".tmp"} {
			n := file + s
			if _, err := os.Lstat(n); err != nil && (k+i)%3 == 0 {
				prop.Must(os.WriteFile(n, []byte("neighbour"), 0o600))
				setTime(n, 19000*day)
			}
		}
		link := filepath.Join(root, "link")
		arg, cwd, key := at.Name, dir, file
		switch at.How {
		case 1:
			arg = "./" + at.Name
		case 2:
			arg = file
		case 3:
			arg = filepath.Join("..", at.Dir, at.Name)
		case 4:
			os.Remove(link)
			prop.Must(os.Symlink(file, link))
			arg, cwd, key = "link", root, link
		case 5:
			os.Remove(link)
			prop.Must(os.Symlink(dir, link))
			arg, cwd = filepath.Join("link", at.Name), root
		case 7:
			sub := filepath.Join(dir, "a directory in it")
			if err := os.Mkdir(sub, 0o755); err != nil && !os.IsExist(err) {
				prop.Broken("%v", err)
			}
			os.Remove(link)
			prop.Must(os.Symlink(sub, link))
			arg, cwd = "link/../"+at.Name, root
		case 6:
			arg = strings.ReplaceAll(file, "/", "//./")
		}
		db := key + ".db"
		if fi, err := os.Lstat(db); err == nil && !fi.IsDir() {
			continue // the name is taken
		}
		if key == link {
			// another dump may have been there
			if seen[db] {
				prop.Must(os.RemoveAll(db))
				delete(seen, db)
			}
		}
		before := Tree(root)
		var opts []string
		if seen[db] && x.Write {
			opts = append(opts, "-m", "failwrites", "-n", "0", "-e", strconv.Itoa(int(syscall.EROFS)))
			c.Class("read-only file system")
		}
		r, calls := disturbIn(cwd, "", opts, append([]string{Bin()}, cmd.Args(arg)...)...)
		c.Executions(1)
		what := fmt.Sprintf("%v in %s", r.Args, cwd)
		if err := e.Check(cmd, r); err != nil {
			if seen[db] && x.Write {
				return fmt.Errorf("an analysed dump on a read-only file system: %w", err)
			}
			return err
		}
		relDB, _ := filepath.Rel(root, db)
		inDB := func(p string) bool { return p == relDB || strings.HasPrefix(p, relDB+"/") }
		after := Tree(root)
		for p, v := range before {
			now, ok := after[p]
			if inDB(p) && !seen[db] {
				continue
			}
			if !ok {
				return fmt.Errorf("%s removes %q", what, p)
			}
			if now != v {
				return fmt.Errorf("%s changes %q: %s, was %s", what, p, now, v)
			}
		}
		got := map[string]string{}
		for p, v := range after {
			if _, ok := before[p]; !ok && (!inDB(p) || seen[db]) {
				return fmt.Errorf("%s leaves %q", what, p)
			}
			if inDB(p) {
				f := strings.Fields(v)
				got[p[len(relDB):]] = f[0]
			}
		}
		if index == nil {
			index = got
		}
		if a, b := names(index), names(got); a != b {
			return fmt.Errorf("%s leaves the index %s, others are %s", what, b, a)
		}
		for _, call := range calls {
			if !call.Changes {
				continue
			}
			// devices and what belongs to no directory are not files
			if strings.HasPrefix(call.Path, "/dev/") || strings.HasPrefix(call.Path, "/proc/") {
				continue
			}
			if seen[db] {
				return fmt.Errorf("%s: the dump is analysed already, yet %s %s", what, call.Name, call.Path)
			}
			for _, p := range strings.Split(call.Path, " -> ") {
				p = strings.ReplaceAll(physical(p), "\n", "?")
				own := strings.ReplaceAll(db, "\n", "?")
				if p != own && !strings.HasPrefix(p, own+"/") {
					return fmt.Errorf("%s: %s %s is outside of the index", what, call.Name, call.Path)
				}
			}
		}
		if seen[db] {
			nothing++
		}
		seen[db] = true
		c.Class("named in way %d", at.How)
	}
	c.Nontrivial(len(seen) > 0 && nothing > 0)
	c.Sample("%s; %v %+v", describe(x.W, x.L), x.Cs, x.At)
	return nil
}

// physical is the path without links to directories, . and ..
func physical(p string) string {
	cur := "/"
	parts := strings.Split(p, "/")
	for i, s := range parts {
		switch s {
		case "", ".":
		case "..":
			cur = filepath.Dir(cur)
		default:
			cur = filepath.Join(cur, s)
			if to, err := filepath.EvalSymlinks(cur); err == nil && i < len(parts)-1 {
				cur = to
			}
		}
	}
	return cur
}

func names(m map[string]string) string {
	var s []string
	for k, v := range m {
		s = append(s, k+" "+v)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// Surroundings are what a run gets from its parent.
type Surroundings struct {
	Env    []string `json:"env,omitempty"`
	Stdin  int      `json:"in,omitempty"`  // 0: /dev/null, 1: closed, 2: pipe, 3: terminal, 4: file
	Stdout int      `json:"out,omitempty"` // 0: pipe, 1: file, 2: terminal, 3: file appended, 4: slow reader
	Stderr int      `json:"err,omitempty"` // 0: pipe, 1: file, 2: terminal, 3: closed, 4: full
	Umask  int      `json:"umask,omitempty"`
	Cwd    int      `json:"cwd,omitempty"` // 0: of the dump, 1: the root, 2: another one, 3: removed
	Saved  bool     `json:"saved,omitempty"`
}

// Surrounded is a command run in different surroundings.
type Surrounded struct {
	W  *model.World   `json:"w"`
	L  model.Layout   `json:"l"`
	C  Cmd            `json:"c"`
	At []Surroundings `json:"at"`
}

var variables = map[string][]string{
	"LANG":            {"C", "en_US.UTF-8", "de_DE.ISO-8859-1", "tr_TR.UTF-8", "ja_JP.eucJP", ""},
	"LC_ALL":          {"C", "POSIX", "en_US.UTF-8", "tr_TR", "ru_RU.KOI8-R"},
	"LC_NUMERIC":      {"de_DE.UTF-8", "C"},
	"LC_COLLATE":      {"de_DE.UTF-8", "C"},
	"TZ":              {"UTC", "America/New_York", "Asia/Kathmandu", "XXX+25", "Pacific/Kiritimati", ":/nowhere", ""},
	"TERM":            {"dumb", "xterm-256color", "linux", ""},
	"COLORTERM":       {"truecolor"},
	"NO_COLOR":        {"1", ""},
	"CLICOLOR":        {"0"},
	"CLICOLOR_FORCE":  {"1"},
	"FORCE_COLOR":     {"1"},
	"COLUMNS":         {"10", "80", "200", "0"},
	"LINES":           {"5"},
	"PAGER":           {"less"},
	"CI":              {"true"},
	"DEBUG":           {"1", "*"},
	"VERBOSE":         {"1"},
	"NEOJHAT_DEBUG":   {"1"},
	"HOME":            {"", "/nonexistent"},
	"USER":            {"", "nobody"},
	"PWD":             {"/nonexistent", "/"},
	"TMPDIR":          {"/nonexistent", ""},
	"XDG_CACHE_HOME":  {"/nonexistent"},
	"JAVA_HOME":       {"/nonexistent"},
	"GOMAXPROCS":      {"1", "2", "16"},
	"GOGC":            {"1", "off", "400"},
	"GOMEMLIMIT":      {"64MiB"},
	"GOTRACEBACK":     {"all", "none"},
	"POSIXLY_CORRECT": {"1"},
}

func genSurroundings(t *rapid.T) Surroundings {
	var keys []string
	for k := range variables {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := Surroundings{Cwd: rapid.IntRange(0, 3).Draw(t, "cwd"), Saved: rapid.Bool().Draw(t, "saved")}
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(keys), 0, 6, rapid.ID).Draw(t, "variables") {
		s.Env = append(s.Env, k+"="+rapid.SampledFrom(variables[k]).Draw(t, k))
	}
	if rapid.IntRange(0, 2).Draw(t, "otherClock") > 0 {
		// clocks of these places have been changed many times
		s.Env = append(s.Env, "TZ="+rapid.SampledFrom([]string{"America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "America/Sao_Paulo",
			"Africa/Casablanca", "EST5EDT", "EST5EDT,M3.2.0,M11.1.0", "Asia/Tehran", "Pacific/Apia"}).Draw(t, "clock"))
	}
	pick := func(label string, n int) int {
		if rapid.Bool().Draw(t, label+"Plain") {
			return 0
		}
		return rapid.IntRange(0, n).Draw(t, label)
	}
	s.Stdin, s.Stdout, s.Stderr = pick("stdin", 4), pick("stdout", 4), pick("stderr", 4)
	s.Umask = rapid.SampledFrom([]int{-1, -1, 0, 0o22, 0o27, 0o77}).Draw(t, "umask")
	return s
}

// terminal opens both ends of a new terminal that changes nothing.
func terminal() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(f *os.File, req uintptr, p unsafe.Pointer) error {
		c, err := f.SyscallConn()
		if err != nil {
			return err
		}
		var e syscall.Errno
		err = c.Control(func(fd uintptr) { _, _, e = syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)) })
		if err == nil && e != 0 {
			err = e
		}
		return err
	}
	var n, unlock int32
	if err = ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err == nil {
		err = ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	}
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	var tio syscall.Termios
	if err == nil {
		err = ioctl(slave, syscall.TCGETS, unsafe.Pointer(&tio))
	}
	if err == nil {
		tio.Oflag &^= syscall.OPOST
		tio.Lflag &^= syscall.ECHO
		err = ioctl(slave, syscall.TCSETS, unsafe.Pointer(&tio))
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

// run runs the tool in the surroundings; nil if they can not be had here.
func (s Surroundings) run(dir string, cmd Cmd) *Result {
	for _, limit := range limits {
		if r, done := s.runOnce(dir, limit, cmd); done {
			return r
		}
	}
	panic(hangPanic{prop.Hang{What: fmt.Sprintf("neojhat %v in %+v did not finish in %v", cmd, s, limits[len(limits)-1])}})
}

func (s Surroundings) runOnce(dir string, limit time.Duration, cmd Cmd) (*Result, bool) {
	args := cmd.Args(filepath.Join(dir, "h.hprof"))
	cwd := dir
	switch s.Cwd {
	case 0:
		args = cmd.Args("h.hprof")
	case 1:
		cwd = "/"
	case 2, 3:
		cwd = filepath.Join(dir, "other")
		prop.Must(os.MkdirAll(cwd, 0o755))
	}
	script := `exec "$@"`
	if s.Umask >= 0 {
		script = fmt.Sprintf("umask %04o; ", s.Umask) + script
	}
	if s.Cwd == 3 {
		script = `rmdir "$0"; ` + script
	}
	if s.Stdin == 1 {
		script += " <&-"
	}
	if s.Stderr == 3 {
		script += " 2>&-"
	}
	zero := "sh"
	if s.Cwd == 3 {
		zero = cwd
	}
	// the shell changes some variables by itself, so they are set after it
	argv := append([]string{"-c", script, zero, "/usr/bin/env", "-i", "PATH=/usr/bin:/bin", "HOME=" + dir}, s.Env...)
	p := exec.Command("/bin/sh", append(append(argv, Bin()), args...)...)
	p.Dir = cwd
	var toClose []*os.File
	defer func() {
		for _, f := range toClose {
			f.Close()
		}
	}()
	open := func(f *os.File, err error) *os.File {
		prop.Must(err)
		toClose = append(toClose, f)
		return f
	}
	scratch := prop.Scratch()
	stop := make(chan bool, 4)
	readers := 0
	// reader collects what comes from the file
	reader := func(f *os.File, into *bytes.Buffer, slow bool) {
		readers++
		go func() {
			chunk := make([]byte, 1000)
			for {
				n, err := f.Read(chunk)
				into.Write(chunk[:n])
				if err != nil {
					break
				}
				if slow && into.Len() < 200000 {
					time.Sleep(100 * time.Microsecond)
				}
			}
			stop <- true
		}()
	}
	var out, errb bytes.Buffer
	var outFile, errFile string
	var ends []*os.File // closed after the start
	switch s.Stdin {
	case 2:
		r, w, err := os.Pipe()
		open(r, err)
		open(w, err)
		p.Stdin = r
	case 3:
		m, sl, err := terminal()
		if err != nil {
			return nil, true
		}
		open(m, nil)
		p.Stdin = open(sl, nil)
	case 4:
		f := filepath.Join(scratch, "input")
		prop.Must(os.WriteFile(f, []byte("summary\n-all-props\ny\n"), 0o600))
		p.Stdin = open(os.Open(f))
	}
	pipe := func(into *bytes.Buffer, slow bool) *os.File {
		r, w, err := os.Pipe()
		open(r, err)
		ends = append(ends, w)
		reader(r, into, slow)
		return w
	}
	tty := func(into *bytes.Buffer) *os.File {
		m, sl, err := terminal()
		if err != nil {
			return nil
		}
		open(m, nil)
		ends = append(ends, sl)
		reader(m, into, false)
		return sl
	}
	switch s.Stdout {
	case 0, 4:
		p.Stdout = pipe(&out, s.Stdout == 4)
	case 1, 3:
		outFile = filepath.Join(scratch, "output")
		prop.Must(os.WriteFile(outFile, nil, 0o600))
		fl := os.O_WRONLY
		if s.Stdout == 3 {
			fl |= os.O_APPEND
		}
		p.Stdout = open(os.OpenFile(outFile, fl, 0))
	case 2:
		f := tty(&out)
		if f == nil {
			return nil, true
		}
		p.Stdout = f
	}
	switch s.Stderr {
	case 0, 3:
		p.Stderr = pipe(&errb, false)
	case 1:
		errFile = filepath.Join(scratch, "errors")
		prop.Must(os.WriteFile(errFile, nil, 0o600))
		p.Stderr = open(os.OpenFile(errFile, os.O_WRONLY, 0))
	case 2:
		f := tty(&errb)
		if f == nil {
			return nil, true
		}
		p.Stderr = f
	case 4:
		p.Stderr = open(os.OpenFile("/dev/full", os.O_WRONLY, 0))
	}
	prop.Must(p.Start())
	for _, f := range ends {
		f.Close()
	}
	late := false
	timer := time.AfterFunc(limit, func() { late = true; p.Process.Kill() })
	err := p.Wait()
	timer.Stop()
	for i := 0; i < readers; i++ {
		<-stop
	}
	if late {
		return nil, false
	}
	r := &Result{Args: append([]string{fmt.Sprintf("%+v", s)}, args...)}
	if _, isExit := err.(*exec.ExitError); err != nil && !isExit {
		prop.Broken("%v", err)
	}
	ws := p.ProcessState.Sys().(syscall.WaitStatus)
	r.Code = p.ProcessState.ExitCode()
	if ws.Signaled() {
		r.Signal = ws.Signal()
		if r.Signal == syscall.SIGKILL {
			prop.Broken("killed: %v", r)
		}
	}
	if outFile != "" {
		f := open(os.Open(outFile))
		_, err := io.Copy(&out, f)
		prop.Must(err)
	}
	if errFile != "" {
		f := open(os.Open(errFile))
		_, err := io.Copy(&errb, f)
		prop.Must(err)
	}
	r.Out, r.Err = out.String(), errb.String()
	return r, true
}

func (x Surrounded) check(c *prop.Ctx) error {
	d := c.Dir()
	plain := filepath.Join(d, "plain")
	prop.Must(os.Mkdir(plain, 0o755))
	b := x.W.Encode(x.L)
	Write(plain, "h.hprof", b)
	quiet := x.C
	quiet.Progress = false
	ref := Run(plain, quiet.Args("h.hprof")...)
	c.Executions(1)
	if err := Expect(x.W).Check(x.C, ref); err != nil {
		return err
	}
	other := filepath.Join(d, "around")
	for _, s := range x.At {
		if !s.Saved {
			prop.Must(os.RemoveAll(other))
		}
		if _, err := os.Stat(other); err != nil {
			prop.Must(os.Mkdir(other, 0o755))
			Write(other, "h.hprof", b)
		}
		r := s.run(other, x.C)
		c.Executions(1)
		if r == nil {
			c.Class("no terminals here")
			continue
		}
		if r.Code != 0 || r.Out != ref.Out {
			return fmt.Errorf("the report depends on the surroundings %s: %v", firstDiff(ref.Out, r.Out), r)
		}
		if r.Err != "" && !x.C.Progress {
			return fmt.Errorf("messages with the report: %v", r)
		}
		c.Class("stdin %d", s.Stdin)
		c.Class("stdout %d", s.Stdout)
		c.Class("stderr %d", s.Stderr)
		c.Class("directory %d", s.Cwd)
		c.ClassIf(len(s.Env) > 0, "variables")
	}
	c.Nontrivial(len(ref.Out) > 100)
	c.Sample("%s; %v %+v", describe(x.W, x.L), x.C, x.At)
	return nil
}
