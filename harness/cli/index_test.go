package cli

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

// Private is a command run with a mask of permissions over a dump with some.
type Private struct {
	W      *model.World `json:"w"`
	L      model.Layout `json:"l"`
	Prev   *model.World `json:"prev,omitempty"`
	Cs     []Cmd        `json:"cs"`
	Umask  int          `json:"umask"`
	Mode   uint32       `json:"mode"`             // of the dump
	Dir    uint32       `json:"dir"`              // of its directory
	Place  int          `json:"place,omitempty"`  // 0: no index directory, 1: an open one, 2: one with files anybody may read
	Points int          `json:"points,omitempty"` // how many times a run is looked at in the middle
	X      uint64       `json:"x,omitempty"`
}

// exposed lists files of the directory that others than the owner can read or
// write: a file can be reached if all directories on the way can be passed.
func exposed(dir string) string {
	var bad []string
	var walk func(p string, pass os.FileMode)
	walk = func(p string, pass os.FileMode) {
		fi, err := os.Lstat(p)
		if err != nil {
			return // gone meanwhile
		}
		m := fi.Mode().Perm()
		switch {
		case fi.IsDir():
			es, _ := os.ReadDir(p)
			for _, e := range es {
				walk(filepath.Join(p, e.Name()), pass&m)
			}
		case fi.Mode().IsRegular():
			if pass&0o010 != 0 && m&0o060 != 0 || pass&0o001 != 0 && m&0o006 != 0 {
				bad = append(bad, fmt.Sprintf("%s %v", p, m))
			}
		}
	}
	walk(dir, 0o011)
	return strings.Join(bad, ", ")
}

func (x Private) check(c *prop.Ctx) error {
	d := filepath.Join(c.Dir(), "dir")
	prop.Must(os.Mkdir(d, 0o700))
	p := filepath.Join(d, "h.hprof")
	if x.Prev != nil {
		Write(d, "h.hprof", x.Prev.Encode(x.L))
		setTime(p, 20000*day)
		if err := ok(Run(d, Cmd{Name: "objects"}.Args("h.hprof")...)); err != nil {
			return err
		}
	}
	Write(d, "h.hprof", x.W.Encode(x.L))
	setTime(p, 20001*day)
	prop.Must(os.Chmod(p, os.FileMode(x.Mode)))
	prop.Must(os.Chmod(d, os.FileMode(x.Dir)))
	db := p + ".db"
	if x.Place > 0 {
		if err := os.MkdirAll(db, 0o777); err != nil {
			prop.Broken("%v", err)
		}
		prop.Must(os.Chmod(db, 0o777))
	}
	if x.Place > 1 {
		for _, n := range []string{"meta.bin", "small-records.bin", "instance-dump.idx.bin", "source.txt", "notes"} {
			q := filepath.Join(db, n)
			if _, err := os.Stat(q); err != nil {
				prop.Must(os.WriteFile(q, []byte("nothing\n"), 0o600))
			}
			if n != "notes" {
				prop.Must(os.Chmod(q, 0o666))
			}
		}
	}
	state := filepath.Join(c.Dir(), "state")
	clone := func(to, from string) {
		prop.Must(os.RemoveAll(to))
		if r := RunCmd(c.Dir(), "/bin/cp", "-a", from, to); r.Code != 0 {
			prop.Broken("%v", r)
		}
	}
	clone(state, d)
	e := Expect(x.W)
	masked := func(cmd Cmd) []string {
		return append([]string{"-c", fmt.Sprintf(`umask %04o; exec "$0" "$@"`, x.Umask), Bin()}, cmd.Args(p)...)
	}
	for i, cmd := range x.Cs {
		what := fmt.Sprintf("%v with umask %04o, dump %04o in %04o, place %d", cmd, x.Umask, x.Mode, x.Dir, x.Place)
		r := RunCmd(d, "/bin/sh", masked(cmd)...)
		c.Executions(1)
		if err := e.Check(cmd, r); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if s := exposed(db); s != "" {
			return fmt.Errorf("%s: others can get at %s after run %d", what, s, i)
		}
	}
	// in the middle of a run
	seen := 0
	if x.Points > 0 {
		r, calls := disturb(d, nil, append([]string{"/bin/sh"}, masked(x.Cs[0])...)...)
		if err := e.Check(x.Cs[0], r); err != nil {
			return err
		}
		clone(d, state)
		r, calls = disturb(d, nil, append([]string{"/bin/sh"}, masked(x.Cs[0])...)...)
		c.Executions(2)
		if err := e.Check(x.Cs[0], r); err != nil {
			return err
		}
		rng := model.NewRng(x.X)
		var at []int
		for _, n := range points(calls, rng, 1) {
			at = append(at, n)
		}
		for k := 0; k < x.Points && len(at) > 0; k++ {
			n := at[rng.Intn(len(at))]
			clone(d, state)
			snap := filepath.Join(c.Dir(), "snap")
			prop.Must(os.RemoveAll(snap))
			r, done := disturb(d, []string{"-m", "hook", "-n", fmt.Sprint(n), "-x", fmt.Sprintf("cp -a %s %s 2>/dev/null || true", db, snap)}, append([]string{"/bin/sh"}, masked(x.Cs[0])...)...)
			c.Executions(1)
			if err := e.Check(x.Cs[0], r); err != nil {
				return err
			}
			name := "the end"
			if n < len(done) {
				name = done[n].Name + " " + strings.TrimPrefix(done[n].Path, d)
			}
			_, err := os.Stat(snap)
			if err == nil {
				seen++
			}
			// files of earlier times with their permissions are not of this run
			if s := exposed(snap); s != "" && x.Place < 2 {
				return fmt.Errorf("%v with umask %04o: others can get at %s before call %d (%s)", x.Cs[0], x.Umask, s, n, name)
			}
		}
	}
	c.Nontrivial(x.Umask&0o077 != 0o077)
	c.ClassIf(seen > 0, "looked at in the middle")
	c.Class("umask %04o", x.Umask)
	c.Class("place %d", x.Place)
	c.Sample("%s; umask %04o, dump %04o, directory %04o, place %d; %v; %d looks in the middle", describe(x.W, x.L), x.Umask, x.Mode, x.Dir, x.Place, x.Cs, seen)
	return nil
}

// Leftover is one file or directory put to the place of the index.
type Leftover struct {
	Name string `json:"name"`
	Kind int    `json:"kind"` // 0: bytes, 1: empty, 2: of the other dump, 3: cut, 4: changed bytes, 5: removed, 6: directory, 7: link to nothing, 8: grown, 9: pipe, 10: link to endless zeros, 11: a terabyte
	Seed uint64 `json:"seed"`
	Data []byte `json:"data,omitempty"`
}

// Spoiled is a dump whose index was spoiled by something else than the tool.
type Spoiled struct {
	W     *model.World `json:"w"`
	L     model.Layout `json:"l"`
	Other *model.World `json:"other"`
	Mark  int          `json:"mark"`            // 0: the mark of completion is removed, 1: of another dump, 2: other bytes, 3: kept, 4: nothing was indexed, 5: empty, 6: a pipe, 7: link to endless zeros, 8: a terabyte
	Files []Leftover   `json:"files,omitempty"` // what else is done
	Place int          `json:"place,omitempty"` // 1: file, 2: link to nothing, 3: link to a file, 4: link to a directory, 5: link to itself, 6: link to the dump
	Cs    []Cmd        `json:"cs"`
	After Cmd          `json:"after"`
}

var indexNames = []string{"meta.bin", "small-records.bin", "instance-dump.idx.bin", "obj-array-dump.idx.bin", "prim-array-dump.idx.bin"}

const markName = "source.txt"

// special puts something that must not be read to the end to the place of a
// file: a pipe (9), a link to endless zeros (10), a terabyte of zeros after
// what was there (11).
func special(name string, kind int) {
	switch kind {
	case 9:
		os.Remove(name)
		prop.Must(syscall.Mkfifo(name, 0o600))
	case 10:
		os.Remove(name)
		prop.Must(os.Symlink("/dev/zero", name))
	case 11:
		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE, 0o600)
		prop.Must(err)
		prop.Must(f.Truncate(1 << 40))
		prop.Must(f.Close())
	}
}

func (x Spoiled) check(c *prop.Ctx) error {
	limitMemory()
	base := c.Dir()
	d, o := filepath.Join(base, "run"), filepath.Join(base, "other")
	prop.Must(os.Mkdir(d, 0o755))
	prop.Must(os.Mkdir(o, 0o755))
	p := Write(d, "h.hprof", x.W.Encode(x.L))
	setTime(p, 20001*day)
	q := Write(o, "h.hprof", x.Other.Encode(x.L))
	setTime(q, 20002*day)
	e := Expect(x.W)
	db := p + ".db"
	first := Cmd{Name: "objects"}
	if err := ok(Run(o, first.Args("h.hprof")...)); err != nil {
		return err
	}
	c.Executions(1)
	if x.Mark != 4 && x.Place == 0 {
		r := Run(d, first.Args("h.hprof")...)
		c.Executions(1)
		if err := e.Check(first, r); err != nil {
			return err
		}
	}
	// must is set if only the right report is an answer
	must, may := true, true
	what := ""
	if x.Place > 0 {
		to := filepath.Join(base, "somewhere")
		must = false
		switch x.Place {
		case 1:
			prop.Must(os.WriteFile(db, []byte("not an index"), 0o644))
		case 2:
			prop.Must(os.Symlink(to, db))
		case 3:
			prop.Must(os.WriteFile(to, []byte("not an index"), 0o644))
			prop.Must(os.Symlink(to, db))
		case 4:
			prop.Must(os.Mkdir(to, 0o755))
			prop.Must(os.Symlink(to, db))
			must = true
		case 5:
			prop.Must(os.Symlink(db, db))
		case 6:
			prop.Must(os.Symlink(p, db))
		}
		what = fmt.Sprintf("place %d", x.Place)
		c.Class("%s", what)
	} else {
		prop.Must(os.MkdirAll(db, 0o755))
		mark := filepath.Join(db, markName)
		had := false
		if b, err := os.ReadFile(mark); err == nil {
			had = len(b) > 0
		}
		switch x.Mark {
		case 0:
			os.Remove(mark)
		case 1:
			if b, err := os.ReadFile(filepath.Join(q+".db", markName)); err == nil {
				prop.Must(os.WriteFile(mark, b, 0o600))
			}
		case 2:
			prop.Must(os.WriteFile(mark, []byte("no mark"), 0o600))
		case 3:
			must = false
		case 5:
			prop.Must(os.WriteFile(mark, nil, 0o600))
		case 6, 7, 8:
			special(mark, x.Mark+3)
		}
		if !had && x.Mark != 4 {
			// the index is marked in some other way
			must, may = false, false
		}
		what = fmt.Sprintf("mark %d", x.Mark)
		c.Class("%s", what)
		for _, f := range x.Files {
			name := filepath.Join(db, f.Name)
			r := model.NewRng(f.Seed)
			old, err := os.ReadFile(name)
			if err != nil {
				old, _ = os.ReadFile(filepath.Join(q+".db", f.Name))
			}
			put := func(b []byte) { prop.Must(os.WriteFile(name, b, 0o600)) }
			if fi, err := os.Lstat(name); err == nil && !fi.Mode().IsRegular() {
				continue
			}
			what += fmt.Sprintf(", %s %d", f.Name, f.Kind)
			c.Class("%s %d mark %d", f.Name, f.Kind, x.Mark)
			switch f.Kind {
			case 0:
				put(f.Data)
			case 1:
				put(nil)
			case 2:
				if b, err := os.ReadFile(filepath.Join(q+".db", f.Name)); err == nil {
					put(b)
				}
			case 3:
				if len(old) > 0 {
					n := r.Intn(len(old))
					if r.Intn(2) == 0 {
						n -= n % 16 // between entries of an index
					}
					put(old[:n])
				}
			case 4:
				b := append([]byte(nil), old...)
				for k := 1 + r.Intn(4); k > 0 && len(b) > 0; k-- {
					b[r.Intn(len(b))] = []byte{0, 1, 0x7f, 0x80, 0xff, byte(r.Next())}[r.Intn(6)]
				}
				put(b)
			case 5:
				os.Remove(name)
			case 6:
				os.Remove(name)
				prop.Must(os.Mkdir(name, 0o755))
				must = false // it may not be possible to remove it
			case 7:
				os.Remove(name)
				prop.Must(os.Symlink(filepath.Join(base, "nothing"), name))
			case 8:
				put(append(append([]byte(nil), old...), f.Data...))
			case 9, 10, 11:
				special(name, f.Kind)
			}
			switch {
			case x.Mark != 3:
			case f.Kind == 1 || f.Kind == 3 || f.Kind == 5 || f.Kind == 6 || f.Kind == 7 || f.Kind == 9:
				// missing and cut files are noticed
			case f.Name == "notes" || strings.HasPrefix(f.Name, "incomplete-"):
			default:
				may = false // nobody can tell whether the content is right
			}
		}
	}
	wrong := 0
	for i, cmd := range x.Cs {
		r := Run(d, cmd.Args("h.hprof")...)
		c.Executions(1)
		if err := orderly(r); err != nil {
			return fmt.Errorf("spoiled index (%s), run %d: %w", what, i, err)
		}
		switch {
		case r.Code == 0 && (must || may):
			if err := e.Check(cmd, r); err != nil {
				return fmt.Errorf("spoiled index (%s), run %d: %w", what, i, err)
			}
		case r.Code != 0 && must:
			return fmt.Errorf("spoiled index (%s), run %d: the index is not complete, it should be made again: %v", what, i, r)
		case r.Code != 0:
			wrong++
			c.Class("%s", kindOfError(r.Out))
		}
		if r.Code != 0 && looksLikeReport(r.Out) {
			// errors come after a part of a report only if writing it fails
			return fmt.Errorf("spoiled index (%s), run %d: an error together with a report: %v", what, i, r)
		}
	}
	// without the index all is well again
	prop.Must(os.RemoveAll(db))
	r := Run(d, x.After.Args("h.hprof")...)
	c.Executions(1)
	if err := e.Check(x.After, r); err != nil {
		return fmt.Errorf("the spoiled index (%s) is removed: %w", what, err)
	}
	c.ClassIf(wrong > 0, "an error is reported")
	c.Nontrivial(x.Place > 0 || x.Mark != 3 || len(x.Files) > 0)
	c.Sample("%s; %s; %v", describe(x.W, x.L), what, x.Cs)
	return nil
}

func genSpoiled(t *rapid.T) Spoiled {
	x := Spoiled{W: genWorld(t, model.Opts{Small: true, MaxObjs: 12, MaxThreads: 2}), L: model.GenLayout(t), Cs: genCmds(t, 1, 3), After: genCmd(t)}
	if rapid.IntRange(0, 2).Draw(t, "version") == 0 {
		x.Other = version(x.W, model.NewRng(rapid.Uint64().Draw(t, "other")))
	} else {
		x.Other = genWorld(t, model.Opts{Small: true, MaxObjs: 12, MaxThreads: 2})
	}
	if rapid.IntRange(0, 5).Draw(t, "taken") == 0 {
		x.Place = rapid.IntRange(1, 6).Draw(t, "place")
		return x
	}
	x.Mark = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 3, 3, 3, 3, 4, 5, 6, 7, 8}).Draw(t, "mark")
	names := append([]string{"notes", "incomplete-1", "source.txt.tmp", "meta.bin.tmp", "small-records.bin.old"}, indexNames...)
	names = append(names, indexNames...)
	if x.Mark != 3 {
		names = append(names, indexNames...)
	}
	lo := 0
	if x.Mark == 3 {
		lo = 1
		switch rapid.IntRange(0, 3).Draw(t, "only") {
		case 0, 1:
			names = []string{"meta.bin", "small-records.bin"}
		case 2:
			names = indexNames[2:]
		}
	}
	used := map[string]bool{}
	for i := rapid.IntRange(lo, 3).Draw(t, "files"); i > 0; i-- {
		f := Leftover{Name: rapid.SampledFrom(names).Draw(t, "file"), Kind: rapid.SampledFrom([]int{0, 1, 2, 2, 3, 3, 3, 4, 4, 4, 4, 4, 4, 5, 5, 6, 7, 8, 9, 10, 11}).Draw(t, "what"), Seed: rapid.Uint64().Draw(t, "seed")}
		if used[f.Name] {
			continue
		}
		used[f.Name] = true
		if f.Kind == 0 || f.Kind == 8 {
			f.Data = rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, "data")
		}
		x.Files = append(x.Files, f)
	}
	sort.Slice(x.Files, func(i, j int) bool { return x.Files[i].Name < x.Files[j].Name })
	return x
}

// Cut is a dump with files of its marked index cut between their entries.
type Cut struct {
	W  *model.World `json:"w"`
	L  model.Layout `json:"l"`
	Cs []Cmd        `json:"cs"`
	X  uint64       `json:"x"`
}

func (x Cut) check(c *prop.Ctx) error {
	d := c.Dir()
	p := Write(d, "h.hprof", x.W.Encode(x.L))
	e := Expect(x.W)
	first := Cmd{Name: "objects"}
	if err := e.Check(first, Run(d, first.Args("h.hprof")...)); err != nil {
		return err
	}
	rng := model.NewRng(x.X)
	cut, refused := 0, 0
	for i, cmd := range x.Cs {
		name := filepath.Join(p+".db", indexNames[2+rng.Intn(10)%4%3])
		b, err := os.ReadFile(name)
		if err != nil {
			break // the index has other files
		}
		n := len(b) / 16
		if n == 0 {
			continue
		}
		k := 1 + rng.Intn(n)
		if rng.Intn(3) > 0 {
			k = 1 + rng.Intn(min(n, 8))
		}
		prop.Must(os.WriteFile(name, b[:16*(n-k)], 0o600))
		cut++
		what := fmt.Sprintf("%s without %d of its %d entries, %v", filepath.Base(name), k, n, cmd)
		r := Run(d, cmd.Args("h.hprof")...)
		c.Executions(1)
		if err := orderly(r); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if r.Code == 0 {
			if err := e.Check(cmd, r); err != nil {
				return fmt.Errorf("%s, run %d: %w", what, i, err)
			}
			continue
		}
		if looksLikeReport(r.Out) {
			return fmt.Errorf("%s: an error together with a report: %v", what, r)
		}
		refused++
		prop.Must(os.WriteFile(name, b, 0o600))
	}
	c.ClassIf(refused > 0, "refused")
	c.ClassIf(cut > refused, "reported")
	c.Nontrivial(cut > 0)
	c.Sample("%s; %d times cut, %d times refused; %v", describe(x.W, x.L), cut, refused, x.Cs)
	return nil
}

func init() {
	prop.Add("C34", "cut", 400, 8000, func(t *rapid.T) Cut {
		x := Cut{W: genWorld(t, model.Opts{Small: true, MaxObjs: 12, MaxThreads: 2}), L: model.GenLayout(t), X: rapid.Uint64().Draw(t, "cuts")}
		for i := rapid.IntRange(1, 6).Draw(t, "commands"); i > 0; i-- {
			cmd := genCmd(t, "summary", "summary", "threads", "objects")
			cmd.AllProps = cmd.Name == "summary"
			x.Cs = append(x.Cs, cmd)
		}
		return x
	}, func(c *prop.Ctx, x Cut) error {
		return Guard(func() error { return x.check(c) })
	})
	prop.Add("C33", "permissions", 400, 8000, func(t *rapid.T) Private {
		x := Private{W: genWorld(t, model.Opts{Small: true, MaxObjs: 12, MaxThreads: 2}), L: model.GenLayout(t), Cs: genCmds(t, 1, 3), X: rapid.Uint64().Draw(t, "points")}
		x.Umask = rapid.SampledFrom([]int{0, 0, 0o002, 0o007, 0o022, 0o027, 0o070, 0o077, 0o020}).Draw(t, "umask")
		x.Mode = rapid.SampledFrom([]uint32{0o600, 0o644, 0o666, 0o640, 0o400, 0o444, 0o777}).Draw(t, "mode")
		x.Dir = rapid.SampledFrom([]uint32{0o755, 0o777, 0o700, 0o1777}).Draw(t, "dir")
		if rapid.IntRange(0, 2).Draw(t, "prev") == 0 {
			x.Prev = genWorld(t, model.Opts{Small: true, MaxObjs: 12, MaxThreads: 2})
		}
		x.Place = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "place")
		x.Points = rapid.SampledFrom([]int{0, 0, 3, 6}).Draw(t, "looks")
		return x
	}, func(c *prop.Ctx, x Private) error {
		return Guard(func() error { return x.check(c) })
	})
	prop.Add("C34", "spoiled", 2600, 42000, genSpoiled, func(c *prop.Ctx, x Spoiled) error {
		return Guard(func() error { return x.check(c) })
	})
}
