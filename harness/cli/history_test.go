package cli

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

// Step puts a new version of the dump in place and runs commands.
type Step struct {
	W     *model.World `json:"w,omitempty"`
	L     model.Layout `json:"l"`
	Back  int          `json:"back,omitempty"` // return to the version put so many steps before
	Bad   int          `json:"bad,omitempty"`  // 1: cut, 2: other bytes, 3: no file
	Cut   uint64       `json:"cut,omitempty"`
	Time  int64        `json:"time"`            // modification time
	Place int          `json:"place,omitempty"` // 0: rewritten, 1: renamed over, 2: removed and created, 3: a link to the file, retargeted, 4: kept in the same place behind a link
	Cs    []Cmd        `json:"cs"`
}

// Crash is a run of a command killed or disturbed in the middle.
type Crash struct {
	W     *model.World `json:"w"`
	L     model.Layout `json:"l"`
	Prev  *model.World `json:"prev,omitempty"` // an older version of the dump that is indexed
	C     Cmd          `json:"c"`
	After []Cmd        `json:"after"`
	Mode  string       `json:"mode,omitempty"`
	Errno int          `json:"errno,omitempty"`
	X     uint64       `json:"x"`
}

// Together are commands at the same time.
type Together struct {
	W     *model.World `json:"w"`
	L     model.Layout `json:"l"`
	Prev  *model.World `json:"prev,omitempty"`
	Cs    []Cmd        `json:"cs"`
	Delay []int        `json:"delay,omitempty"` // microseconds
	After Cmd          `json:"after"`
	X     uint64       `json:"x,omitempty"`
}

// version makes another heap of exactly the same size in the file.
func version(w *model.World, r *model.Rng) *model.World {
	v := w.Clone()
	for i := range v.Classes {
		if r.Intn(2) == 0 {
			v.Classes[i].Size = int32(r.Intn(1 << 16))
		}
	}
	for i := range v.Frames {
		if r.Intn(2) == 0 {
			v.Frames[i].Line = int32(r.Intn(1000) + 1)
		}
	}
	if r.Intn(2) == 0 {
		v.Time += int64(r.Intn(100000))
	}
	// the addresses of objects change as well
	var top uint64
	limit := ^uint64(0)
	if v.IDSize == 4 {
		limit = 1<<32 - 1
	}
	for i := range v.Objs {
		top = max(top, v.Objs[i].ID)
	}
	for i := range v.Classes {
		top = max(top, v.Classes[i].ID)
	}
	if shift := uint64(8 * (1 + r.Intn(100))); top < limit-shift && r.Intn(2) == 0 {
		v.Renumber(func(id uint64) uint64 {
			if id == 0 {
				return 0
			}
			return id + shift
		})
	}
	return v
}

var anyErrno = []int{int(syscall.EIO), int(syscall.ENOSPC), int(syscall.EACCES), int(syscall.EROFS), int(syscall.EDQUOT), int(syscall.EMFILE), int(syscall.ENOENT), int(syscall.EPERM)}

func setTime(path string, ns int64) {
	tm := time.Unix(0, ns)
	prop.Must(os.Chtimes(path, tm, tm))
}

// stopping are signals a user or the system stops a command with; the last one
// tells that the size of the terminal changes.
var stopping = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGWINCH}

var harmless = fmt.Sprint(int(syscall.SIGWINCH))

// copyTree makes dst the same as src, with times.
func copyTree(dst, src string) {
	prop.Must(os.RemoveAll(dst))
	prop.Must(filepath.WalkDir(src, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if e.IsDir() {
			return os.Mkdir(q, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if err := os.WriteFile(q, b, 0o600); err != nil {
			return err
		}
		fi, err := e.Info()
		if err != nil {
			return err
		}
		return os.Chtimes(q, fi.ModTime(), fi.ModTime())
	}))
}

// otherTimes are times of a dump that replaces the one of day 20000.
var otherTimes = []int64{20001 * day, 20000*day + 1, 20000*day - 1, 19000 * day}

const day = int64(24 * time.Hour)

// prepare makes the state before a run: the dump, maybe with the index of its
// older version.
func prepare(c *prop.Ctx, w *model.World, l model.Layout, prev *model.World) (string, error) {
	state := filepath.Join(c.Dir(), "state")
	prop.Must(os.Mkdir(state, 0o755))
	if prev != nil {
		p := Write(state, "h.hprof", prev.Encode(l))
		setTime(p, 20000*day)
		if err := ok(Run(state, Cmd{Name: "objects"}.Args("h.hprof")...)); err != nil {
			return "", err
		}
	}
	p := Write(state, "h.hprof", w.Encode(l))
	setTime(p, 20001*day)
	return state, nil
}

func genCrash(t *rapid.T, modes ...string) Crash {
	w := genWorld(t, model.Opts{Small: true, MaxObjs: 12, MaxThreads: 2})
	x := Crash{W: w, L: model.GenLayout(t), C: genCmd(t), X: rapid.Uint64().Draw(t, "points")}
	if rapid.IntRange(0, 2).Draw(t, "prev") == 0 {
		if rapid.Bool().Draw(t, "sameSize") {
			x.Prev = version(w, model.NewRng(rapid.Uint64().Draw(t, "version")))
		} else {
			x.Prev = genWorld(t, model.Opts{Small: true, MaxObjs: 12, MaxThreads: 2})
		}
	}
	x.After = genCmds(t, 1, 2)
	if len(modes) > 0 {
		x.Mode = rapid.SampledFrom(modes).Draw(t, "mode")
		x.Errno = rapid.SampledFrom(anyErrno).Draw(t, "errno")
	}
	return x
}

// points chooses calls to disturb: all that change files and their neighbours,
// and some of the others.
func points(calls []Call, r *model.Rng, others int) []int {
	set := map[int]bool{}
	for i, c := range calls {
		if c.Changes {
			set[i] = true
		}
		if c.Changes && i+1 < len(calls) && r.Intn(4) == 0 {
			set[i+1] = true
		}
	}
	for i := 0; i < others && len(calls) > 0; i++ {
		set[r.Intn(len(calls))] = true
	}
	var res []int
	for p := range set {
		res = append(res, p)
	}
	sort.Ints(res)
	return res
}

// Troubled is a history of commands some of which fail.
type Troubled struct {
	W     *model.World `json:"w"`
	L     model.Layout `json:"l"`
	Cs    []Cmd        `json:"cs"`
	How   []int        `json:"how"`             // 0: plain, 1: nothing can be printed, 2: output closed, 3: unknown flag, 4: wrong value
	Spoil int          `json:"spoil,omitempty"` // what the dump lacks
	X     uint64       `json:"x,omitempty"`
}

func genTroubled(t *rapid.T) Troubled {
	x := Troubled{L: model.GenLayout(t), Spoil: rapid.IntRange(0, 6).Draw(t, "spoil"), X: rapid.Uint64().Draw(t, "x")}
	x.W = genWorld(t, model.Opts{Small: true, NoSystem: x.Spoil == 1, ForceLocals: rapid.Bool().Draw(t, "forceLocals")})
	x.Cs = genCmds(t, 3, 7)
	for range x.Cs {
		x.How = append(x.How, rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 4}).Draw(t, "how"))
	}
	return x
}

// spoilt is a heap without some records some commands need.
func (x Troubled) spoilt() *model.World {
	w := x.W.Clone()
	r := model.NewRng(x.X)
	switch {
	case x.Spoil == 2:
		w.Frames = nil
	case x.Spoil == 3:
		w.Traces = nil
	case x.Spoil == 4 && len(w.Classes) > 0:
		i := r.Intn(len(w.Classes))
		w.Classes = slices.Delete(w.Classes, i, i+1)
	case x.Spoil == 5 && len(w.Strs) > 0:
		i := r.Intn(len(w.Strs))
		w.Strs = slices.Delete(w.Strs, i, i+1)
	case x.Spoil == 6 && len(w.Objs) > 0:
		for k := 0; k < 3 && len(w.Objs) > 0; k++ {
			i := r.Intn(len(w.Objs))
			w.Objs = slices.Delete(w.Objs, i, i+1)
		}
	}
	return w
}

func (x Troubled) run(i int, dir, file string) *Result {
	args := x.Cs[i].Args(file)
	how := 0
	if i < len(x.How) {
		how = x.How[i]
	}
	sh := ""
	switch how {
	case 1:
		sh = `exec "$0" "$@" >/dev/full`
	case 2:
		sh = `exec "$0" "$@" >&-`
	case 3:
		args = append(args, "-no-such-flag")
	case 4:
		args = append(args, "-output", "pdf")
	}
	if sh != "" {
		return RunCmd(dir, "/bin/sh", append([]string{"-c", sh, Bin()}, args...)...)
	}
	return Run(dir, args...)
}

func init() {
	// C15
	prop.Add("C15", "history", 1300, 21000, func(t *rapid.T) Several {
		o := model.Opts{Small: rapid.IntRange(0, 1).Draw(t, "small") == 0}
		return Several{W: genWorld(t, o), L: model.GenLayout(t), Cs: genCmds(t, 2, 8)}
	}, func(c *prop.Ctx, x Several) error {
		return Guard(func() error {
			d := c.Dir()
			b := x.W.Encode(x.L)
			p := Write(d, "h.hprof", b)
			setTime(p, 20000*day+12345)
			before, err := os.Stat(p)
			prop.Must(err)
			e := Expect(x.W)
			kinds := map[string]bool{}
			for i, cmd := range x.Cs {
				kinds[cmd.Name] = true
				prop.Must(os.RemoveAll(filepath.Join(d, "fresh")))
				prop.Must(os.Mkdir(filepath.Join(d, "fresh"), 0o755))
				Write(d, "fresh/h.hprof", b)
				fresh := Run(filepath.Join(d, "fresh"), cmd.Args("h.hprof")...)
				saved := Run(d, cmd.Args("h.hprof")...)
				c.Executions(2)
				if err := e.Check(cmd, fresh); err != nil {
					return fmt.Errorf("fresh copy: %w", err)
				}
				if saved.Code != fresh.Code || saved.Out != fresh.Out || saved.Err != fresh.Err {
					return fmt.Errorf("command %d %v gives another report on a saved index %s; %v", i, cmd, firstDiff(fresh.Out, saved.Out), saved)
				}
				after, err := os.Stat(p)
				if err != nil {
					return fmt.Errorf("the dump is gone: %w", err)
				}
				now, err := os.ReadFile(p)
				prop.Must(err)
				if string(now) != string(b) || !after.ModTime().Equal(before.ModTime()) || after.Mode() != before.Mode() || !os.SameFile(before, after) {
					return fmt.Errorf("%v changes the dump", cmd)
				}
			}
			c.Nontrivial(len(x.Cs) > 2 && len(kinds) > 1)
			c.Class("first command %s", x.Cs[0].Name)
			c.Sample("%s; %v", describe(x.W, x.L), x.Cs)
			return nil
		})
	})

	prop.Add("C15", "failing", 700, 11000, func(t *rapid.T) Troubled {
		return genTroubled(t)
	}, func(c *prop.Ctx, x Troubled) error {
		return Guard(func() error {
			d := c.Dir()
			b := x.spoilt().Encode(x.L)
			Write(d, "h.hprof", b)
			failed, worked := 0, 0
			for i, cmd := range x.Cs {
				prop.Must(os.RemoveAll(filepath.Join(d, "fresh")))
				prop.Must(os.Mkdir(filepath.Join(d, "fresh"), 0o755))
				Write(d, "fresh/h.hprof", b)
				fresh := x.run(i, filepath.Join(d, "fresh"), "h.hprof")
				saved := x.run(i, d, "h.hprof")
				c.Executions(2)
				for _, r := range []*Result{fresh, saved} {
					if err := crashed(r); err != nil {
						return err
					}
				}
				// which of several troubles is named first does not matter
				if saved.Code != fresh.Code || saved.Code == 0 && (saved.Out != fresh.Out || saved.Err != fresh.Err) {
					return fmt.Errorf("command %d %v ends differently on a saved index %s; %v; fresh %v", i, cmd, firstDiff(fresh.Out, saved.Out), saved, fresh)
				}
				if saved.Code == 0 {
					worked++
				} else {
					failed++
				}
				if now, err := os.ReadFile(filepath.Join(d, "h.hprof")); err != nil || string(now) != string(b) {
					return fmt.Errorf("%v changes the dump", cmd)
				}
			}
			c.Nontrivial(failed > 0 && worked > 0)
			c.Class("spoilt in way %d", x.Spoil)
			c.Sample("%s; spoilt %d; %v %v", describe(x.W, x.L), x.Spoil, x.Cs, x.How)
			return nil
		})
	})

	// C16
	prop.Add("C16", "replacement", 1100, 18000, func(t *rapid.T) []Step {
		n := rapid.IntRange(2, 7).Draw(t, "steps")
		links := rapid.IntRange(0, 3).Draw(t, "links") == 0
		steps := make([]Step, n)
		for i := range steps {
			s := &steps[i]
			s.Place = rapid.IntRange(0, 2).Draw(t, "place")
			if links {
				s.Place = rapid.IntRange(3, 4).Draw(t, "link")
				if rapid.IntRange(0, 9).Draw(t, "mixed") == 0 {
					s.Place = rapid.IntRange(0, 4).Draw(t, "place")
				}
			}
			s.Cs = genCmds(t, 1, 2)
			if rapid.IntRange(0, 3).Draw(t, "idle") == 0 {
				s.Cs = nil
			}
			base := rapid.SampledFrom([]int64{0, 12000 * day, 20000 * day, 20001*day + 1, 40000 * day}).Draw(t, "time")
			s.Time = base + rapid.Int64Range(0, 3).Draw(t, "later")*rapid.SampledFrom([]int64{1, 1000, 1000000, 1000000000}).Draw(t, "unit")
			kind := rapid.IntRange(0, 9).Draw(t, "kind")
			switch {
			case i > 0 && kind < 2:
				s.Back = rapid.IntRange(1, i).Draw(t, "back")
				continue
			case i > 0 && kind < 5 && steps[i-1].W != nil:
				s.W = version(steps[i-1].W, model.NewRng(rapid.Uint64().Draw(t, "version")))
				s.L = steps[i-1].L
			default:
				s.W = genWorld(t, model.Opts{Small: true})
				s.L = model.GenLayout(t)
			}
			if rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
				s.Bad = rapid.IntRange(1, 3).Draw(t, "badKind")
				s.Cut = rapid.Uint64().Draw(t, "cut")
			}
		}
		return steps
	}, func(c *prop.Ctx, steps []Step) error {
		return Guard(func() error {
			d := c.Dir()
			p := filepath.Join(d, "h.hprof")
			type put struct {
				b    []byte
				e    *Expected
				time int64
			}
			var puts []put
			equal, older, runs := false, false, 0
			for i, s := range steps {
				var v put
				switch {
				case s.Back > 0 && s.Back <= i:
					v = puts[i-s.Back]
					c.Class("return to an earlier version")
				case s.W == nil:
					continue
				default:
					v = put{b: s.W.Encode(s.L), time: s.Time}
					switch s.Bad {
					case 0:
						v.e = Expect(s.W)
					case 1:
						v.b = v.b[:s.Cut%uint64(len(v.b))]
						c.Class("cut version")
					case 2:
						v.b = append([]byte(nil), v.b...)
						copy(v.b, "NOT A PROFILE")
						c.Class("other file")
					case 3:
						v.b = nil
						c.Class("no file")
					}
					// versions are told by size or time
					for again := true; again; {
						again = false
						for _, o := range puts {
							if o.b != nil && v.b != nil && len(o.b) == len(v.b) && o.time == v.time && string(o.b) != string(v.b) {
								v.time++
								again = true
							}
						}
					}
				}
				if len(puts) > 0 && v.b != nil {
					last := puts[len(puts)-1]
					equal = equal || len(last.b) == len(v.b) && string(last.b) != string(v.b)
					older = older || last.time > v.time
					c.ClassIf(last.time == v.time && len(last.b) != len(v.b), "same time, another size")
				}
				for len(puts) < i {
					puts = append(puts, put{})
				}
				puts = append(puts, v)
				switch {
				case v.b == nil:
					os.Remove(p)
				case s.Place == 3:
					// every version has a file of its own, the dump is a link to one
					Write(d, fmt.Sprintf("version%d", i), v.b)
					os.Remove(p)
					prop.Must(os.Symlink(fmt.Sprintf("version%d", i), p))
					c.Class("link to another file")
				case s.Place == 4:
					if to, err := os.Readlink(p); err != nil || to != "target" {
						os.Remove(p)
						prop.Must(os.Symlink("target", p))
					}
					Write(d, "target", v.b)
					c.Class("another file behind the link")
				case s.Place == 1:
					Write(d, "new", v.b)
					prop.Must(os.Rename(filepath.Join(d, "new"), p))
				default:
					if fi, err := os.Lstat(p); s.Place == 2 || err == nil && fi.Mode()&os.ModeSymlink != 0 {
						os.Remove(p)
					}
					Write(d, "h.hprof", v.b)
				}
				if v.b != nil {
					setTime(p, v.time)
				}
				for _, cmd := range s.Cs {
					runs++
					c.Executions(1)
					r := Run(d, cmd.Args("h.hprof")...)
					var err error
					if v.e != nil {
						err = v.e.Check(cmd, r)
					} else {
						err = refused(r)
					}
					if err != nil {
						return fmt.Errorf("version %d: %w", i, err)
					}
				}
			}
			c.ClassIf(equal, "another version of the same size")
			c.ClassIf(older, "older version")
			c.Nontrivial(len(puts) > 1 && runs > 1)
			var note []string
			for _, s := range steps {
				note = append(note, fmt.Sprintf("{back %d bad %d time %d place %d %v}", s.Back, s.Bad, s.Time, s.Place, s.Cs))
			}
			c.Sample("%s", strings.Join(note, " "))
			return nil
		})
	})

	// the dump is replaced in the middle of a run; what this run tells is its own
	// matter, but nothing it leaves may spoil the later ones
	prop.Add("C16", "during", 44, 1500, func(t *rapid.T) Crash {
		x := genCrash(t, "", "", "indexed")
		if x.Prev == nil {
			x.Prev = version(x.W, model.NewRng(rapid.Uint64().Draw(t, "version")))
		}
		return x
	}, func(c *prop.Ctx, x Crash) error {
		return Guard(func() error {
			if x.Prev == nil {
				return nil
			}
			before, after := x.Prev.Encode(x.L), x.W.Encode(x.L)
			state := filepath.Join(c.Dir(), "state")
			prop.Must(os.Mkdir(state, 0o755))
			setTime(Write(state, "h.hprof", before), 20000*day)
			if x.Mode == "indexed" {
				if err := ok(Run(state, Cmd{Name: "summary"}.Args("h.hprof")...)); err != nil {
					return err
				}
			}
			rng := model.NewRng(x.X)
			fresh := filepath.Join(c.Dir(), "fresh.hprof")
			prop.Must(os.WriteFile(fresh, after, 0o644))
			setTime(fresh, otherTimes[rng.Intn(len(otherTimes))])
			d := filepath.Join(c.Dir(), "run")
			p := filepath.Join(d, "h.hprof")
			copyTree(d, state)
			r, calls := Disturb(d, nil, x.C.Args(p)...)
			if err := Expect(x.Prev).Check(x.C, r); err != nil {
				return err
			}
			e := Expect(x.W)
			var dump []int // work with the dump itself
			for i, call := range calls {
				if call.Path == p && len(dump) < 5 {
					dump = append(dump, i)
				}
			}
			ps := append(points(calls, rng, 4), dump...)
			rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			done := 0
			for _, n := range ps[:min(len(ps), 14)] {
				copyTree(d, state)
				script := shell([]string{"cp", "-p", fresh, p}, "")
				how := "rewritten"
				if rng.Intn(2) == 0 {
					script = shell([]string{"cp", "-p", fresh, p + ".new"}, "") + " && " + shell([]string{"mv", p + ".new", p}, "")
					how = "renamed over"
				}
				out := filepath.Join(c.Dir(), "out")
				os.Remove(out + ".code")
				if rng.Intn(3) == 0 {
					script += "; " + shell(append([]string{Bin()}, x.After[0].Args(p)...), out)
					how += " and analysed"
				}
				r, made := Disturb(d, []string{"-m", "hook", "-n", fmt.Sprint(n), "-x", script}, x.C.Args(p)...)
				c.Executions(1 + len(x.After))
				if len(made) <= n {
					continue
				}
				done++
				what := fmt.Sprintf("dump %s before call %d %s %s of %v", how, n, calls[n].Name, strings.TrimPrefix(calls[n].Path, d), x.C)
				if err := crashed(r); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				if code, err := os.ReadFile(out + ".code"); err == nil {
					o, _ := os.ReadFile(out)
					ro := &Result{Args: x.After[0].Args(p), Out: string(o)}
					fmt.Sscan(string(code), &ro.Code)
					if err := e.Check(x.After[0], ro); err != nil {
						return fmt.Errorf("%s: the report meanwhile: %w", what, err)
					}
				}
				for _, cmd := range x.After {
					if err := e.Check(cmd, Run(d, cmd.Args("h.hprof")...)); err != nil {
						return fmt.Errorf("after %s: %w", what, err)
					}
				}
				c.Class("%s, %s", strings.Fields(how)[0], calls[n].Name)
			}
			c.Nontrivial(done > 3)
			c.ClassIf(x.Mode == "indexed", "indexed before")
			c.Sample("%s; replaced by %s at each of %d calls of %d of %v; then %v", describe(x.Prev, x.L), describe(x.W, x.L), done, len(calls), x.C, x.After)
			return nil
		})
	})

	// C17
	prop.Add("C17", "kill", 80, 2300, func(t *rapid.T) Crash {
		return genCrash(t)
	}, func(c *prop.Ctx, x Crash) error {
		return Guard(func() error {
			state, err := prepare(c, x.W, x.L, x.Prev)
			if err != nil {
				return err
			}
			e := Expect(x.W)
			d := filepath.Join(c.Dir(), "run")
			p := filepath.Join(d, "h.hprof")
			copyTree(d, state)
			r, calls := Disturb(d, nil, x.C.Args(p)...)
			if err := e.Check(x.C, r); err != nil {
				return err
			}
			rng := model.NewRng(x.X)
			killed := 0
			for _, n := range points(calls, rng, 4) {
				modes := [][]string{{"-m", "kill"}}
				if calls[min(n, len(calls)-1)].Name == "write" {
					modes = append(modes, []string{"-m", "torn", "-k", fmt.Sprint(rng.Intn(40))})
				}
				if rng.Intn(4) == 0 {
					modes = append(modes, []string{"-m", "signal", "-s", fmt.Sprint(int(stopping[rng.Intn(len(stopping))]))})
				}
				for _, mode := range modes {
					copyTree(d, state)
					r, _ := Disturb(d, append(mode, "-n", fmt.Sprint(n)), x.C.Args(p)...)
					c.Executions(2)
					what := fmt.Sprintf("%v killed at call %d %s %s (%v)", x.C, n, calls[n].Name, strings.TrimPrefix(calls[n].Path, d), mode)
					if r.Code == 137 {
						killed++
						c.Class("killed at %s", calls[n].Name)
					} else if mode[1] == "signal" && r.Code != 0 && mode[3] != harmless {
						// a request to stop is answered by the default action or an error
						killed++
						c.Class("signal %s", mode[3])
						if err := crashed(r); err != nil {
							return fmt.Errorf("%s: %w", what, err)
						}
					} else if err := e.Check(x.C, r); err != nil {
						return fmt.Errorf("%s, it was not killed: %w", what, err)
					}
					if rng.Intn(3) == 0 {
						// the next run is killed as well
						k := rng.Intn(len(calls))
						what += fmt.Sprintf(", then at call %d", k)
						Disturb(d, []string{"-m", "kill", "-n", fmt.Sprint(k)}, x.C.Args(p)...)
						c.Executions(1)
						c.Class("killed twice")
					}
					for _, cmd := range x.After {
						c.Executions(1)
						if err := e.Check(cmd, Run(d, cmd.Args("h.hprof")...)); err != nil {
							return fmt.Errorf("after %s: %w", what, err)
						}
					}
				}
			}
			c.Nontrivial(killed > 10)
			c.ClassIf(x.Prev != nil, "older version was indexed")
			c.Sample("%s; older version indexed %v; %v killed at %d of %d calls, then %v", describe(x.W, x.L), x.Prev != nil, x.C, killed, len(calls), x.After)
			return nil
		})
	})

	// C21 at the level of the command
	prop.Add("C21", "command", 110, 2300, func(t *rapid.T) Crash {
		return genCrash(t, "fail", "fail", "failfrom", "failwrites", "short")
	}, func(c *prop.Ctx, x Crash) error {
		return Guard(func() error {
			state, err := prepare(c, x.W, x.L, x.Prev)
			if err != nil {
				return err
			}
			if x.X&1 == 0 && x.Prev == nil {
				// the index is there, failures hit its reading
				if err := ok(Run(state, Cmd{Name: "objects"}.Args("h.hprof")...)); err != nil {
					return err
				}
				c.Class("indexed before")
			}
			e := Expect(x.W)
			d := filepath.Join(c.Dir(), "run")
			p := filepath.Join(d, "h.hprof")
			copyTree(d, state)
			r, calls := Disturb(d, nil, x.C.Args(p)...)
			if err := e.Check(x.C, r); err != nil {
				return err
			}
			rng := model.NewRng(x.X)
			failed, survived := 0, 0
			for _, n := range points(calls, rng, 25) {
				copyTree(d, state)
				r, done := Disturb(d, []string{"-m", x.Mode, "-n", fmt.Sprint(n), "-e", fmt.Sprint(x.Errno), "-k", fmt.Sprint(rng.Intn(40))}, x.C.Args(p)...)
				c.Executions(2)
				hit := false
				for _, k := range done {
					hit = hit || k.Hit
				}
				what := fmt.Sprintf("%s with %v at call %d %s %s", x.Mode, syscall.Errno(x.Errno), n, calls[n].Name, strings.TrimPrefix(calls[n].Path, d))
				if r.Code == 0 {
					if err := e.Check(x.C, r); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
					if hit {
						survived++
					}
				} else {
					if !hit {
						return fmt.Errorf("%s was not hit, but the command failed: %v", what, r)
					}
					if err := refused(r); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
					failed++
					c.Class("failing %s", calls[n].Name)
				}
				for _, cmd := range x.After {
					c.Executions(1)
					if err := e.Check(cmd, Run(d, cmd.Args("h.hprof")...)); err != nil {
						return fmt.Errorf("after %s: %w", what, err)
					}
				}
			}
			c.Nontrivial(failed > 5)
			c.Class("mode %s", x.Mode)
			c.ClassIf(x.Prev != nil, "older version was indexed")
			c.Sample("%s; %v %s with %v at %d calls: reported %d times, survived %d times", describe(x.W, x.L), x.C, x.Mode, syscall.Errno(x.Errno), len(calls), failed, survived)
			return nil
		})
	})

	// failures of writing the report itself, to a file on a full disk for example
	prop.Add("C21", "report", 130, 2600, func(t *rapid.T) Crash {
		x := Crash{W: genWorld(t, model.Opts{Small: rapid.IntRange(0, 3).Draw(t, "small") > 0}), L: model.GenLayout(t), C: genCmd(t), X: rapid.Uint64().Draw(t, "points")}
		x.Mode = rapid.SampledFrom([]string{"fail", "failfrom", "short"}).Draw(t, "mode")
		x.Errno = rapid.SampledFrom([]int{int(syscall.ENOSPC), int(syscall.EIO), int(syscall.EDQUOT), int(syscall.EFBIG)}).Draw(t, "errno")
		return x
	}, func(c *prop.Ctx, x Crash) error {
		return Guard(func() error {
			d := c.Dir()
			p := Write(d, "h.hprof", x.W.Encode(x.L))
			out := filepath.Join(d, "out.txt")
			e := Expect(x.W)
			rng := model.NewRng(x.X)
			if rng.Intn(2) == 0 {
				if err := e.Check(x.C, Run(d, x.C.Args(p)...)); err != nil {
					return err
				}
			}
			runTo := func(opts ...string) (*Result, []Call, string) {
				r, calls := DisturbTo(d, opts, x.C.Args(p)...)
				b, err := os.ReadFile(out)
				if os.IsNotExist(err) {
					return r, calls, "" // the failure came before
				}
				prop.Must(err)
				prop.Must(os.Remove(out))
				return r, calls, string(b)
			}
			r, calls, whole := runTo()
			r.Out = whole
			if err := e.Check(x.C, r); err != nil {
				return err
			}
			var writes []int
			for i, k := range calls {
				if k.Changes && k.Path == out {
					writes = append(writes, i)
				}
			}
			if len(writes) == 0 {
				return nil // an empty report
			}
			failed := 0
			for i := 0; i < 6; i++ {
				k := rng.Intn(len(writes))
				switch i {
				case 0:
					k = 0
				case 1:
					k = len(writes) - 1
				}
				// an index made or not changes the number of calls before the report
				n := len(calls) - writes[k]
				_, all, _ := runTo()
				n = len(all) - n
				r, done, got := runTo("-m", x.Mode, "-n", fmt.Sprint(n), "-e", fmt.Sprint(x.Errno), "-k", fmt.Sprint(rng.Intn(30)))
				c.Executions(2)
				hit := ""
				for _, k := range done {
					if k.Hit && k.Path == out {
						hit = k.Path
					}
				}
				if hit == "" {
					continue
				}
				failed++
				if err := crashed(r); err != nil {
					return err
				}
				if r.Code == 0 && got != whole {
					return fmt.Errorf("writing the report failed (%s %v at write %d of %d): %d bytes of %d were written, exit code 0", x.Mode, syscall.Errno(x.Errno), k, len(writes), len(got), len(whole))
				}
				c.ClassIf(r.Code == 0, "survived")
			}
			c.Nontrivial(failed > 1)
			c.Class("%s %s", x.C.Name, x.Mode)
			c.Sample("%s; %v, %s with %v at %d of %d writes of the report", describe(x.W, x.L), x.C, x.Mode, syscall.Errno(x.Errno), failed, len(writes))
			return nil
		})
	})

	// C18
	prop.Add("C18", "cuts", 400, 6500, func(t *rapid.T) Several {
		o := model.Opts{Small: rapid.IntRange(0, 3).Draw(t, "small") != 0}
		return Several{W: genWorld(t, o), L: model.GenLayout(t), Cs: genCmds(t, 1, 3), X: rapid.Uint64().Draw(t, "cuts")}
	}, func(c *prop.Ctx, x Several) error {
		return Guard(func() error {
			items := x.W.Items(x.L)
			b := x.W.Encode(x.L)
			var bounds []int
			// ends of records
			pos := len(x.W.Header())
			bounds = append(bounds, 0, pos, len(b)-9, len(b)-1)
			for _, it := range items {
				if it.Sub {
					pos++
				} else {
					pos += 9
				}
				pos += len(it.Body)
				bounds = append(bounds, pos) // near the end of a record: headers of segments are not counted
			}
			r := model.NewRng(x.X)
			d := c.Dir()
			for i := 0; i < 24; i++ {
				cut := r.Intn(len(b))
				if i < 12 {
					cut = min(bounds[r.Intn(len(bounds))]+r.Intn(3)*9, len(b)-1)
				}
				if i < 4 {
					cut = bounds[i]
				}
				cmd := x.Cs[r.Intn(len(x.Cs))]
				name := fmt.Sprintf("h%d.hprof", i)
				Write(d, name, b[:cut])
				for k := 0; k <= i%2; k++ {
					c.Executions(1)
					if err := refused(Run(d, cmd.Args(name)...)); err != nil {
						return fmt.Errorf("%v of %d bytes of %d: %w", cmd, cut, len(b), err)
					}
				}
				if i%3 == 0 {
					// the rest arrives
					f, err := os.OpenFile(filepath.Join(d, name), os.O_WRONLY|os.O_APPEND, 0)
					prop.Must(err)
					_, err = f.Write(b[cut:])
					prop.Must(err)
					prop.Must(f.Close())
					c.Executions(1)
					if err := Expect(x.W).Check(cmd, Run(d, cmd.Args(name)...)); err != nil {
						return fmt.Errorf("%v of the dump which was cut at %d of %d: %w", cmd, cut, len(b), err)
					}
				}
			}
			c.Nontrivial(true)
			c.Sample("%s; %d bytes; %v", describe(x.W, x.L), len(b), x.Cs)
			return nil
		})
	})

	// C28
	genTogether := func(min, max int) func(t *rapid.T) Together {
		return func(t *rapid.T) Together {
			x := Together{W: genWorld(t, model.Opts{Small: rapid.IntRange(0, 2).Draw(t, "small") > 0}), L: model.GenLayout(t),
				Cs: genCmds(t, min, max), After: genCmd(t), X: rapid.Uint64().Draw(t, "points")}
			if rapid.IntRange(0, 1).Draw(t, "prev") == 0 {
				x.Prev = version(x.W, model.NewRng(rapid.Uint64().Draw(t, "version")))
			}
			for range x.Cs {
				x.Delay = append(x.Delay, rapid.SampledFrom([]int{0, 0, 100, 500, 1000, 2000, 3000, 5000}).Draw(t, "delay"))
			}
			return x
		}
	}
	prop.Add("C28", "parallel", 700, 21000, genTogether(2, 8), func(c *prop.Ctx, x Together) error {
		return Guard(func() error {
			d, err := prepare(c, x.W, x.L, x.Prev)
			if err != nil {
				return err
			}
			e := Expect(x.W)
			rs := RunAll(len(x.Cs), func(i int) *Result {
				time.Sleep(time.Duration(x.Delay[i%len(x.Delay)]) * time.Microsecond)
				return Run(d, x.Cs[i].Args("h.hprof")...)
			})
			c.Executions(len(rs) + 1)
			for i, r := range rs {
				if err := e.Check(x.Cs[i], r); err != nil {
					return prop.Once{What: fmt.Sprintf("command %d of %d at the same time: %v", i, len(rs), err)}
				}
			}
			if err := e.Check(x.After, Run(d, x.After.Args("h.hprof")...)); err != nil {
				return prop.Once{What: fmt.Sprintf("after %d commands at the same time: %v", len(rs), err)}
			}
			c.Nontrivial(len(rs) > 2)
			c.Class("%d commands", len(rs))
			c.ClassIf(x.Prev != nil, "older version was indexed")
			c.Sample("%s; older version indexed %v; %v after %v µs", describe(x.W, x.L), x.Prev != nil, x.Cs, x.Delay)
			return nil
		})
	})
	// one command stops before a system call while another one runs completely
	prop.Add("C28", "interleaved", 56, 2000, func(t *rapid.T) Together {
		x := genTogether(3, 3)(t)
		if rapid.IntRange(0, 3).Draw(t, "big") > 0 {
			x.W = genWorld(t, model.Opts{Small: true, MaxObjs: 10, MaxThreads: 2})
			if x.Prev != nil {
				x.Prev = version(x.W, model.NewRng(rapid.Uint64().Draw(t, "version")))
			}
		}
		return x
	}, func(c *prop.Ctx, x Together) error {
		return Guard(func() error {
			state, err := prepare(c, x.W, x.L, x.Prev)
			if err != nil {
				return err
			}
			e := Expect(x.W)
			d := filepath.Join(c.Dir(), "run")
			p := filepath.Join(d, "h.hprof")
			copyTree(d, state)
			r, calls := Disturb(d, nil, x.Cs[0].Args(p)...)
			if err := e.Check(x.Cs[0], r); err != nil {
				return err
			}
			rng := model.NewRng(x.X)
			ps := points(calls, rng, 12)
			for _, n := range ps {
				copyTree(d, state)
				out := func(i int) string { return filepath.Join(c.Dir(), fmt.Sprintf("out%d", i)) }
				second := shell(append([]string{Bin()}, x.Cs[1].Args(p)...), out(1))
				if rng.Intn(3) == 0 {
					// the second one stops as well, the third one runs
					third := shell(append([]string{Bin()}, x.Cs[2].Args(p)...), out(2))
					second = shell([]string{os.Getenv("VERIF_FAULTRUN"), "-d", d, "-o", filepath.Join(c.Dir(), "faults2"), "-m", "hook",
						"-n", fmt.Sprint(rng.Intn(len(calls))), "-x", third, "--", Bin()}, "")
					second = strings.TrimSuffix(second, " ") + " " + shell(x.Cs[1].Args(p), out(1))
					prop.Must(os.RemoveAll(out(2) + ".code"))
					c.Class("three commands")
				}
				r, done := Disturb(d, []string{"-m", "hook", "-n", fmt.Sprint(n), "-x", second}, x.Cs[0].Args(p)...)
				c.Executions(3)
				what := fmt.Sprintf("%v stopped before call %d %s %s while %v run", x.Cs[0], n, calls[n].Name, strings.TrimPrefix(calls[n].Path, d), x.Cs[1:])
				if err := e.Check(x.Cs[0], r); err != nil {
					return fmt.Errorf("%s: the first one: %w", what, err)
				}
				if len(done) <= n {
					continue
				}
				for i := 1; i < 3; i++ {
					code, err := os.ReadFile(out(i) + ".code")
					if os.IsNotExist(err) {
						continue
					}
					o, _ := os.ReadFile(out(i))
					ro := &Result{Args: x.Cs[i].Args(p), Out: string(o)}
					fmt.Sscan(string(code), &ro.Code)
					if err := e.Check(x.Cs[i], ro); err != nil {
						return fmt.Errorf("%s: command %d: %w", what, i, err)
					}
					prop.Must(os.Remove(out(i) + ".code"))
				}
				if err := e.Check(x.After, Run(d, x.After.Args("h.hprof")...)); err != nil {
					return fmt.Errorf("after %s: %w", what, err)
				}
			}
			c.Nontrivial(len(ps) > 10)
			c.ClassIf(x.Prev != nil, "older version was indexed")
			c.Sample("%s; older version indexed %v; %v stopped at each of %d calls of %d, meanwhile %v", describe(x.W, x.L), x.Prev != nil, x.Cs[0], len(ps), len(calls), x.Cs[1:])
			return nil
		})
	})
}

// shell quotes the command; its output and exit code go to files.
func shell(args []string, out string) string {
	s := ""
	for _, a := range args {
		s += "'" + strings.ReplaceAll(a, "'", `'\''`) + "' "
	}
	if out == "" {
		return s
	}
	return s + "> '" + out + "' 2> '" + out + ".err' < /dev/null; echo $? > '" + out + ".code'"
}
