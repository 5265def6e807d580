package cli

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

// Disorder is a dump whose objects of one kind are out of order.
type Disorder struct {
	W    *model.World `json:"w"`
	L    model.Layout `json:"l"`
	Kind byte         `json:"kind"`
	How  int          `json:"how"` // 0: two neighbours, 1: any two, 2: the last is the first, 3: the first is the last, 4: reversed, 5: shuffled, 6: last two
	X    uint64       `json:"x"`
	Cs   []Cmd        `json:"cs"`
}

// apply puts objects of the kind out of order; false if there are too few.
func (x Disorder) apply() (*model.World, bool) {
	w := x.W.Clone()
	var at []int
	for i := range w.Objs {
		if w.Objs[i].Kind == x.Kind {
			at = append(at, i)
		}
	}
	n := len(at)
	if n < 2 {
		return w, false
	}
	r := model.NewRng(x.X)
	objs := make([]model.Obj, n)
	for i, k := range at {
		objs[i] = w.Objs[k]
	}
	swap := func(i, j int) { objs[i], objs[j] = objs[j], objs[i] }
	switch x.How {
	case 0:
		i := r.Intn(n - 1)
		swap(i, i+1)
	case 1:
		i := r.Intn(n)
		swap(i, (i+1+r.Intn(n-1))%n)
	case 2:
		o := objs[n-1]
		copy(objs[1:], objs[:n-1])
		objs[0] = o
	case 3:
		o := objs[0]
		copy(objs, objs[1:])
		objs[n-1] = o
	case 4:
		for i := 0; i < n/2; i++ {
			swap(i, n-1-i)
		}
	case 5:
		r.Shuffle(n, swap)
	case 6:
		swap(n-2, n-1)
	}
	ordered := true
	for i, k := range at {
		w.Objs[k] = objs[i]
		ordered = ordered && (i == 0 || objs[i-1].ID < objs[i].ID)
	}
	return w, !ordered
}

// Display is one file analysed with the progress display on.
type Display struct {
	W   *model.World `json:"w"`
	L   model.Layout `json:"l"`
	Bad int          `json:"bad,omitempty"` // 1: cut, 2: claims more than the file has, 3: random bytes, 4: empty file
	X   uint64       `json:"x"`
	C   Cmd          `json:"c"`
	Err int          `json:"err,omitempty"` // where standard error goes while the display is on (see Surroundings.Stderr)
}

func (x Display) bytes() []byte {
	b := x.W.Encode(x.L)
	r := model.NewRng(x.X)
	switch x.Bad {
	case 1:
		b = b[:r.Intn(len(b))]
	case 2:
		// a string claims to be very long
		w := x.W.Clone()
		items := w.Items(x.L)
		k := r.Intn(len(items))
		cs := w.EncodeItems(items[:k], x.L)
		b = nil
		for _, c := range cs {
			b = append(b, c.B...)
		}
		b = b[:len(b)-9]
		b = append(b, []byte{byte(r.Intn(2) + 1), 0, 0, 0, 0}...)
		b = append(b, byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)))
		for i := r.Intn(200); i > 0; i-- {
			b = append(b, byte(r.Next()))
		}
	case 3:
		n := r.Intn(2000)
		head := r.Intn(2) == 0
		if head {
			b = b[:31]
		} else {
			b = nil
		}
		for i := 0; i < n; i++ {
			b = append(b, byte(r.Next()))
		}
	case 4:
		b = nil
	}
	return b
}

var percents = regexp.MustCompile(`(-?[0-9.]+|NaN|[+-]Inf)\s*%`)

func init() {
	// C05: a word of status with the lowest bit of JVMTI state only
	prop.Add("C05", "aliveOnly", 120, 1000, func(t *rapid.T) Case {
		x := Case{W: genWorld(t, model.Opts{Small: true, NoSystem: true}), L: model.GenLayout(t), C: Cmd{Name: "threads"}}
		x.X = rapid.Uint64().Draw(t, "bits")
		return x
	}, func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			w := x.W.Clone()
			ix := w.Index()
			r := model.NewRng(x.X)
			changed := map[uint64]bool{}
			for i := range w.Roots {
				if w.Roots[i].Kind != model.RootThread || changed[w.Roots[i].Obj] {
					continue
				}
				for k := range w.Objs {
					if w.Objs[k].ID == w.Roots[i].Obj {
						p := ix.SlotOf(&w.Objs[k], "java/lang/Thread", "threadStatus")
						if p < 0 {
							prop.Broken("no threadStatus")
						}
						// alive, neither runnable nor blocked nor waiting
						w.Objs[k].Vals[p].V = 1 | uint64(uint32(r.Next())&^0x437&0x7fffffff)
						changed[w.Roots[i].Obj] = true
					}
				}
			}
			c.Nontrivial(len(changed) > 0)
			r1 := run(c, Case{W: w, L: x.L, C: x.C})
			if err := ok(r1); err != nil {
				return err
			}
			got, err := entries(x, r1)
			if err != nil {
				return err
			}
			exp := w.Threads()
			if len(got) != len(exp) {
				return fmt.Errorf("%d threads, expected %d", len(got), len(exp))
			}
			known := false
			for i, e := range exp {
				want := strings.TrimSpace(e.Line)
				if got[i].Line == want {
					continue
				}
				if k := strings.LastIndex(want, "RUNNABLE"); k >= 0 && got[i].Line == want[:k]+"NEW"+want[k+len("RUNNABLE"):] {
					known = true
					continue
				}
				return fmt.Errorf("thread %d: %q, expected %q", i, got[i].Line, want)
			}
			if known {
				return prop.Known{What: "status-alive-only"}
			}
			return nil
		})
	})

	// C19 at the level of the command
	prop.Add("C19", "command", 2400, 40000, func(t *rapid.T) Disorder {
		return Disorder{W: genWorld(t, model.Opts{Small: rapid.IntRange(0, 2).Draw(t, "small") > 0}), L: model.GenLayout(t),
			Kind: rapid.SampledFrom([]byte{model.KInst, model.KObjA, model.KPrim}).Draw(t, "kind"),
			How:  rapid.IntRange(0, 6).Draw(t, "how"), X: rapid.Uint64().Draw(t, "x"), Cs: genCmds(t, 2, 3)}
	}, func(c *prop.Ctx, x Disorder) error {
		return Guard(func() error {
			w, disordered := x.apply()
			d := c.Dir()
			// objects of different kinds interleaved in order
			if !disordered {
				l := x.L
				l.Mix = 2 + l.Mix%2
				Write(d, "h.hprof", x.W.Encode(l))
				c.Executions(1)
				c.Class("in order")
				return Expect(x.W).Check(x.Cs[0], Run(d, x.Cs[0].Args("h.hprof")...))
			}
			c.Nontrivial(true)
			c.Class("kind %#x", x.Kind)
			c.Class("disorder %d", x.How)
			c.Sample("%s; disorder %d of kind %#x; %v", describe(x.W, x.L), x.How, x.Kind, x.Cs)
			p := Write(d, "h.hprof", w.Encode(x.L))
			setTime(p, 20000*day)
			for i, cmd := range x.Cs {
				c.Executions(1)
				if err := refused(Run(d, cmd.Args("h.hprof")...)); err != nil {
					return fmt.Errorf("run %d on a dump with unordered identifiers: %w", i, err)
				}
			}
			if x.X%4 == 0 {
				// the dump in order takes its place
				setTime(Write(d, "h.hprof", x.W.Encode(x.L)), 20001*day)
				c.Executions(1)
				if err := Expect(x.W).Check(x.Cs[0], Run(d, x.Cs[0].Args("h.hprof")...)); err != nil {
					return fmt.Errorf("after a refused dump: %w", err)
				}
			}
			return nil
		})
	})

	// C26: many files at once since a run with the display takes a second
	prop.Add("C26", "progress", 64, 1500, func(t *rapid.T) []Display {
		n := rapid.IntRange(1, 24).Draw(t, "files")
		xs := make([]Display, n)
		for i := range xs {
			xs[i] = Display{W: genWorld(t, model.Opts{Small: rapid.IntRange(0, 2).Draw(t, "small") > 0}), L: model.GenLayout(t), C: genCmd(t), X: rapid.Uint64().Draw(t, "x")}
			if rapid.IntRange(0, 1).Draw(t, "bad") == 1 {
				xs[i].Bad = rapid.IntRange(1, 4).Draw(t, "badKind")
			}
			xs[i].Err = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 4}).Draw(t, "stderr")
		}
		return xs
	}, func(c *prop.Ctx, xs []Display) error {
		return Guard(func() error {
			d := c.Dir()
			// one run without and two with the display: indexing and indexed
			shown := 0
			quiet := make([]*Result, len(xs))
			for i, x := range xs {
				dir := filepath.Join(d, fmt.Sprintf("q%d", i))
				prop.Must(os.Mkdir(dir, 0o755))
				Write(dir, "h.hprof", x.bytes())
				quiet[i] = Run(dir, x.C.Args("h.hprof")...)
			}
			loud := RunAll(len(xs), func(i int) *Result {
				dir := filepath.Join(d, fmt.Sprintf("p%d", i))
				prop.Must(os.Mkdir(dir, 0o755))
				Write(dir, "h.hprof", xs[i].bytes())
				cmd := xs[i].C
				cmd.Progress = true
				if xs[i].Err > 0 {
					if r := (Surroundings{Umask: -1, Stderr: xs[i].Err}).run(dir, cmd); r != nil {
						return r
					}
				}
				return Run(dir, cmd.Args("h.hprof")...)
			})
			c.Executions(2 * len(xs))
			for i, x := range xs {
				what := fmt.Sprintf("file %d (bad %d, errors to %s)", i, x.Bad, []string{"a pipe", "a file", "a terminal", "nowhere", "a full device"}[x.Err])
				if err := crashed(loud[i]); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				if err := crashed(quiet[i]); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				if quiet[i].Err != "" {
					return fmt.Errorf("%s: the display is off: %v", what, quiet[i])
				}
				if quiet[i].Code != loud[i].Code || quiet[i].Out != loud[i].Out {
					return fmt.Errorf("%s: the display changes the result %s: %v, with it %v", what, firstDiff(quiet[i].Out, loud[i].Out), quiet[i], loud[i])
				}
				if x.Bad == 0 {
					if err := Expect(x.W).Check(x.C, loud[i]); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
				}
				for _, m := range percents.FindAllStringSubmatch(loud[i].Err, -1) {
					v, err := strconv.ParseFloat(m[1], 64)
					if err != nil || !(v >= 0 && v <= 100) {
						return fmt.Errorf("%s: progress of %s%%: %v", what, m[1], loud[i])
					}
					shown++
				}
				c.Class("%s exit code %d", map[int]string{0: "dump", 1: "cut", 2: "claims too much", 3: "random bytes", 4: "empty"}[x.Bad], loud[i].Code)
			}
			c.Nontrivial(shown > 0)
			c.ClassIf(shown > 0, "progress shown")
			c.Sample("%d files, %d values of progress, first: %s bad %d %v", len(xs), shown, describe(xs[0].W, xs[0].L), xs[0].Bad, xs[0].C)
			return nil
		})
	})

	// C26: the display is renewed while the dump is being read
	prop.Add("C26", "long", 3, 60, func(t *rapid.T) Huge {
		x := Huge{W: genWorld(t, model.Opts{Small: true, ForceLocals: true}), L: model.GenLayout(t)}
		x.L.Mix = min(x.L.Mix, 1)
		x.Cs = []Cmd{genCmd(t, "threads", "summary", "summary", "objects"), {Name: "threads", Locals: true}}
		x.Bulk = rapid.SampledFrom([]byte{model.KInst, model.KObjA, model.KPrim}).Draw(t, "kind")
		x.Total = rapid.IntRange(4_500_000, 6_000_000).Draw(t, "objects")
		x.Gap, x.Spread, x.Locals = rapid.Uint64().Draw(t, "gap"), true, 200
		return x
	}, func(c *prop.Ctx, x Huge) error {
		return Guard(func() error {
			w := x.world()
			someLocals(w, x.Locals, x.Gap)
			d := c.Dir()
			size := WriteChunks(filepath.Join(d, "h.hprof"), w.EncodeItems(w.Items(x.L), x.L))
			e := Expect(w)
			for i, cmd := range x.Cs {
				cmd.Progress = true
				r := Run(d, cmd.Args("h.hprof")...)
				c.Executions(1)
				if err := e.Check(cmd, r); err != nil {
					return fmt.Errorf("dump of %d bytes: %w", size, err)
				}
				n := len(percents.FindAllString(r.Err, -1))
				if i == 0 {
					c.Nontrivial(n >= 2)
					c.Sample("%d bytes, %d objects, %d values of progress; %v", size, len(w.Objs), n, cmd)
				}
			}
			return nil
		})
	})

	// C24: huge arrays
	prop.Add("C24", "huge", 16, 160, func(t *rapid.T) Huge {
		x := Huge{W: genWorld(t, model.Opts{Small: true, IDSize: rapid.SampledFrom([]int{8, 8, 4}).Draw(t, "ids")}), L: model.GenLayout(t),
			Cs: genCmds(t, 2, 3)}
		// every kind of report
		for _, n := range []string{"threads", "summary", "objects"} {
			has := false
			for _, c := range x.Cs {
				has = has || c.Name == n
			}
			if !has {
				x.Cs = append(x.Cs, genCmd(t, n))
			}
		}
		x.L.Mix = min(x.L.Mix, 2) // no record of another kind may follow a segment of unknown length
		left := uint64(14 << 30)
		n := rapid.IntRange(1, 4).Draw(t, "arrays")
		for i := 0; i < n; i++ {
			a := HugeArray{Type: rapid.SampledFrom(append([]byte{model.TObject}, model.PrimTypes...)).Draw(t, "type"), Gap: rapid.Uint64().Draw(t, "gap")}
			size := rapid.SampledFrom([]uint64{1<<32 + 5, 1<<32 - 40, 6 << 30, 1 << 31, 1<<31 - 1, 1 << 30, 100 << 20}).Draw(t, "bytes")
			if i == 0 {
				size = rapid.SampledFrom([]uint64{1<<32 + 5, 1<<32 + 1<<20, 6 << 30, 5 << 30}).Draw(t, "bytes")
			}
			size = min(size, left)
			left -= size
			a.N = uint32(min(size/uint64(model.TypeSize(a.Type, x.W.IDSize)), 1<<32-1))
			if rapid.IntRange(0, 3).Draw(t, "javaMax") > 0 {
				a.N = min(a.N, 1<<31-1)
			}
			x.Arrays = append(x.Arrays, a)
		}
		return x
	}, func(c *prop.Ctx, x Huge) error {
		return Guard(func() error { return x.check(c) })
	})

	// C24: more objects than a batch of the index has
	prop.Add("C24", "many", 16, 120, func(t *rapid.T) Huge {
		x := Huge{W: genWorld(t, model.Opts{Small: true}), L: model.GenLayout(t)}
		x.L.Mix, x.L.Seg = min(x.L.Mix, 1), 0
		for _, n := range []string{"threads", "summary", "objects"} {
			x.Cs = append(x.Cs, genCmd(t, n))
		}
		x.Bulk = rapid.SampledFrom([]byte{model.KInst, model.KObjA, model.KPrim}).Draw(t, "kind")
		x.Total = 1000001*rapid.IntRange(1, 2).Draw(t, "batches") + rapid.IntRange(-2, 3).Draw(t, "off")
		x.Gap = rapid.Uint64().Draw(t, "gap")
		return x
	}, func(c *prop.Ctx, x Huge) error {
		return Guard(func() error { return x.check(c) })
	})
}

// HugeArray is put to the heap at some place.
type HugeArray struct {
	Type byte   `json:"t"`
	N    uint32 `json:"n"`
	Gap  uint64 `json:"g"`
}

// Huge is a dump that is larger than it is convenient to keep in memory.
type Huge struct {
	W      *model.World `json:"w"`
	L      model.Layout `json:"l"`
	Arrays []HugeArray  `json:"arrays,omitempty"`
	Bulk   byte         `json:"bulk,omitempty"`   // kind of many small objects
	Total  int          `json:"total,omitempty"`  // so many objects of the kind are in the dump
	Gap    uint64       `json:"gap,omitempty"`    // where they are
	Spread bool         `json:"spread,omitempty"` // they are between all the other objects
	Locals int          `json:"locals,omitempty"` // so many more local variables
	Cs     []Cmd        `json:"cs"`
}

// world puts huge arrays and bulk objects to the heap.
func (x Huge) world() *model.World {
	w := x.W.Clone()
	var arrayClass, instClass uint64
	ix := w.Index()
	for i := range w.Classes {
		switch ix.ClassName(w.Classes[i].ID) {
		case "[Ljava/lang/Object;":
			arrayClass = w.Classes[i].ID
		case "java/lang/Object":
			instClass = w.Classes[i].ID
		}
	}
	if arrayClass == 0 || instClass == 0 {
		prop.Broken("no class of arrays")
	}
	have := 0
	for i := range w.Objs {
		if w.Objs[i].Kind == x.Bulk {
			have++
		}
	}
	bulk := max(x.Total-have, 0)
	if x.Bulk == 0 {
		bulk = 0
	}
	// identifiers are spread to make place: small ones get it in 4 bytes as well
	var ids []uint64
	for i := range w.Objs {
		ids = append(ids, w.Objs[i].ID)
	}
	for i := range w.Classes {
		ids = append(ids, w.Classes[i].ID)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	type extra struct {
		at int // after so many of the old ones
		k  int // -1 is the bulk
		n  int
	}
	var extras []extra
	for k, a := range x.Arrays {
		extras = append(extras, extra{int(a.Gap % uint64(len(ids)+1)), k, 1})
	}
	if bulk > 0 && x.Spread {
		for i := 0; i <= len(ids); i++ {
			n := bulk / (len(ids) + 1)
			if i == 0 {
				n = bulk - n*len(ids)
			}
			extras = append(extras, extra{i, -1, n})
		}
	} else if bulk > 0 {
		extras = append(extras, extra{int(x.Gap % uint64(len(ids)+1)), -1, bulk})
	}
	sort.SliceStable(extras, func(i, j int) bool { return extras[i].at < extras[j].at })
	next := uint64(1000)
	step := uint64(8)
	if w.IDSize == 8 && x.Gap%2 == 0 {
		next = 0x7f0000000000
	}
	newID := map[uint64]uint64{0: 0}
	var added []model.Obj
	e := 0
	for i := 0; i <= len(ids); i++ {
		for e < len(extras) && extras[e].at == i {
			if k := extras[e].k; k >= 0 {
				a := x.Arrays[k]
				o := model.Obj{Kind: model.KPrim, ID: next, T: a.Type, Zeros: a.N}
				if a.Type == model.TObject {
					o = model.Obj{Kind: model.KObjA, ID: next, Class: arrayClass, Zeros: a.N}
				}
				added = append(added, o)
				next += step
			} else {
				for j := 0; j < extras[e].n; j++ {
					o := model.Obj{Kind: x.Bulk, ID: next}
					switch x.Bulk {
					case model.KInst:
						o.Class = instClass
					case model.KObjA:
						o.Class = arrayClass
					default:
						o.T = model.PrimTypes[j%8]
					}
					added = append(added, o)
					next += step
				}
			}
			e++
		}
		if i < len(ids) {
			if _, ok := newID[ids[i]]; !ok {
				newID[ids[i]] = next
				next += step
			}
		}
	}
	w.Renumber(func(id uint64) uint64 {
		v, ok := newID[id]
		if !ok {
			// refers to nothing
			return id%8 + 1
		}
		return v
	})
	for i := range added {
		if added[i].Class != 0 {
			added[i].Class = newID[added[i].Class]
		}
	}
	w.Objs = append(w.Objs, added...)
	w.SortObjs()
	return w
}

func (x Huge) check(c *prop.Ctx) error {
	w := x.world()
	d := c.Dir()
	size := WriteChunks(filepath.Join(d, "h.hprof"), w.EncodeItems(w.Items(x.L), x.L))
	e := Expect(w)
	var rss int64
	for round := 0; round < 2; round++ {
		for _, cmd := range x.Cs {
			r := RunMeasured(d, cmd.Args("h.hprof")...)
			c.Executions(1)
			if err := e.Check(cmd, r); err != nil {
				return fmt.Errorf("dump of %d bytes: %w", size, err)
			}
			rss = max(rss, r.MaxRSS)
			// index records are kept in batches of 16 MB, payloads are not kept
			if limit := int64(256 << 10); r.MaxRSS > limit {
				return fmt.Errorf("%v took %d KiB of memory for a dump of %d bytes", cmd, r.MaxRSS, size)
			}
		}
	}
	c.Nontrivial(size > 1<<32 || len(w.Objs) > 1000000)
	c.ClassIf(size > 1<<32, "over 4 GiB")
	c.ClassIf(size > 1<<33, "over 8 GiB")
	c.ClassIf(w.IDSize == 4, "4-byte ids")
	if x.Bulk > 0 {
		c.Class("%d objects of kind %#x", x.Total, x.Bulk)
	}
	c.Sample("%d bytes, %d objects, arrays %+v, at most %d KiB of memory; %v", size, len(w.Objs), x.Arrays, rss, x.Cs)
	return nil
}
