package cli

import (
	"fmt"
	"os"
	"regexp"
	"slices"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

// Several is a dump with several commands.
type Several struct {
	W  *model.World `json:"w"`
	L  model.Layout `json:"l"`
	Cs []Cmd        `json:"cs"`
	X  uint64       `json:"x,omitempty"`
}

func genCmds(t *rapid.T, min, max int) []Cmd {
	n := rapid.IntRange(min, max).Draw(t, "commands")
	cs := make([]Cmd, n)
	for i := range cs {
		cs[i] = genCmd(t)
	}
	return cs
}

// everything makes a local variable of every object and class.
func everything(w *model.World, r *model.Rng) bool {
	type at struct{ thread, frame uint64 }
	var frames []at
	traces := map[uint32]*model.Trace{}
	for i := range w.Traces {
		traces[w.Traces[i].Thread] = &w.Traces[i]
	}
	for _, root := range w.Roots {
		if root.Kind == model.RootThread {
			for k := range traces[uint32(root.A)].Frames {
				frames = append(frames, at{root.A, uint64(k)})
			}
		}
	}
	if len(frames) == 0 {
		return false
	}
	add := func(id uint64) {
		f := frames[r.Intn(len(frames))]
		w.Roots = append(w.Roots, model.Root{Kind: []byte{model.RootJavaFrame, model.RootJNILocal}[r.Intn(2)], Obj: id, A: f.thread, B: f.frame})
	}
	for i := range w.Objs {
		add(w.Objs[i].ID)
	}
	for i := range w.Classes {
		add(w.Classes[i].ID)
	}
	return true
}

// normal makes the order of the local variables of a frame irrelevant.
func normal(c Cmd, out string) string {
	if c.Name != "threads" || !c.Locals {
		return out
	}
	if c.HTML {
		out = bare(out)
	}
	ls := strings.Split(out, "\n")
	isLocal := func(l string) bool {
		return strings.HasPrefix(strings.TrimSpace(model.StripColors(l)), "local ") || strings.Contains(l, `<p class="two">`)
	}
	for i := 0; i < len(ls); i++ {
		if isLocal(ls[i]) {
			k := i
			for k < len(ls) && isLocal(ls[k]) {
				k++
			}
			sort.Strings(ls[i:k])
			i = k
		}
	}
	return strings.Join(ls, "\n")
}

// firstDiff shows where two texts differ.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("at byte %d: %q and %q", i, a[from:min(len(a), i+60)], b[from:min(len(b), i+60)])
}

// Pair is a heap dumped twice.
type Pair struct {
	W      *model.World `json:"w"`
	L1, L2 model.Layout
	Cs     []Cmd `json:"cs"`
}

// Forms are commands over a dump with hostile texts.
type Forms struct {
	W *model.World `json:"w"`
	L model.Layout `json:"l"`
	C Cmd          `json:"c"`
}

func init() {
	world := func(o model.Opts) func(t *rapid.T) *model.World {
		return func(t *rapid.T) *model.World {
			o := o
			if rapid.IntRange(0, 2).Draw(t, "small") == 0 {
				o.Small = true
			} else if o.Bulk == 0 {
				o.Bulk = 3
			}
			return genWorld(t, o)
		}
	}

	prop.Add("C01", "everyObjectIsLocal", 3000, 45000, func(t *rapid.T) Case {
		w := genWorld(t, model.Opts{NoSystem: true, ForceLocals: true, MaxThreads: 3, Bulk: 3, BulkKind: "objects,classes,hierarchy,depth"})
		everything(w, model.NewRng(rapid.Uint64().Draw(t, "places")))
		return Case{W: w, L: model.GenLayout(t), C: Cmd{Name: "threads", Locals: true, HTML: rapid.IntRange(0, 5).Draw(t, "html") == 5}}
	}, func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			e := Expect(x.W)
			n := 0
			for _, t := range e.Threads {
				for _, f := range t.Frames {
					n += len(f.Locals)
				}
			}
			c.Nontrivial(n >= len(x.W.Objs) && len(x.W.Objs) > 3)
			c.Sample("%s; %d objects and classes looked up by the command", describe(x.W, x.L), n)
			return e.Check(x.C, run(c, x))
		})
	})

	// C02 at the level of the command: all the content of any report, when the
	// records were just parsed and when they are restored
	prop.Add("C02", "reports", 1600, 26000, func(t *rapid.T) Several {
		return Several{W: world(model.Opts{Symbols: true})(t), L: model.GenLayout(t), Cs: genCmds(t, 2, 3)}
	}, func(c *prop.Ctx, x Several) error {
		return Guard(func() error {
			e := Expect(x.W)
			d := c.Dir()
			Write(d, "h.hprof", x.W.Encode(x.L))
			c.Nontrivial(len(e.Threads) > 0 && len(e.Histogram.Rows) > 3)
			c.Sample("%s; %v", describe(x.W, x.L), x.Cs)
			for _, cmd := range x.Cs {
				c.Executions(1)
				if err := e.Check(cmd, Run(d, cmd.Args("h.hprof")...)); err != nil {
					return err
				}
			}
			return nil
		})
	})

	// C13
	prop.Add("C13", "layouts", 2400, 38000, func(t *rapid.T) Pair {
		p := Pair{W: world(model.Opts{})(t), L1: model.GenLayout(t), L2: model.GenLayout(t)}
		if rapid.IntRange(0, 2).Draw(t, "plain") == 0 {
			p.L1 = model.Layout{}
		}
		p.Cs = []Cmd{genCmd(t, "threads"), genCmd(t, "summary"), genCmd(t, "objects")}
		return p
	}, func(c *prop.Ctx, x Pair) error {
		return Guard(func() error {
			a, b := x.W.Encode(x.L1), x.W.Encode(x.L2)
			d := c.Dir()
			Write(d, "a.hprof", a)
			Write(d, "b.hprof", b)
			c.Nontrivial(string(a) != string(b) && len(x.W.Objs) > 3)
			c.ClassIf(x.L1.Seg != x.L2.Seg, "different segments")
			c.ClassIf(x.L1.Zero != x.L2.Zero, "different knowledge of segment lengths")
			c.ClassIf(x.L1.Mix != x.L2.Mix, "different order of records")
			c.ClassIf(x.L1.Mix == 3 || x.L2.Mix == 3, "records between segments")
			c.Sample("%s and %+v; %v", describe(x.W, x.L1), x.L2, x.Cs)
			for _, cmd := range x.Cs {
				c.Executions(2)
				ra, rb := Run(d, cmd.Args("a.hprof")...), Run(d, cmd.Args("b.hprof")...)
				for _, r := range []*Result{ra, rb} {
					if err := ok(r); err != nil {
						return err
					}
				}
				if na, nb := normal(cmd, ra.Out), normal(cmd, rb.Out); na != nb {
					return fmt.Errorf("%v: reports of two layouts differ %s", cmd, firstDiff(na, nb))
				}
			}
			return nil
		})
	})

	// C14
	prop.Add("C14", "widths", 2400, 38000, func(t *rapid.T) Several {
		return Several{W: world(model.Opts{IDSize: 4})(t), L: model.GenLayout(t),
			Cs: []Cmd{genCmd(t, "threads"), genCmd(t, "summary"), genCmd(t, "objects")}}
	}, func(c *prop.Ctx, x Several) error {
		return Guard(func() error {
			wide := x.W.Clone()
			wide.IDSize = 8
			d := c.Dir()
			Write(d, "a.hprof", x.W.Encode(x.L))
			Write(d, "b.hprof", wide.Encode(x.L))
			high := false
			arrays := 0
			for i := range x.W.Objs {
				o := &x.W.Objs[i]
				high = high || o.ID>>31 != 0
				if o.Kind == model.KObjA && len(o.Elems) > 0 {
					arrays++
				}
			}
			c.Nontrivial(arrays > 0)
			c.ClassIf(high, "identifiers with the highest bit")
			c.Sample("%s; %d object arrays with elements; %v", describe(x.W, x.L), arrays, x.Cs)
			for _, cmd := range x.Cs {
				c.Executions(2)
				ra, rb := Run(d, cmd.Args("a.hprof")...), Run(d, cmd.Args("b.hprof")...)
				for _, r := range []*Result{ra, rb} {
					if err := ok(r); err != nil {
						return err
					}
				}
				switch cmd.Name {
				case "threads":
					if ra.Out != rb.Out {
						return fmt.Errorf("%v: reports of two widths differ %s", cmd, firstDiff(ra.Out, rb.Out))
					}
				case "summary":
					sa, sb := heapSize.ReplaceAllString(outOf(Case{C: cmd}, ra), "Heap Size"), heapSize.ReplaceAllString(outOf(Case{C: cmd}, rb), "Heap Size")
					if sa != sb {
						return fmt.Errorf("%v: reports of two widths differ %s", cmd, firstDiff(sa, sb))
					}
					if err := Expect(x.W).Check(cmd, ra); err != nil {
						return fmt.Errorf("4-byte identifiers: %w", err)
					}
					if err := Expect(wide).Check(cmd, rb); err != nil {
						return fmt.Errorf("8-byte identifiers: %w", err)
					}
				default:
					if err := sameRows(x, cmd, ra, rb); err != nil {
						return err
					}
				}
			}
			return nil
		})
	})

	// C22
	prop.Add("C22", "forms", 2600, 40000, func(t *rapid.T) Forms {
		w := world(model.Opts{Symbols: true, MaxProps: 20})(t)
		hostile(w, t)
		return Forms{w, model.GenLayout(t), genCmd(t)}
	}, func(c *prop.Ctx, x Forms) error {
		return Guard(func() error {
			d := c.Dir()
			Write(d, "h.hprof", x.W.Encode(x.L))
			cmd := x.C
			cmd.HTML, cmd.Color = false, false
			plain := Run(d, cmd.Args("h.hprof")...)
			cmd.Color = true
			color := Run(d, cmd.Args("h.hprof")...)
			cmd.HTML = true
			html := Run(d, cmd.Args("h.hprof")...)
			cmd.Color = false
			html2 := Run(d, cmd.Args("h.hprof")...)
			c.Executions(4)
			for _, r := range []*Result{plain, color, html, html2} {
				if err := ok(r); err != nil {
					return err
				}
			}
			if html.Out != html2.Out {
				return fmt.Errorf("-no-color changes the HTML report %s", firstDiff(html.Out, html2.Out))
			}
			if strings.Contains(plain.Out, "\x1b[") {
				return fmt.Errorf("color codes in the report without colors: %s", plain)
			}
			c.ClassIf(color.Out != plain.Out, "has colors")
			special := strings.ContainsAny(plain.Out, "<>&'\"")
			c.Nontrivial(special && len(plain.Out) > 100)
			c.ClassIf(strings.Contains(strings.ToLower(plain.Out), "<script"), "has markup")
			c.Sample("%s; %v; %.300q", describe(x.W, x.L), x.C, plain.Out)
			// the colored report is the plain report with color codes and indentation
			a, b := bare(plain.Out), bare(model.StripColors(color.Out))
			if a != b {
				return fmt.Errorf("colored report differs from the plain one %s", firstDiff(a, b))
			}
			if color.Out == plain.Out && a != "" {
				return fmt.Errorf("there are no colors in the colored report")
			}
			// and the same is in HTML
			e := Expect(x.W)
			for _, r := range []struct {
				c Cmd
				r *Result
			}{{Cmd{Name: cmd.Name, Locals: cmd.Locals, AllProps: cmd.AllProps, BySize: cmd.BySize}, plain}, {cmd, html}} {
				if err := e.Check(r.c, r.r); err != nil {
					return err
				}
			}
			return sameForms(cmd, plain.Out, html.Out)
		})
	})

	prop.Add("C22", "codes", 500, 8000, func(t *rapid.T) Forms {
		x := Forms{W: genWorld(t, model.Opts{Codes: true, MaxProps: 12, MaxObjs: 10, Bulk: -1}), L: model.GenLayout(t), C: genCmd(t, "threads", "summary", "objects")}
		x.C.AllProps = x.C.Name == "summary"
		r := model.NewRng(rapid.Uint64().Draw(t, "names"))
		for i := range x.W.Strs { // classes of the application and their methods
			s := &x.W.Strs[i]
			for _, l := range x.W.Loads {
				if l.Name == s.ID && isApp(s.S) && r.Intn(3) == 0 {
					s.S += []string{"\x1b(0m", "\x1b]0m", "\x1b"}[r.Intn(3)]
				}
			}
		}
		return x
	}, func(c *prop.Ctx, x Forms) error {
		return Guard(func() error {
			d := c.Dir()
			Write(d, "h.hprof", x.W.Encode(x.L))
			cmd := x.C
			cmd.HTML, cmd.Color = false, false
			plain := Run(d, cmd.Args("h.hprof")...)
			cmd.Color = true
			color := Run(d, cmd.Args("h.hprof")...)
			c.Executions(2)
			for _, r := range []*Result{plain, color} {
				if err := ok(r); err != nil {
					return err
				}
			}
			c.Nontrivial(strings.Contains(plain.Out, "\x1b"))
			c.ClassIf(strings.Contains(plain.Out, "\x1b["), "codes in the plain report")
			c.Sample("%s; %v; %.300q", describe(x.W, x.L), x.C, plain.Out)
			a, b := strings.Split(bare(plain.Out), "\n"), strings.Split(bare(color.Out), "\n")
			if len(a) != len(b) {
				return fmt.Errorf("%d lines in the plain report, %d in the colored one: %q, %q", len(a), len(b), plain.Out, color.Out)
			}
			for i := range a {
				if !colored(a[i], b[i]) {
					return fmt.Errorf("line %d of the colored report %q is not that of the plain one %q with colors", i, b[i], a[i])
				}
			}
			e := Expect(x.W)
			cmd.Color = false
			return e.Check(cmd, plain)
		})
	})

	// C23
	prop.Add("C23", "repeat", 1500, 24000, func(t *rapid.T) Several {
		w := world(model.Opts{MaxObjs: 80})(t)
		ties(w, model.NewRng(rapid.Uint64().Draw(t, "ties")))
		c := genCmd(t)
		c.AllProps = c.Name == "summary"
		if rapid.IntRange(0, 1).Draw(t, "objects") == 0 {
			c = genCmd(t, "objects")
		}
		x := Several{W: w, L: model.GenLayout(t), Cs: []Cmd{c}}
		if rapid.IntRange(0, 3).Draw(t, "twins") == 0 {
			x.X = rapid.Uint64().Draw(t, "twin")
		}
		return x
	}, func(c *prop.Ctx, x Several) error {
		return Guard(func() error {
			d := c.Dir()
			if x.X > 0 {
				x.W = x.W.Clone()
				twins(x.W, model.NewRng(x.X))
				c.ClassIf(true, "two classes have the same known name")
			}
			Write(d, "h.hprof", x.W.Encode(x.L))
			cmd := x.Cs[0]
			h := x.W.Histogram()
			same := map[model.Row]int{}
			tied := 0
			for _, r := range h.Rows {
				k := model.Row{Name: "", Count: r.Count}
				if same[k]++; same[k] == 2 {
					tied++
				}
			}
			c.Nontrivial(cmd.Name != "objects" || tied > 0)
			c.ClassIf(tied > 0, "rows tied by count")
			c.Sample("%s; %v; %d ties by count", describe(x.W, x.L), cmd, tied)
			var first *Result
			for i := 0; i < 8; i++ {
				if i == 4 || i == 6 {
					prop.Must(os.RemoveAll(d + "/h.hprof.db"))
				}
				r := Run(d, cmd.Args("h.hprof")...)
				c.Executions(1)
				if x.X > 0 {
					// which of the classes is the right one may not be told, it need not work
					if err := crashed(r); err != nil {
						return err
					}
				} else if err := ok(r); err != nil {
					return err
				}
				if first == nil {
					first = r
				} else if r.Code != first.Code || r.Code == 0 && r.Out != first.Out {
					return fmt.Errorf("%v: run %d prints another report %s", cmd, i, firstDiff(first.Out, r.Out))
				}
			}
			return nil
		})
	})

	// C29
	prop.Add("C29", "irrelevant", 2400, 38000, func(t *rapid.T) Several {
		return Several{W: world(model.Opts{})(t), L: model.GenLayout(t), X: rapid.Uint64().Draw(t, "additions"),
			Cs: []Cmd{genCmd(t, "threads"), genCmd(t, "summary"), genCmd(t, "objects")}}
	}, func(c *prop.Ctx, x Several) error {
		return Guard(func() error {
			more := x.W.Clone()
			note := addIrrelevant(more, model.NewRng(x.X))
			d := c.Dir()
			Write(d, "a.hprof", x.W.Encode(x.L))
			Write(d, "b.hprof", more.Encode(x.L))
			c.Nontrivial(len(more.Roots) > len(x.W.Roots)+3)
			c.Sample("%s; added %s; %v", describe(x.W, x.L), note, x.Cs)
			for k := range kindsOf(more.Roots[len(x.W.Roots):]) {
				c.Class("added root %#x", k)
			}
			for _, cmd := range x.Cs {
				c.Executions(2)
				ra, rb := Run(d, cmd.Args("a.hprof")...), Run(d, cmd.Args("b.hprof")...)
				for _, r := range []*Result{ra, rb} {
					if err := ok(r); err != nil {
						return err
					}
				}
				a, b := normal(cmd, ra.Out), normal(cmd, rb.Out)
				if cmd.Name == "summary" {
					if err := Expect(more).Check(cmd, rb); err != nil {
						return err
					}
					a, b = counted.ReplaceAllString(model.StripColors(a), "$1"), counted.ReplaceAllString(model.StripColors(b), "$1")
				}
				if a != b {
					return fmt.Errorf("%v: added %s change the report %s", cmd, note, firstDiff(a, b))
				}
			}
			return nil
		})
	})
	prop.Add("C29", "undefined", 4000, 60000, func(t *rapid.T) Case {
		w := genWorld(t, model.Opts{Small: true})
		code := rapid.SampledFrom(undefinedTypes()).Draw(t, "type")
		return Case{W: w, L: model.GenLayout(t), C: genCmd(t), Note: append([]byte{byte(code)}, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "body")...),
			X: rapid.Uint64().Draw(t, "place")}
	}, func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			items := x.W.Items(x.L)
			var places []int
			for i, it := range items {
				if it.Sub {
					places = append(places, i)
				}
			}
			if len(places) == 0 {
				return nil
			}
			at := places[int(x.X%uint64(len(places)))] + int(x.X>>40&1)
			items = append(items[:at:at], append([]model.Item{{Tag: x.Note[0], Sub: true, Body: x.Note[1:]}}, items[at:]...)...)
			d := c.Dir()
			WriteChunks(d+"/h.hprof", x.W.EncodeItems(items, x.L))
			c.Nontrivial(true)
			c.Class("type %#x", x.Note[0]&0xf0)
			c.Sample("%s; %v; sub-record %x at %d of %d", describe(x.W, x.L), x.C, x.Note, at, len(items))
			c.Executions(2)
			for i := 0; i < 2; i++ {
				if err := refused(Run(d, x.C.Args("h.hprof")...)); err != nil {
					return err
				}
			}
			return nil
		})
	})
}

func undefinedTypes() []int {
	var res []int
	for c := 0; c < 256; c++ {
		switch c {
		case 1, 2, 3, 4, 5, 6, 7, 8, 0xff, 0x20, 0x21, 0x22, 0x23:
		case 0x1c, 0x2c: // these end a segment
		default:
			res = append(res, c)
		}
	}
	return res
}

var (
	heapSize = regexp.MustCompile(`Heap Size\D*\d+[BKMG]`)
	counted  = regexp.MustCompile(`(Classes|GC Roots)\D*\d+`)
)

func kindsOf(rs []model.Root) map[byte]bool {
	m := map[byte]bool{}
	for _, r := range rs {
		m[r.Kind] = true
	}
	return m
}

// bare drops indentation and blank lines.
// colored tells whether the line is the plain one with color codes put
// anywhere; spaces at the ends do not matter.
func colored(plain, line string) bool {
	plain, line = strings.TrimSpace(plain), strings.TrimSpace(line)
	at := map[int]bool{0: true} // how much of the plain line may have been met
	skip := map[int]map[int]bool{}
	for i := 0; i <= len(line); i++ {
		for p := range skip[i] {
			at[p] = true
		}
		if i == len(line) {
			break
		}
		if m := colorCode.FindString(line[i:]); m != "" {
			to := skip[i+len(m)]
			if to == nil {
				to = map[int]bool{}
				skip[i+len(m)] = to
			}
			for p := range at {
				to[p] = true
			}
		}
		next := map[int]bool{}
		for p := range at {
			if p < len(plain) && plain[p] == line[i] {
				next[p+1] = true
			}
			if line[i] == ' ' && (p == 0 || p == len(plain)) {
				next[p] = true
			}
		}
		at = next
	}
	for p := range at {
		if strings.TrimSpace(plain[p:]) == "" {
			return true
		}
	}
	return false
}

var colorCode = regexp.MustCompile("^\x1b\\[[0-9;]*m")

func bare(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// sameForms compares entries of the plain and HTML reports in order.
func sameForms(c Cmd, plain, html string) error {
	switch c.Name {
	case "threads":
		a, err := model.ParseThreadsPlain(plain)
		if err != nil {
			return err
		}
		b, err := model.ThreadsHTMLEntries(html)
		if err != nil {
			return err
		}
		if len(a) != len(b) {
			return fmt.Errorf("%d threads in plain, %d in HTML", len(a), len(b))
		}
		for i := range a {
			if a[i].Line != b[i].Line || len(a[i].Frames) != len(b[i].Frames) {
				return fmt.Errorf("thread %+v in plain, %+v in HTML", a[i], b[i])
			}
			for k, f := range a[i].Frames {
				g := b[i].Frames[k]
				if f.Line != g.Line || strings.Join(f.Locals, "\n") != strings.Join(g.Locals, "\n") {
					return fmt.Errorf("frame %+v in plain, %+v in HTML", f, g)
				}
			}
		}
	case "objects":
		a, err := model.ParseObjectsPlain(plain)
		if err != nil {
			return err
		}
		b, err := model.ObjectsHTML(html)
		if err != nil {
			return err
		}
		if a.Count != b.Count || a.Size != b.Size || a.Header != b.Header || len(a.Rows) != len(b.Rows) {
			return fmt.Errorf("objects report differs: %+v in plain, %+v in HTML", a, b)
		}
		for i := range a.Rows {
			if a.Rows[i] != b.Rows[i] {
				return fmt.Errorf("row %d is %q in plain, %q in HTML", i, a.Rows[i], b.Rows[i])
			}
		}
	}
	return nil
}

// sameRows compares objects reports of the same heap with two widths.
func sameRows(x Several, cmd Cmd, ra, rb *Result) error {
	wide := x.W.Clone()
	wide.IDSize = 8
	if err := Expect(x.W).Check(cmd, ra); err != nil {
		return fmt.Errorf("4-byte identifiers: %w", err)
	}
	if err := Expect(wide).Check(cmd, rb); err != nil {
		return fmt.Errorf("8-byte identifiers: %w", err)
	}
	rows := func(r *Result) (*model.ObjectsReport, map[string]bool, error) {
		o, err := objectsReport(Case{C: cmd}, r)
		if err != nil {
			return nil, nil, err
		}
		m := map[string]bool{}
		for _, row := range o.Rows {
			m[row[0]+" "+row[1]] = true
		}
		return o, m, nil
	}
	oa, a, err := rows(ra)
	if err != nil {
		return err
	}
	ob, b, err := rows(rb)
	if err != nil {
		return err
	}
	if oa.Count != ob.Count || len(oa.Rows) != len(ob.Rows) {
		return fmt.Errorf("%s objects in %d rows with 4-byte identifiers, %s in %d with 8-byte ones", oa.Count, len(oa.Rows), ob.Count, len(ob.Rows))
	}
	for k := range a {
		if !b[k] {
			return fmt.Errorf("row %q is only in the report with 4-byte identifiers", k)
		}
	}
	return nil
}

// hostile replaces texts with markup and other dangerous ones.
func hostile(w *model.World, t *rapid.T) {
	r := model.NewRng(rapid.Uint64().Draw(t, "hostile"))
	sig := map[uint64]bool{}
	for _, f := range w.Frames {
		sig[f.Sig] = true
	}
	for i := range w.Strs {
		s := &w.Strs[i]
		if sig[s.ID] || r.Intn(3) != 0 {
			continue
		}
		used := false
		for _, f := range w.Frames {
			used = used || f.Method == s.ID || f.File == s.ID
		}
		class := false
		for _, l := range w.Loads {
			if l.Name == s.ID {
				used, class = isApp(s.S), true
			}
		}
		// names of fields keep their meaning
		for _, c := range w.Classes {
			for _, f := range c.Fields {
				used = used && f.Name != s.ID
			}
			for _, f := range c.Statics {
				used = used && f.Name != s.ID
			}
		}
		if used {
			s.S = rapid.SampledFrom(hostileTexts).Draw(t, "text")
			if class {
				// no class is named so, see JVMS 4.2.2
				s.S = strings.NewReplacer(";", "", "[", "").Replace(s.S)
			}
		}
	}
}

// isApp tells classes which mean nothing to the tool.
func isApp(s string) bool {
	for _, p := range []string{"java/", "sun/", "[", "app/Thread", "app/MyProperties"} {
		if strings.HasPrefix(s, p) {
			return false
		}
	}
	return true
}

var hostileTexts = []string{
	"<script>alert(1)</script>", "</p></div><b>x</b>", "&lt;x&gt;", "&amp;", "a&b", `"quoted"`, "'single'", "<!-- c -->", "-->", "]]>",
	"<img src=x onerror=alert(1)>", "</title>", "</style>", "{{.}}", "{{define}}", "%s%d%n", "\\u003c", "<", ">", "javascript:alert(1)", "x\x01y",
	"`tick`", "é<ü>", "日本<語>", "\U0001f600<\U0001d49c>", "a\U0010ffffb", "a|b", "x = y",
}

// ties gives several classes the same name and size.
func ties(w *model.World, r *model.Rng) {
	ix := w.Index()
	var names []uint64
	for i := range w.Loads {
		l := &w.Loads[i]
		n := ix.Str[l.Name]
		if !isApp(n) {
			continue
		}
		if len(names) > 0 && r.Intn(2) == 0 {
			l.Name = names[r.Intn(len(names))]
		} else {
			names = append(names, l.Name)
		}
		if c := ix.Class[l.ID]; c != nil && r.Intn(2) == 0 {
			c.Size = 16
		}
	}
}

func known(name string) bool {
	for _, k := range model.KnownNames {
		if k == name {
			return true
		}
	}
	return false
}

// twins loads some classes the reports look for by name once more, with other
// contents, as another class loader may do.
func twins(w *model.World, r *model.Rng) {
	names := map[uint64]string{}
	limit := uint64(1)<<32 - 1
	if w.IDSize == 8 {
		limit = 1<<64 - 1
	}
	used, serials := map[uint64]bool{0: true}, map[uint32]bool{}
	for _, s := range w.Strs {
		names[s.ID] = s.S
	}
	for i := range w.Objs {
		used[w.Objs[i].ID] = true
	}
	for _, c := range w.Classes {
		used[c.ID] = true
	}
	for _, l := range w.Loads {
		used[l.ID], serials[l.Serial] = true, true
	}
	loads := w.Loads
	for _, l := range loads {
		if !known(names[l.Name]) || r.Intn(2) == 0 {
			continue
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			id, serial := r.Next()&limit, uint32(r.Next())
			for used[id] {
				id = r.Next() & limit
			}
			for serials[serial] {
				serial++
			}
			used[id], serials[serial] = true, true
			for _, c := range w.Classes {
				if c.ID != l.ID {
					continue
				}
				c.ID = id
				c.Statics = slices.Clone(c.Statics)
				for i := range c.Statics {
					if r.Intn(3) > 0 {
						c.Statics[i].V = 0
					}
				}
				w.Classes = append(w.Classes, c)
				break
			}
			t := model.Load{Serial: serial, ID: id, Name: l.Name}
			if r.Intn(2) == 0 {
				w.Loads = append(w.Loads, t)
			} else {
				w.Loads = append([]model.Load{t}, w.Loads...)
			}
		}
	}
}

// addIrrelevant adds records that concern no report.
func addIrrelevant(w *model.World, r *model.Rng) string {
	ix := w.Index()
	limit := uint64(1)<<32 - 1
	if w.IDSize == 8 {
		limit = 1<<64 - 1
	}
	usedStr := func(id uint64) bool { _, ok := ix.Str[id]; return ok || id == 0 }
	newStr := func(s string) uint64 {
		id := r.Next() & limit
		for usedStr(id) {
			id = r.Next() & limit
		}
		ix.Str[id] = s
		w.Strs = append(w.Strs, model.Str{ID: id, S: s})
		return id
	}
	objs := map[uint64]bool{0: true}
	for i := range w.Objs {
		objs[w.Objs[i].ID] = true
	}
	for i := range w.Classes {
		objs[w.Classes[i].ID] = true
	}
	traceThreads, traceSerials, serials := map[uint32]bool{0: true}, map[uint32]bool{}, map[uint32]bool{}
	type serialFrames struct{ serial, frames uint64 }
	var threads []serialFrames
	for _, t := range w.Traces {
		traceThreads[t.Thread], traceSerials[t.Serial] = true, true
		threads = append(threads, serialFrames{uint64(t.Thread), uint64(len(t.Frames))})
	}
	for _, t := range w.Roots {
		traceThreads[uint32(t.A)] = true
	}
	for _, l := range w.Loads {
		serials[l.Serial] = true
	}
	any := func() uint64 {
		if len(w.Objs) > 0 && r.Intn(4) > 0 {
			return w.Objs[r.Intn(len(w.Objs))].ID
		}
		if len(w.Classes) > 0 {
			return w.Classes[r.Intn(len(w.Classes))].ID
		}
		return 1
	}
	fresh := func(m map[uint32]bool) uint32 {
		for {
			s := uint32(r.Next())
			if r.Intn(2) == 0 {
				s &= 0xff
			}
			if !m[s] {
				m[s] = true
				return s
			}
		}
	}
	var note []string
	kinds := []byte{model.RootJNIGlobal, model.RootJNILocal, model.RootJavaFrame, model.RootNativeStack, model.RootSticky,
		model.RootThreadBlock, model.RootMonitor, model.RootUnknown}
	n := 1 + r.Intn(20)
	for i := 0; i < n; i++ {
		root := model.Root{Kind: kinds[r.Intn(len(kinds))], Obj: any()}
		switch root.Kind {
		case model.RootJNIGlobal:
			root.A = r.Next() & limit
		case model.RootNativeStack, model.RootThreadBlock:
			// of any thread, also of a listed one
			root.A = uint64(uint32(r.Next()))
			if len(threads) > 0 && r.Intn(3) > 0 {
				root.A = threads[r.Intn(len(threads))].serial
			}
		case model.RootJNILocal, model.RootJavaFrame:
			// of no frame of a listed thread
			root.A, root.B = uint64(fresh(traceThreads)), uint64(r.Intn(4))
			if len(threads) > 0 && r.Intn(3) > 0 {
				th := threads[r.Intn(len(threads))]
				root.A, root.B = th.serial, []uint64{0xffffffff, th.frames, th.frames + 1, th.frames + 1000}[r.Intn(4)]
			}
		}
		w.Roots = append(w.Roots, root)
	}
	if r.Intn(40) == 0 {
		// very many of one kind
		kinds := []byte{model.RootJNIGlobal, model.RootSticky, model.RootMonitor, model.RootUnknown, model.RootNativeStack, model.RootThreadBlock}
		kind, k := kinds[r.Intn(len(kinds))], 60000+r.Intn(15000)
		for i := 0; i < k; i++ {
			w.Roots = append(w.Roots, model.Root{Kind: kind, Obj: any(), A: 0})
		}
		n += k
	}
	note = append(note, fmt.Sprintf("%d roots", n))
	n = r.Intn(6)
	for i := 0; i < n; i++ {
		id := r.Next() & limit
		for objs[id] {
			id = r.Next() & limit
		}
		objs[id] = true
		names := []string{"zz/Unused", "zz/Unused$1", "[Lzz/Unused;", "[[Z", "java/lang/Unused", "A"}
		name := names[r.Intn(len(names))]
		if r.Intn(2) == 0 {
			if like := model.LikeKnown(r); !known(like) {
				name = like
			}
		}
		l := model.Load{Serial: fresh(serials), ID: id, Name: newStr(name)}
		w.Loads = append(w.Loads, l)
		c := model.Class{ID: id, Size: int32(r.Next() & 0xffff), Super: w.Classes[r.Intn(len(w.Classes))].ID}
		parts, kinds := r.Intn(4), 7
		if r.Intn(100) == 0 {
			// a generated one
			parts, kinds = []int{255, 256, 300, 4000, 8192, 20000, 32767, 32768, 40000, 65535}[r.Intn(10)], 1+r.Intn(7)
			note = append(note, fmt.Sprintf("%d fields (kinds %#b)", parts, kinds))
		}
		unused := newStr("unused")
		for k := parts; k > 0; k-- {
			t := model.AllTypes[r.Intn(len(model.AllTypes))]
			v := r.Next()
			if k < 4 {
				unused = newStr("unused")
			}
			if sz := model.TypeSize(t, w.IDSize); sz < 8 {
				v &= 1<<(8*sz) - 1
			}
			if kinds&1 != 0 {
				c.Statics = append(c.Statics, model.Static{Name: unused, Val: model.Val{T: t, V: v}})
			}
			if kinds&2 != 0 {
				c.Consts = append(c.Consts, model.Const{Idx: uint16(r.Next()), Val: model.Val{T: t, V: v}})
			}
			if kinds&4 != 0 {
				c.Fields = append(c.Fields, model.Field{Name: unused, T: t})
			}
		}
		w.Classes = append(w.Classes, c)
	}
	note = append(note, fmt.Sprintf("%d classes", n))
	n = r.Intn(6)
	for i := 0; i < n; i++ {
		s := fmt.Sprintf("unused%d", r.Intn(3))
		if r.Intn(50) == 0 {
			s = strings.Repeat(s, 1<<r.Intn(16))
		}
		newStr(s)
	}
	note = append(note, fmt.Sprintf("%d strings", n))
	frames := map[uint64]bool{0: true}
	for _, f := range w.Frames {
		frames[f.ID] = true
	}
	n = r.Intn(6)
	var mine []uint64
	for i := 0; i < n; i++ {
		id := r.Next() & limit
		if r.Intn(2) == 0 {
			id &= 0xff
		}
		if frames[id] {
			continue
		}
		frames[id] = true
		mine = append(mine, id)
		w.Frames = append(w.Frames, model.Frame{ID: id, Method: newStr("unused"), Sig: newStr("()V"), File: newStr("Unused.java"),
			ClassSerial: w.Loads[r.Intn(len(w.Loads))].Serial, Line: int32(r.Intn(100) - 3)})
	}
	note = append(note, fmt.Sprintf("%d frames", n))
	n = r.Intn(4)
	for i := 0; i < n; i++ {
		fs := mine
		if len(mine) > 0 && r.Intn(50) == 0 {
			// endless recursion
			fs = nil
			for k := 1 << r.Intn(17); k > 0; k-- {
				fs = append(fs, mine[r.Intn(len(mine))])
			}
		}
		w.Traces = append(w.Traces, model.Trace{Serial: fresh(traceSerials), Thread: fresh(traceThreads), Frames: fs})
	}
	note = append(note, fmt.Sprintf("%d traces", n))
	return strings.Join(note, ", ")
}
