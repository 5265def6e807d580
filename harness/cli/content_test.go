package cli

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"unicode"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

func TestProp(t *testing.T) { prop.Main(t) }

// Case is a dump and a command.
type Case struct {
	W    *model.World `json:"w"`
	L    model.Layout `json:"l"`
	C    Cmd          `json:"c"`
	Note []byte       `json:"note,omitempty"`
	X    uint64       `json:"x,omitempty"`
}

// genWorld draws a world and makes sure that the oracle understands it the way
// the generator meant it.
func genWorld(t *rapid.T, o model.Opts) *model.World {
	w, truth := model.GenWorld(t, o)
	if err := w.CheckTruth(truth, !o.NoSystem); err != nil {
		prop.Broken("generator and oracle disagree: %v", err)
	}
	return w
}

func genCmd(t *rapid.T, names ...string) Cmd {
	if len(names) == 0 {
		names = []string{"threads", "summary", "objects"}
	}
	c := Cmd{Name: rapid.SampledFrom(names).Draw(t, "command")}
	c.HTML = rapid.IntRange(0, 3).Draw(t, "html") == 3
	c.Color = rapid.IntRange(0, 3).Draw(t, "color") == 3
	switch c.Name {
	case "threads":
		c.Locals = rapid.Bool().Draw(t, "locals")
	case "summary":
		c.AllProps = rapid.Bool().Draw(t, "allProps")
	case "objects":
		c.BySize = rapid.Bool().Draw(t, "bySize")
	}
	return c
}

func describe(w *model.World, l model.Layout) string {
	kinds := map[byte]int{}
	for i := range w.Objs {
		kinds[w.Objs[i].Kind]++
	}
	return fmt.Sprintf("idsize=%d classes=%d instances=%d objarrays=%d primarrays=%d roots=%d frames=%d traces=%d strings=%d layout=%+v",
		w.IDSize, len(w.Classes), kinds[model.KInst], kinds[model.KObjA], kinds[model.KPrim], len(w.Roots), len(w.Frames), len(w.Traces), len(w.Strs), l)
}

func run(c *prop.Ctx, x Case) *Result {
	d := c.Dir()
	Write(d, "h.hprof", x.W.Encode(x.L))
	c.Executions(1)
	c.ClassIf(x.W.IDSize == 4, "4-byte ids")
	c.ClassIf(x.C.HTML, "html")
	c.ClassIf(x.C.Color && !x.C.HTML, "colored")
	return Run(d, x.C.Args("h.hprof")...)
}

func outOf(x Case, r *Result) string {
	if x.C.Color && !x.C.HTML {
		return model.StripColors(r.Out)
	}
	return r.Out
}

func init() {
	gen := func(o model.Opts, names ...string) func(t *rapid.T) Case {
		return func(t *rapid.T) Case {
			o := o
			if rapid.IntRange(0, 3).Draw(t, "small") == 0 {
				o.Small = true
			} else if o.Bulk == 0 {
				o.Bulk = 4
			}
			return Case{W: genWorld(t, o), L: model.GenLayout(t), C: genCmd(t, names...)}
		}
	}

	// C03: the rows and totals of the histogram, in any order
	prop.Add("C03", "histogram", 5200, 90000, gen(model.Opts{Bulk: 4, BulkKind: "classes,classes,classes,objects,hierarchy,depth,threads,roots,props,strings"}, "objects"), func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			r := run(c, x)
			if err := ok(r); err != nil {
				return err
			}
			h := x.W.Histogram()
			c.Nontrivial(len(h.Rows) >= 3)
			names := map[string]int{}
			for _, row := range h.Rows {
				names[row.Name]++
			}
			c.ClassIf(len(names) < len(h.Rows), "several classes of the same name have objects")
			for i := range x.W.Objs {
				if o := &x.W.Objs[i]; o.Kind != model.KInst && o.Len(x.W.IDSize) == 0 {
					c.Class("array of zero length")
					break
				}
			}
			c.Sample("%s; %v; %d rows, %d objects, %s bytes", describe(x.W, x.L), x.C, len(h.Rows), h.Count, h.Bytes)
			return histogramSet(x, outOf(x, r), h)
		})
	})

	// C04 at the level of the command
	prop.Add("C04", "command", 2600, 40000, func(t *rapid.T) Case {
		x := Case{W: genWorld(t, model.Opts{Small: true, NoSystem: true, MaxObjs: 30}), L: model.GenLayout(t), C: genCmd(t, "objects")}
		mode := rapid.IntRange(0, 3).Draw(t, "sizes")
		if mode > 0 {
			// declared sizes around the boundaries of units, or all of them zero
			units := []int32{0, 1, 1023, 1024, 1025, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<31 - 1}
			for i := range x.W.Classes {
				x.W.Classes[i].Size = 0
				if mode > 1 {
					x.W.Classes[i].Size = rapid.SampledFrom(units).Draw(t, "unit")
				}
			}
			if mode != 2 {
				// only instances and empty arrays
				for i := range x.W.Objs {
					o := &x.W.Objs[i]
					if o.Kind == model.KPrim {
						o.Data = nil
					}
					o.Elems = nil
				}
				// nothing but the histogram is asked of such a heap
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "nothing") == 9 {
			x.W.Objs, x.W.Roots, x.W.Traces, x.W.Frames = nil, nil, nil, nil
		}
		return x
	}, func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			h := x.W.Histogram()
			c.Nontrivial(len(h.Rows) >= 2)
			c.ClassIf(h.Bytes.Sign() == 0 && h.Count > 0, "all sizes zero")
			c.ClassIf(len(h.Rows) == 0, "no rows")
			c.ClassIf(h.Bytes.Cmp(big.NewInt(1<<40)) > 0, "over a terabyte")
			c.Sample("%s; %v; total %d objects, %s bytes", describe(x.W, x.L), x.C, h.Count, h.Bytes)
			return Expect2(x, run(c, x), h)
		})
	})

	// C05: lines of threads
	threadOpts := model.Opts{NoSystem: true, MaxThreads: 25, Bulk: 3, BulkKind: "threads,threads,classes,depth,frames,roots,objects,hierarchy"}
	prop.Add("C05", "threads", 5200, 90000, gen(threadOpts, "threads"), func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			r := run(c, x)
			if err := ok(r); err != nil {
				return err
			}
			exp := x.W.Threads()
			got, err := entries(x, r)
			if err != nil {
				return err
			}
			c.Nontrivial(len(exp) >= 2)
			c.ClassIf(len(exp) == 0, "no threads")
			c.ClassIf(hiding(x.W), "thread class hides fields of Thread")
			c.Sample("%s; %v; threads %q", describe(x.W, x.L), x.C, firstLines(exp))
			if len(got) != len(exp) {
				return fmt.Errorf("%d threads, expected %d", len(got), len(exp))
			}
			for i, e := range exp {
				if got[i].Line != strings.TrimSpace(e.Line) {
					return fmt.Errorf("thread %d: %q, expected %q", i, got[i].Line, e.Line)
				}
			}
			return nil
		})
	})

	// C06: frames of every thread
	frameOpts := model.Opts{NoSystem: true, MaxFrames: 40, Symbols: true, Bulk: 5, BulkKind: "depth,depth,frames,frames,threads,classes,strings"}
	prop.Add("C06", "frames", 5200, 90000, gen(frameOpts, "threads"), func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			r := run(c, x)
			if err := ok(r); err != nil {
				return err
			}
			got, err := entries(x, r)
			if err != nil {
				return err
			}
			exp := x.W.Threads()
			total := 0
			for _, e := range exp {
				total += len(e.Frames)
				c.ClassIf(len(e.Frames) >= 100, "deep stack")
				c.ClassIf(len(e.Frames) == 0, "thread without frames")
			}
			c.Nontrivial(total >= 3 && len(exp) >= 2)
			c.Sample("%s; %v; %d threads, %d frames", describe(x.W, x.L), x.C, len(exp), total)
			return byThread(exp, got, func(e model.ThreadText, g model.ThreadEntry) error {
				if len(g.Frames) != len(e.Frames) {
					return fmt.Errorf("%d frames, expected %d", len(g.Frames), len(e.Frames))
				}
				for i, f := range e.Frames {
					if g.Frames[i].Line != strings.TrimSpace(f.Line) {
						return fmt.Errorf("frame %d: %q, expected %q", i, g.Frames[i].Line, f.Line)
					}
				}
				return nil
			})
		})
	})

	// C07: local variables of every frame; nothing else changes
	localOpts := model.Opts{NoSystem: true, ForceLocals: true, Bulk: 5, BulkKind: "depth,depth,depth,locals,locals,frames,threads,classes,roots,objects"}
	prop.Add("C07", "locals", 3000, 45000, gen(localOpts, "threads"), func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			x.C.Locals = true
			with := run(c, x)
			x.C.Locals = false
			without := Run(c.Dir(), x.C.Args("h.hprof")...)
			c.Executions(1)
			for _, r := range []*Result{with, without} {
				if err := ok(r); err != nil {
					return err
				}
			}
			x.C.Locals = true
			got, err := entries(x, with)
			if err != nil {
				return err
			}
			bare, err := entries(x, without)
			if err != nil {
				return err
			}
			exp := x.W.Threads()
			locals := 0
			for _, e := range exp {
				for _, f := range e.Frames {
					locals += len(f.Locals)
					for _, l := range f.Locals {
						c.ClassIf(strings.HasPrefix(l, "class "), "class object as local")
						c.ClassIf(strings.HasSuffix(l, "[][]"), "matrix as local")
					}
				}
			}
			c.Nontrivial(locals >= 2)
			c.Sample("%s; %v; %d locals", describe(x.W, x.L), x.C, locals)
			if len(got) != len(bare) {
				return fmt.Errorf("%d threads with locals, %d without", len(got), len(bare))
			}
			for i, g := range got {
				if g.Line != bare[i].Line || len(g.Frames) != len(bare[i].Frames) {
					return fmt.Errorf("thread %q changes when locals are shown: %q", g.Line, bare[i].Line)
				}
				for k, f := range g.Frames {
					if f.Line != bare[i].Frames[k].Line {
						return fmt.Errorf("frame %q changes when locals are shown: %q", f.Line, bare[i].Frames[k].Line)
					}
					if len(bare[i].Frames[k].Locals) != 0 {
						return fmt.Errorf("locals %q are shown without a request", bare[i].Frames[k].Locals)
					}
				}
			}
			return byThread(exp, got, func(e model.ThreadText, g model.ThreadEntry) error {
				if len(g.Frames) != len(e.Frames) {
					return fmt.Errorf("%d frames, expected %d", len(g.Frames), len(e.Frames))
				}
				for i, f := range e.Frames {
					var want []string
					for _, l := range f.Locals {
						want = append(want, strings.TrimSpace("local "+l))
					}
					have := append([]string(nil), g.Frames[i].Locals...)
					sort.Strings(want)
					sort.Strings(have)
					if strings.Join(want, "\n") != strings.Join(have, "\n") {
						return fmt.Errorf("locals of frame %d %q: %q, expected %q", i, g.Frames[i].Line, have, want)
					}
				}
				return nil
			})
		})
	})

	// C09: counts of the summary agree with the heap and with the objects report
	prop.Add("C09", "counts", 3200, 50000, gen(model.Opts{}, "summary"), func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			s := x.W.Summary()
			c.Nontrivial(s.GCRoots >= 2 && s.Instances >= 10)
			for _, root := range x.W.Roots {
				switch root.Kind {
				case model.RootUnknown, model.RootNativeStack, model.RootThreadBlock, model.RootMonitor:
					c.ClassIf(true, fmt.Sprintf("root kind %#x", root.Kind))
				}
			}
			c.Sample("%s; %v; Classes %d, GC Roots %d, Instances %d, Heap Size %s", describe(x.W, x.L), x.C, s.Classes, s.GCRoots, s.Instances, s.HeapSize)
			r := run(c, x)
			if err := summary(x, r, s, "Heap"); err != nil {
				return err
			}
			c.Executions(1)
			o := Run(c.Dir(), Cmd{Name: "objects"}.Args("h.hprof")...)
			if err := ok(o); err != nil {
				return err
			}
			rep, err := model.ParseObjectsPlain(o.Out)
			if err != nil {
				return err
			}
			if rep.Count != fmt.Sprint(s.Instances) || rep.Size != model.SizeText(s.HeapSize) {
				return fmt.Errorf("objects report totals %s objects and %s, summary has %d and %s", rep.Count, rep.Size, s.Instances, model.SizeText(s.HeapSize))
			}
			return nil
		})
	})

	// C10: system properties
	prop.Add("C10", "properties", 4200, 70000, gen(model.Opts{MaxProps: 80, MaxObjs: 10, MaxThreads: 2, Bulk: 3, BulkKind: "props,props,table,table,classes,objects,strings"}, "summary"), func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			s := x.W.Summary()
			c.Nontrivial(len(s.Properties) >= 3)
			ix := x.W.Index()
			for i := range x.W.Objs {
				o := &x.W.Objs[i]
				if o.Kind != model.KInst {
					continue
				}
				const pkg = "java/util/concurrent/ConcurrentHashMap$"
				switch n := ix.ClassName(o.Class); n {
				case pkg + "TreeBin", pkg + "ForwardingNode", pkg + "ReservationNode", "app/MyProperties":
					c.ClassIf(true, "has "+strings.TrimPrefix(n, pkg))
				case pkg + "Node":
					if v, _ := ix.FieldOf(o, n, "next"); v.V != 0 {
						c.ClassIf(true, "has bin with several nodes")
					}
				}
			}
			c.ClassIf(len(s.Properties) == 0, "no properties")
			c.Sample("%s; %v; %d properties: %.300q", describe(x.W, x.L), x.C, len(s.Properties), fmt.Sprint(s.Properties))
			r := run(c, x)
			if err := summary(x, r, s, "Environment", "Properties"); err != nil {
				return err
			}
			if !x.C.AllProps {
				text := outOf(x, r)
				if !x.C.HTML && strings.Contains("\n"+text, "\n- Properties\n") {
					return fmt.Errorf("properties are shown without a request")
				}
			}
			return nil
		})
	})

	// C12: names of threads and properties are what the strings hold
	prop.Add("C12", "reported", 3000, 50000, gen(model.Opts{AnyText: true, MaxObjs: 5, MaxFrames: 2, Bulk: -1}, "threads", "summary", "summary"), func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			x.C.AllProps = x.C.Name == "summary"
			e := Expect(x.W)
			odd := 0
			count := func(s string) {
				for _, r := range s {
					if !unicode.IsPrint(r) {
						odd++
						break
					}
				}
			}
			if x.C.Name == "threads" {
				for _, th := range x.W.Threads() {
					count(th.Line)
				}
			} else {
				for k, v := range x.W.Index().Properties() {
					count(k)
					count(v)
				}
			}
			c.Nontrivial(odd > 0)
			c.Class("%s", x.C.Name)
			c.Sample("%s; %v; %d texts with characters that are not printable", describe(x.W, x.L), x.C, odd)
			return e.Check(x.C, run(c, x))
		})
	})

	// C11: uptime
	prop.Add("C11", "uptime", 4200, 70000, gen(model.Opts{MaxProps: 3, MaxObjs: 10, MaxThreads: 2, Bulk: 1, BulkKind: "classes,objects,strings"}, "summary"), func(c *prop.Ctx, x Case) error {
		return Guard(func() error {
			s := x.W.Summary()
			c.Nontrivial(s.HasUptime)
			c.ClassIf(!s.HasUptime, "start time is not recorded")
			c.ClassIf(s.Uptime < 0, "dump before start")
			c.Sample("%s; %v; uptime %v %v", describe(x.W, x.L), x.C, s.HasUptime, s.Uptime)
			r := run(c, x)
			if s.HasUptime {
				return summary(x, r, s, "System")
			}
			return summary(x, r, s)
		})
	})
}

// Expect2 compares everything in the objects report.
func Expect2(x Case, r *Result, h model.Histogram) error {
	if err := ok(r); err != nil {
		return err
	}
	o, err := objectsReport(x, r)
	if err != nil {
		return err
	}
	return model.CompareObjects(o, h, x.C.sort())
}

func objectsReport(x Case, r *Result) (*model.ObjectsReport, error) {
	if x.C.HTML {
		return model.ObjectsHTML(r.Out)
	}
	return model.ParseObjectsPlain(outOf(x, r))
}

var countCell = func(s string) string { return strings.Fields(s + " ?")[0] }

// histogramSet compares rows as a set by name, count and size.
func histogramSet(x Case, out string, h model.Histogram) error {
	var o *model.ObjectsReport
	var err error
	if x.C.HTML {
		o, err = model.ObjectsHTML(out)
	} else {
		o, err = model.ParseObjectsPlain(out)
	}
	if err != nil {
		return err
	}
	if o.Count != fmt.Sprint(h.Count) || o.Size != model.SizeText(h.Bytes) {
		return fmt.Errorf("totals %s, %s; expected %d, %s", o.Count, o.Size, h.Count, h.Bytes)
	}
	want := map[string]int{}
	for _, row := range h.Rows {
		want[fmt.Sprintf("%s | %d | %s", row.Name, row.Count, model.SizeText(row.Bytes))]++
	}
	for _, row := range o.Rows {
		k := fmt.Sprintf("%s | %s | %s", row[0], countCell(row[1]), countCell(row[2]))
		if want[k] == 0 {
			return fmt.Errorf("unexpected or repeated row %q; expected %v", k, want)
		}
		if want[k]--; want[k] == 0 {
			delete(want, k)
		}
	}
	if len(want) > 0 {
		return fmt.Errorf("missing rows %v", want)
	}
	return nil
}

func entries(x Case, r *Result) ([]model.ThreadEntry, error) {
	if x.C.HTML {
		return model.ThreadsHTMLEntries(r.Out)
	}
	return model.ParseThreadsPlain(outOf(x, r))
}

// byThread finds the entry of every thread by its ID.
func byThread(exp []model.ThreadText, got []model.ThreadEntry, f func(e model.ThreadText, g model.ThreadEntry) error) error {
	at := map[string]model.ThreadEntry{}
	for _, g := range got {
		at[g.ID()] = g
	}
	for _, e := range exp {
		g, found := at[fmt.Sprint(e.ID)]
		if !found {
			return fmt.Errorf("thread %q is not reported", e.Line)
		}
		if err := f(e, g); err != nil {
			return fmt.Errorf("thread %q: %w", e.Line, err)
		}
	}
	return nil
}

func summary(x Case, r *Result, s model.Summary, only ...string) error {
	if err := ok(r); err != nil {
		return err
	}
	if x.C.HTML {
		ss, err := model.SummaryHTML(r.Out)
		if err != nil {
			return err
		}
		return model.CompareSummarySections(ss, s, x.C.AllProps, only...)
	}
	return model.CompareSummaryPlain(outOf(x, r), s, x.C.AllProps, only...)
}

// hiding tells whether some subclass of Thread declares a field of Thread.
func hiding(w *model.World) bool {
	ix := w.Index()
	for i := range w.Classes {
		if !strings.HasPrefix(ix.ClassName(w.Classes[i].ID), "app/Thread") {
			continue
		}
		for _, f := range w.Classes[i].Fields {
			if ix.Str[f.Name] != "own" {
				return true
			}
		}
	}
	return false
}

func firstLines(ts []model.ThreadText) []string {
	var out []string
	for i := 0; i < len(ts) && i < 4; i++ {
		out = append(out, ts[i].Line)
	}
	return out
}
