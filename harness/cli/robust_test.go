package cli

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

// Any is any file and a command.
type Any struct {
	F     model.File `json:"f"`
	C     Cmd        `json:"c"`
	Again Cmd        `json:"again"`
}

var limitOnce sync.Once

// limitMemory makes an attempt to take very much memory fail instead of
// spoiling the machine.
func limitMemory() {
	limitOnce.Do(func() {
		prop.Must(syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}))
	})
}

func genFile(t *rapid.T) model.File {
	return model.GenFile(t, func(o model.Opts) *model.World {
		o.ForceLocals = rapid.Bool().Draw(t, "forceLocals")
		o.NoSystem = rapid.IntRange(0, 3).Draw(t, "noSystem") == 0
		return genWorld(t, o)
	})
}

func init() {
	prop.Add("C20", "command", 6000, 150000, func(t *rapid.T) Any {
		x := Any{F: genFile(t), C: genCmd(t), Again: genCmd(t)}
		if rapid.Bool().Draw(t, "threads") {
			x.C = Cmd{Name: "threads", Locals: true, HTML: x.C.HTML, Color: x.C.Color}
		}
		x.C.Progress = rapid.IntRange(0, 299).Draw(t, "progress") == 0
		return x
	}, func(c *prop.Ctx, x Any) error {
		limitMemory()
		return Guard(func() error {
			b := x.F.Bytes()
			d := c.Dir()
			Write(d, "h.hprof", b)
			for _, cmd := range []Cmd{x.C, x.Again} {
				r := Run(d, cmd.Args("h.hprof")...)
				c.Executions(1)
				if err := orderly(r); err != nil {
					return fmt.Errorf("file of %d bytes: %w", len(b), err)
				}
				c.Class("exit code %d", r.Code)
				if r.Code == 1 {
					c.Class("%s", kindOfError(r.Out))
				}
			}
			c.Nontrivial(len(b) > 31 && len(x.F.Edits)+len(x.F.Muts)+len(x.F.Raw) > 0)
			if x.F.W != nil {
				c.Sample("%s; edits %+v; changed bytes %+v; %v", describe(x.F.W, x.F.L), x.F.Edits, x.F.Muts, x.C)
			} else {
				c.Sample("bytes %d %x; %v", x.F.Head, x.F.Raw, x.C)
			}
			return nil
		})
	})
}

// Large is a dump with something of a size that takes for ever if the work
// grows faster than the file.
type Large struct {
	W    *model.World `json:"w"`
	L    model.Layout `json:"l"`
	Kind string       `json:"kind"`
	N    int          `json:"n"` // size in bytes or number
	X    uint64       `json:"x"`
	C    Cmd          `json:"c"`
}

// largeKinds are what becomes large and up to which size.
var largeKinds = map[string]int{"class name": 16 << 20, "class of parameter": 16 << 20, "classes of parameters": 4 << 20, "parameters": 4 << 20, "dimensions": 16 << 20, "mixed descriptor": 4 << 20,
	"thread name": 16 << 20, "property": 16 << 20, "method name": 16 << 20, "zeros": 64 << 20, "empty segments": 1 << 20, "empty symbols": 1 << 20,
	"depth": 1 << 20, "frames": 1 << 17, "locals": 1 << 17, "threads": 1 << 14, "roots": 1 << 20, "classes": 1 << 18, "hierarchy": 1 << 18, "arrays": 1 << 18}

func (x Large) bytes() []byte {
	w := x.W.Clone()
	r := model.NewRng(x.X)
	ids := uint64(1)<<31 + r.Next()%1000
	fresh := func() uint64 { ids++; return ids }
	str := func(s string) uint64 {
		id := fresh()
		w.Strs = append(w.Strs, model.Str{ID: id, S: s})
		return id
	}
	ix := x.W.Index()
	frame := func() *model.Frame {
		if len(w.Frames) == 0 {
			return &model.Frame{}
		}
		return &w.Frames[r.Intn(len(w.Frames))]
	}
	grow := func(object uint64) {
		for i := range w.Objs {
			o := &w.Objs[i]
			if o.ID != object {
				continue
			}
			if v, ok := ix.FieldOf(&x.W.Objs[i], "java/lang/String", "value"); ok {
				for k := range w.Objs {
					if a := &w.Objs[k]; a.ID == v.V && a.Kind == model.KPrim && a.T == model.TByte {
						a.Data = bytes.Repeat([]byte("a\x00"), x.N/2)
					}
				}
			}
		}
	}
	class := ""
	var threads []model.Root
	for _, l := range w.Roots {
		if l.Kind == model.RootThread {
			threads = append(threads, l)
		}
	}
	trace := func() *model.Trace {
		for i := range w.Traces {
			for _, t := range threads {
				if w.Traces[i].Thread == uint32(t.A) && (len(w.Traces[i].Frames) > 0 || len(threads) == 1) {
					return &w.Traces[i]
				}
			}
		}
		return &model.Trace{}
	}
	switch x.Kind {
	case "class name":
		class = strings.Repeat("a/b$", x.N/4)
		k := r.Intn(len(w.Loads))
		w.Loads[k].Name = str(class)
	case "class of parameter":
		frame().Sig = str("(IL" + strings.Repeat("ab/c", x.N/4) + ";)V")
	case "classes of parameters":
		frame().Sig = str("(" + strings.Repeat("Lab/c;", x.N/6) + ")La/B;")
	case "parameters":
		frame().Sig = str("(" + strings.Repeat("[I", x.N/2) + ")V")
	case "dimensions":
		frame().Sig = str("(" + strings.Repeat("[", x.N) + "I)[I")
	case "mixed descriptor":
		b := make([]byte, x.N)
		for i := range b {
			b[i] = "[L;()IVZJabc/"[r.Intn(13)]
		}
		frame().Sig = str(string(b))
	case "method name":
		f := frame()
		f.Method, f.File = str(strings.Repeat("<&m", x.N/3)), str(strings.Repeat("\xd0\x96", x.N/2))
	case "thread name":
		for _, t := range threads {
			for i := range x.W.Objs {
				if o := &x.W.Objs[i]; o.ID == t.Obj {
					if v, ok := ix.FieldOf(o, "java/lang/Thread", "name"); ok {
						grow(v.V)
						break
					}
				}
			}
		}
	case "property":
		for i := range x.W.Objs {
			o := &x.W.Objs[i]
			if v, ok := ix.FieldOf(o, "", "val"); ok && r.Intn(2) == 0 {
				grow(v.V)
				break
			}
		}
	case "depth":
		t := trace()
		for len(t.Frames) > 0 && len(t.Frames) < x.N {
			t.Frames = append(t.Frames, t.Frames[r.Intn(min(len(t.Frames), 50))])
		}
	case "frames":
		t := trace()
		for k := 0; k < x.N && len(w.Frames) > 0; k++ {
			f := w.Frames[r.Intn(min(len(w.Frames), 50))]
			f.ID = fresh()
			w.Frames = append(w.Frames, f)
			t.Frames = append(t.Frames, f.ID)
		}
	case "locals":
		t := trace()
		for k := 0; k < x.N && len(t.Frames) > 0; k++ {
			w.Roots = append(w.Roots, model.Root{Kind: model.RootJavaFrame, Obj: x.W.Objs[r.Intn(len(x.W.Objs))].ID, A: uint64(t.Thread), B: uint64(r.Intn(len(t.Frames)))})
		}
	case "threads":
		for k := 0; k < x.N && len(threads) > 0; k++ {
			t := threads[r.Intn(len(threads))]
			t.A = 1<<30 + uint64(k)
			w.Roots = append(w.Roots, t)
			w.Traces = append(w.Traces, model.Trace{Serial: uint32(t.A), Thread: uint32(t.A), Frames: trace().Frames[:min(3, len(trace().Frames))]})
		}
	case "roots":
		for k := 0; k < x.N; k++ {
			w.Roots = append(w.Roots, model.Root{Kind: model.RootSticky, Obj: w.Classes[r.Intn(len(w.Classes))].ID})
		}
	case "classes", "hierarchy":
		id := uint64(0)
		for i := range w.Objs {
			id = max(id, w.Objs[i].ID)
		}
		super := w.Classes[r.Intn(len(w.Classes))].ID
		for k := 0; k < x.N; k++ {
			c := model.Class{ID: fresh(), Super: super, Fields: []model.Field{{Name: w.Strs[r.Intn(len(x.W.Strs))].ID, T: model.TInt}}}
			if x.Kind == "hierarchy" {
				super = c.ID
				c.Fields = nil
			} else if w.Classes[0].Super == 0 && id < 1<<32-20 {
				// each has an instance
				c.Super, c.Fields = w.Classes[0].ID, c.Fields[:0]
				id++
				w.Objs = append(w.Objs, model.Obj{Kind: model.KInst, ID: id, Class: c.ID})
			}
			w.Classes = append(w.Classes, c)
			w.Loads = append(w.Loads, model.Load{Serial: 1<<30 + uint32(k), ID: c.ID, Name: w.Strs[r.Intn(len(x.W.Strs))].ID})
		}
		if x.Kind == "hierarchy" && len(threads) > 0 {
			for i := range w.Objs {
				if w.Objs[i].ID == threads[0].Obj {
					w.Objs[i].Class = super
				}
			}
		}
	case "arrays":
		id := uint64(0)
		for i := range w.Objs {
			id = max(id, w.Objs[i].ID)
		}
		for k := 0; k < x.N && id < 1<<32-20; k++ {
			id++
			w.Objs = append(w.Objs, model.Obj{Kind: model.KPrim, ID: id, T: model.TByte})
		}
	}
	b := w.Encode(x.L)
	switch x.Kind {
	case "zeros":
		b = append(b, make([]byte, x.N)...)
	case "empty segments", "empty symbols":
		rec := []byte{0x1c, 0, 0, 0, 0, 0, 0, 0, 0}
		if x.Kind == "empty symbols" {
			rec = append([]byte{1, 0, 0, 0, 0, 0, 0, 0, byte(w.IDSize)}, make([]byte, w.IDSize)...)
		}
		b = append(slices.Clone(b[:31]), append(bytes.Repeat(rec, x.N), b[31:]...)...)
	}
	return b
}

func init() {
	prop.Add("C20", "large", 120, 1200, func(t *rapid.T) Large {
		x := Large{W: genWorld(t, model.Opts{Small: true, ForceLocals: true}), L: model.GenLayout(t), X: rapid.Uint64().Draw(t, "x")}
		var kinds []string
		for k := range largeKinds {
			kinds = append(kinds, k)
		}
		slices.Sort(kinds)
		x.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
		x.N = largeKinds[x.Kind] >> rapid.IntRange(0, 2).Draw(t, "less")
		x.C = genCmd(t)
		return x
	}, func(c *prop.Ctx, x Large) error {
		limitMemory()
		return Guard(func() error {
			b := x.bytes()
			d := c.Dir()
			Write(d, "h.hprof", b)
			for _, cmd := range []Cmd{{Name: "threads", Locals: true}, {Name: "objects"}, {Name: "summary", AllProps: true}, x.C} {
				r := Run(d, cmd.Args("h.hprof")...)
				c.Executions(1)
				if len(r.Out) > 1000 {
					r.Out = r.Out[:1000]
				}
				if err := orderly(r); err != nil {
					return fmt.Errorf("file of %d bytes: %w", len(b), err)
				}
				c.ClassIf(r.Code == 0, "report: "+x.Kind)
				c.ClassIf(r.Code != 0, "error: "+x.Kind)
			}
			c.Nontrivial(true)
			c.Sample("%s; %s of %d; %v", describe(x.W, x.L), x.Kind, x.N, x.C)
			return nil
		})
	})
}

// Deep is a dump with a very deep hierarchy of classes and a table of system
// properties that was moved very many times.
type Deep struct {
	W       *model.World `json:"w"`
	L       model.Layout `json:"l"`
	Classes int          `json:"classes"`
	Tables  int          `json:"tables"`
	Nodes   int          `json:"nodes"`
}

// write puts the dump to a file. What there is much of is written directly, it
// would take too much memory otherwise.
func (x Deep) write(path string) int64 {
	w := x.W.Clone()
	// place for new objects is below the present ones: they come first in the file
	var ids []uint64
	for i := range w.Objs {
		ids = append(ids, w.Objs[i].ID)
	}
	for i := range w.Classes {
		ids = append(ids, w.Classes[i].ID)
	}
	slices.Sort(ids)
	ids = slices.Compact(ids)
	base := 8 * uint64(x.Classes+2*x.Tables+x.Nodes+10)
	w.Renumber(func(id uint64) uint64 {
		if k, ok := slices.BinarySearch(ids, id); ok {
			return base + 8*uint64(k)
		}
		return id % 8 // refers to nothing
	})
	next := uint64(8)
	ix := w.Index()
	const pkg = "java/util/concurrent/ConcurrentHashMap"
	var super, thread, fwd, node, tables uint64
	for _, r := range w.Roots {
		if r.Kind == model.RootThread {
			thread = r.Obj
		}
	}
	for i := range w.Classes {
		switch id := w.Classes[i].ID; ix.ClassName(id) {
		case pkg + "$ForwardingNode":
			fwd = id
		case pkg + "$Node":
			node = id
		case "[L" + pkg + "$Node;":
			tables = id
		}
	}
	var first *uint64
	for i := range w.Objs {
		o := &w.Objs[i]
		if o.ID == thread && x.Classes > 0 {
			super = o.Class
			o.Class = next + 8*uint64(x.Classes-1)
		}
		if o.Kind == model.KInst && o.ID != thread {
			if k := ix.SlotOf(o, pkg, "table"); k >= 0 {
				first = &o.Vals[k].V
			}
		}
	}
	var loads, heap bytes.Buffer
	num := func(b *bytes.Buffer, n int, v uint64) {
		for ; n > 0; n-- {
			b.WriteByte(byte(v >> (8 * (n - 1))))
		}
	}
	id := func(v uint64) { num(&heap, w.IDSize, v) }
	// payload of an instance of the class with one reference in it
	payload := func(class uint64, declarer, field string) ([]byte, int) {
		at := ix.SlotOf(&model.Obj{Kind: model.KInst, Class: class}, declarer, field)
		n, k, place := 0, 0, -1
		for c := ix.Class[class]; c != nil; c = ix.Class[c.Super] {
			for _, f := range c.Fields {
				if k == at {
					place = n
				}
				k++
				n += model.TypeSize(f.T, w.IDSize)
			}
		}
		return make([]byte, n), place
	}
	inst := func(class uint64, data []byte, place int, ref uint64) {
		for i := 0; i < w.IDSize; i++ {
			data[place+i] = byte(ref >> (8 * (w.IDSize - 1 - i)))
		}
		heap.WriteByte(0x21)
		id(next)
		num(&heap, 4, 0)
		id(class)
		num(&heap, 4, uint64(len(data)))
		heap.Write(data)
		next += 8
	}
	array := func(elems ...uint64) {
		heap.WriteByte(0x22)
		id(next)
		num(&heap, 4, 0)
		num(&heap, 4, uint64(len(elems)))
		id(tables)
		for _, e := range elems {
			id(e)
		}
		next += 8
	}
	if super != 0 {
		name := w.Loads[len(w.Loads)/2].Name
		for k := 0; k < x.Classes; k++ {
			num(&loads, 1, 2)
			num(&loads, 4, 0)
			num(&loads, 4, uint64(8+2*w.IDSize))
			num(&loads, 4, 1<<30+uint64(k))
			num(&loads, w.IDSize, next)
			num(&loads, 4, 0)
			num(&loads, w.IDSize, name)
			heap.WriteByte(0x20)
			id(next)
			num(&heap, 4, 0)
			id(super)
			for i := 0; i < 5; i++ {
				id(0)
			}
			num(&heap, 4+2+2+2, 0)
			super = next
			next += 8
		}
	}
	if first != nil && fwd != 0 && node != 0 && tables != 0 {
		// many tables, the last one has a long list, then there is the old one
		data, place := payload(fwd, pkg+"$ForwardingNode", "nextTable")
		old := *first
		*first = next
		for k := 0; k < x.Tables; k++ {
			array(next + 8)
			inst(fwd, data, place, next+8)
		}
		array(next+16, next+8)
		inst(fwd, data, place, old)
		data, place = payload(node, pkg+"$Node", "next")
		for k := x.Nodes; k > 1; k-- {
			inst(node, data, place, next+8)
		}
		inst(node, data, place, 0)
	}
	b := w.Encode(x.L)
	var seg bytes.Buffer
	num(&seg, 1, 0x1c)
	num(&seg, 4, 0)
	num(&seg, 4, uint64(heap.Len()))
	f, err := os.Create(path)
	prop.Must(err)
	size := int64(0)
	for _, part := range [][]byte{b[:31], loads.Bytes(), seg.Bytes(), heap.Bytes(), b[31:]} {
		n, err := f.Write(part)
		prop.Must(err)
		size += int64(n)
	}
	prop.Must(f.Close())
	return size
}

func init() {
	prop.Add("C20", "deep", 2, 16, func(t *rapid.T) Deep {
		return Deep{W: genWorld(t, model.Opts{Small: true, ForceLocals: true}), L: model.GenLayout(t), Classes: rapid.IntRange(1_300_000, 1_500_000).Draw(t, "classes"),
			Tables: rapid.IntRange(1_600_000, 1_700_000).Draw(t, "tables"), Nodes: rapid.IntRange(1, 100_000).Draw(t, "nodes")}
	}, func(c *prop.Ctx, x Deep) error {
		return Guard(func() error {
			d := c.Dir()
			size := x.write(filepath.Join(d, "h.hprof"))
			for _, cmd := range []Cmd{{Name: "threads", Locals: true}, {Name: "summary", AllProps: true}, {Name: "objects"}} {
				// it may take long, see the large ones about that
				r := runOnce(d, 240*time.Second, Bin(), cmd.Args("h.hprof")...)
				c.Executions(1)
				if r == nil {
					c.Class("%s: not finished in time", cmd.Name)
					continue
				}
				if len(r.Out) > 1000 {
					r.Out = r.Out[:1000]
				}
				if len(r.Err) > 1000 {
					r.Err = r.Err[:1000]
				}
				if err := orderly(r); err != nil {
					return fmt.Errorf("file of %d bytes: %w", size, err)
				}
				if r.Code == 0 {
					c.Class("%s report", cmd.Name)
				} else {
					c.Class("%s: %s", cmd.Name, kindOfError(r.Out+r.Err))
				}
			}
			c.Nontrivial(true)
			c.Sample("%s; hierarchy of %d classes, table moved %d times, list of %d; %d bytes", describe(x.W, x.L), x.Classes, x.Tables, x.Nodes, size)
			return nil
		})
	})
}

// orderly checks that a run ended with a report or an error.
func orderly(r *Result) error {
	if err := crashed(r); err != nil {
		return err
	}
	if r.Code != 0 && r.Code != 1 {
		return fmt.Errorf("unexpected exit code: %v", r)
	}
	if r.Code == 1 && strings.TrimSpace(r.Out+r.Err) == "" {
		return fmt.Errorf("no error message: %v", r)
	}
	return nil
}

// kindOfError shortens a message to see what is reached by generated files.
func kindOfError(out string) string {
	out = strings.TrimPrefix(out, "Error occurred: ")
	fs := strings.Split(out, ": ")
	var keep []string
	for _, f := range fs {
		if f = strings.TrimSpace(strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' {
				return -1
			}
			return r
		}, f)); len(f) < 60 && len(keep) < 4 {
			keep = append(keep, strings.ToValidUTF8(f, "?"))
		}
	}
	s := strings.Join(keep, ": ")
	if len(s) > 100 {
		s = s[:100]
	}
	return "error " + strings.ToValidUTF8(s, "")
}
