package model

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
	"unicode/utf16"
)

// Row is one line of the objects report.
type Row struct {
	Name  string
	Count int64
	Bytes *big.Int
}

// Histogram is the expected content of the objects report.
type Histogram struct {
	Rows  []Row
	Count int64
	Bytes *big.Int
}

// Dots is the Java notation of an internal class name.
func Dots(name string) string { return strings.ReplaceAll(name, "/", ".") }

// JavaType renders one type descriptor and returns the rest of the string.
func JavaType(d string) (string, string) {
	dims := 0
	for d[dims] == '[' {
		dims++
	}
	d = d[dims:]
	base := ""
	switch d[0] {
	case 'L':
		end := strings.IndexByte(d, ';')
		base, d = Dots(d[1:end]), d[end+1:]
	case 'V':
		base, d = "void", d[1:]
	default:
		base = map[byte]string{'B': "byte", 'C': "char", 'D': "double", 'F': "float", 'I': "int", 'J': "long", 'S': "short", 'Z': "boolean"}[d[0]]
		d = d[1:]
	}
	return base + strings.Repeat("[]", dims), d
}

// JavaSignature renders arguments and return type of a method descriptor.
func JavaSignature(d string) (args []string, ret string) {
	d = d[1:]
	for d[0] != ')' {
		var a string
		a, d = JavaType(d)
		args = append(args, a)
	}
	ret, _ = JavaType(d[1:])
	return
}

// TypeText is the way a class is named in reports.
func TypeText(className string) string {
	if strings.HasPrefix(className, "[") {
		t, _ := JavaType(className)
		return t
	}
	return Dots(className)
}

// Histogram computes the expected objects report.
func (w *World) Histogram() Histogram {
	ix := w.Index()
	type key struct {
		kind byte
		id   uint64
	}
	rows := map[key]*Row{}
	var order []key
	h := Histogram{Bytes: new(big.Int)}
	for i := range w.Objs {
		o := &w.Objs[i]
		k := key{o.Kind, o.Class}
		if o.Kind == KPrim {
			k.id = uint64(o.T)
		}
		r := rows[k]
		if r == nil {
			r = &Row{Bytes: new(big.Int)}
			switch o.Kind {
			case KInst:
				r.Name = Dots(ix.ClassName(o.Class))
			case KObjA:
				r.Name = TypeText(ix.ClassName(o.Class))
			case KPrim:
				r.Name = TypeName(o.T) + "[]"
			}
			rows[k] = r
			order = append(order, k)
		}
		r.Count++
		size := new(big.Int)
		switch o.Kind {
		case KInst:
			size.SetInt64(int64(ix.Class[o.Class].Size))
		case KObjA:
			size.SetUint64(o.Len(w.IDSize) * uint64(w.IDSize))
		case KPrim:
			size.SetUint64(o.Len(w.IDSize) * uint64(TypeSize(o.T, w.IDSize)))
		}
		r.Bytes.Add(r.Bytes, size)
		h.Count++
		h.Bytes.Add(h.Bytes, size)
	}
	for _, k := range order {
		h.Rows = append(h.Rows, *rows[k])
	}
	return h
}

// SizeText renders a size in the largest unit not exceeding it.
func SizeText(n *big.Int) string {
	unit, text := big.NewInt(1), "B"
	for _, u := range []string{"K", "M", "G"} {
		next := new(big.Int).Mul(unit, big.NewInt(1024))
		if n.Cmp(next) < 0 {
			break
		}
		unit, text = next, u
	}
	return new(big.Int).Div(n, unit).String() + text
}

// Percent is the whole percentage of part in total, rounded down.
func Percent(part, total *big.Int) string {
	if total.Sign() == 0 {
		return "0"
	}
	p := new(big.Int).Mul(part, big.NewInt(100))
	return p.Div(p, total).String()
}

// Cells are the texts of the row in the report.
func (h Histogram) Cells(r Row) [3]string {
	return [3]string{r.Name,
		fmt.Sprintf("%d (%s%%)", r.Count, Percent(big.NewInt(r.Count), big.NewInt(h.Count))),
		fmt.Sprintf("%s (%s%%)", SizeText(r.Bytes), Percent(r.Bytes, h.Bytes))}
}

// FrameText is a stack frame of the threads report.
type FrameText struct {
	Line   string
	Locals []string // in no particular order
}

// ThreadText is an entry of the threads report.
type ThreadText struct {
	ID     int64
	Line   string
	Frames []FrameText
}

// StatusText is what java.lang.Thread.getState() tells for the status word.
func StatusText(s int32) string {
	switch {
	case s&0x4 != 0:
		return "RUNNABLE"
	case s&0x400 != 0:
		return "BLOCKED"
	case s&0x10 != 0:
		return "WAITING"
	case s&0x20 != 0:
		return "TIMED_WAITING"
	case s&0x2 != 0:
		return "TERMINATED"
	case s&0x1 == 0:
		return "NEW"
	}
	return "RUNNABLE"
}

// SlotOf is the place of the field of an instance declared by the class named
// declarer among its values, or -1.
func (ix *Index) SlotOf(o *Obj, declarer, name string) int {
	k := 0
	for c := ix.Class[o.Class]; c != nil; c = ix.Class[c.Super] {
		for _, f := range c.Fields {
			if ix.Str[f.Name] == name && (declarer == "" || ix.ClassName(c.ID) == declarer) {
				return k
			}
			k++
		}
	}
	return -1
}

// FieldOf reads the field of an instance declared by the class named declarer.
func (ix *Index) FieldOf(o *Obj, declarer, name string) (Val, bool) {
	if k := ix.SlotOf(o, declarer, name); k >= 0 {
		return o.Vals[k], true
	}
	return Val{}, false
}

// Text decodes java.lang.String object.
func (ix *Index) Text(id uint64) (string, bool) {
	o := ix.Obj[id]
	if o == nil || o.Kind != KInst || ix.ClassName(o.Class) != "java/lang/String" {
		return "", false
	}
	v, ok := ix.FieldOf(o, "java/lang/String", "value")
	if !ok || ix.Obj[v.V] == nil {
		return "", false
	}
	data := ix.Obj[v.V].Data
	if c, ok := ix.FieldOf(o, "java/lang/String", "coder"); ok && c.V == 1 {
		var u []uint16
		for i := 0; i+1 < len(data); i += 2 {
			u = append(u, uint16(data[i])|uint16(data[i+1])<<8)
		}
		return string(utf16.Decode(u)), true
	}
	var sb strings.Builder
	for _, b := range data {
		sb.WriteRune(rune(b))
	}
	return sb.String(), true
}

// TypeOf is the type of an object as shown for local variables.
func (ix *Index) TypeOf(id uint64) string {
	if o := ix.Obj[id]; o != nil {
		switch o.Kind {
		case KPrim:
			return TypeName(o.T) + "[]"
		default:
			return TypeText(ix.ClassName(o.Class))
		}
	}
	return "class " + TypeText(ix.ClassName(id))
}

// Threads computes the expected threads report.
func (w *World) Threads() []ThreadText {
	ix := w.Index()
	type at struct{ thread, frame uint64 }
	locals := map[at][]string{}
	for _, r := range w.Roots {
		if r.Kind == RootJavaFrame || r.Kind == RootJNILocal {
			k := at{r.A, r.B}
			locals[k] = append(locals[k], ix.TypeOf(r.Obj))
		}
	}
	traces := map[uint32]*Trace{}
	for i := range w.Traces {
		traces[w.Traces[i].Thread] = &w.Traces[i]
	}
	var out []ThreadText
	for _, r := range w.Roots {
		if r.Kind != RootThread {
			continue
		}
		o := ix.Obj[r.Obj]
		get := func(name string) uint64 {
			v, ok := ix.FieldOf(o, "java/lang/Thread", name)
			if !ok {
				panic("no field " + name + " in thread")
			}
			return v.V
		}
		name, _ := ix.Text(get("name"))
		t := ThreadText{ID: int64(get("tid"))}
		t.Line = fmt.Sprintf("\"%s\", ID=%d, prio=%d, status=%s", name, t.ID, int32(get("priority")), StatusText(int32(get("threadStatus"))))
		if get("daemon") != 0 {
			t.Line += " (daemon)"
		}
		for pos, id := range traces[uint32(r.A)].Frames {
			f := ix.Frame[id]
			args, ret := JavaSignature(ix.Str[f.Sig])
			loc := ""
			if file, ok := ix.Str[f.File]; ok {
				switch {
				case f.Line == -1:
					loc = file
				case f.Line == -2:
					loc = file + ":CompiledMethod"
				case f.Line == -3:
					loc = file + ":NativeMethod"
				default:
					loc = fmt.Sprintf("%s:%d", file, f.Line)
				}
			}
			line := ret + " " + Dots(ix.Str[ix.Serial[f.ClassSerial].Name]) + "." + ix.Str[f.Method] + "(" + strings.Join(args, ", ") + ") " + loc
			ls := append([]string(nil), locals[at{r.A, uint64(pos)}]...)
			sort.Strings(ls)
			t.Frames = append(t.Frames, FrameText{strings.TrimSpace(line), ls})
		}
		out = append(out, t)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// KV is a key with a value.
type KV struct{ K, V string }

// Summary is the expected content of the summary report.
type Summary struct {
	Env        []KV // sorted by key
	Classes    int
	GCRoots    int
	Instances  int64
	HeapSize   *big.Int
	HasUptime  bool
	Uptime     time.Duration
	Properties []KV // sorted by key
}

// Summary computes the expected summary report.
func (w *World) Summary() Summary {
	ix := w.Index()
	h := w.Histogram()
	s := Summary{GCRoots: len(w.Roots), Instances: h.Count, HeapSize: h.Bytes}
	distinct := map[uint64]bool{}
	for _, l := range w.Loads {
		distinct[l.ID] = true
	}
	s.Classes = len(distinct)
	props := ix.Properties()
	for k, v := range props {
		s.Properties = append(s.Properties, KV{k, v})
	}
	sort.Slice(s.Properties, func(i, j int) bool { return s.Properties[i].K < s.Properties[j].K })
	s.Env = []KV{
		{"Architecture", props["os.arch"]},
		{"JavaHome", props["java.home"]},
		{"JavaName", fmt.Sprintf("%s (%s, %s)", props["java.vm.name"], props["java.vm.version"], props["java.vm.info"])},
		{"JavaVendor", props["java.vm.vendor"]},
		{"JavaVersion", props["java.version"]},
		{"System", props["os.name"]},
	}
	if start, ok := ix.StartTime(); ok {
		s.HasUptime = true
		s.Uptime = time.Duration(w.Time-start) * time.Millisecond
	}
	return s
}

func (ix *Index) static(class, field string) (uint64, bool) {
	for _, l := range ix.W.Loads {
		if ix.Str[l.Name] != class {
			continue
		}
		c := ix.Class[l.ID]
		if c == nil {
			continue
		}
		for _, f := range c.Statics {
			if ix.Str[f.Name] == field {
				return f.V, true
			}
		}
	}
	return 0, false
}

// StartTime is the recorded JVM start time.
func (ix *Index) StartTime() (int64, bool) {
	id, _ := ix.static("sun/management/ManagementFactoryHelper", "runtimeMBean")
	o := ix.Obj[id]
	if o == nil {
		return 0, false
	}
	v, ok := ix.FieldOf(o, "", "vmStartupTime")
	return int64(v.V), ok
}

// Properties collects system properties: all the objects that are nodes
// reachable from the table of the map behind System.props.
func (ix *Index) Properties() map[string]string {
	res := map[string]string{}
	id, _ := ix.static("java/lang/System", "props")
	props := ix.Obj[id]
	if props == nil {
		return res
	}
	m, _ := ix.FieldOf(props, "java/util/Properties", "map")
	chm := ix.Obj[m.V]
	if chm == nil {
		return res
	}
	table, _ := ix.FieldOf(chm, "java/util/concurrent/ConcurrentHashMap", "table")
	todo := []uint64{table.V}
	seen := map[uint64]bool{0: true}
	const pkg = "java/util/concurrent/ConcurrentHashMap$"
	for len(todo) > 0 {
		id := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		o := ix.Obj[id]
		if seen[id] || o == nil {
			continue
		}
		seen[id] = true
		if o.Kind == KObjA {
			todo = append(todo, o.Elems...)
			continue
		}
		if o.Kind != KInst {
			continue
		}
		follow := func(declarer, f string) {
			if v, ok := ix.FieldOf(o, pkg+declarer, f); ok {
				todo = append(todo, v.V)
			}
		}
		follow("Node", "next")
		follow("TreeBin", "first")
		follow("ForwardingNode", "nextTable")
		k, _ := ix.FieldOf(o, pkg+"Node", "key")
		v, _ := ix.FieldOf(o, pkg+"Node", "val")
		ks, ok1 := ix.Text(k.V)
		vs, ok2 := ix.Text(v.V)
		if ok1 && ok2 {
			res[ks] = vs
		}
	}
	return res
}
