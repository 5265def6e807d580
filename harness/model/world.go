// Package model is an independent model of HotSpot heap dumps: an in-memory
// heap (World), an encoder to and a decoder from the hprof format, the expected
// content of every neojhat report computed from the model alone, and random
// generators of worlds. It does not use any code of neojhat.
package model

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"unicode/utf16"
	"unicode/utf8"
)

// Java types of the hprof format.
const (
	TObject = 2
	TBool   = 4
	TChar   = 5
	TFloat  = 6
	TDouble = 7
	TByte   = 8
	TShort  = 9
	TInt    = 10
	TLong   = 11
)

// AllTypes lists all the Java types, PrimTypes the primitive ones.
var (
	AllTypes  = []byte{TObject, TBool, TChar, TFloat, TDouble, TByte, TShort, TInt, TLong}
	PrimTypes = []byte{TBool, TChar, TFloat, TDouble, TByte, TShort, TInt, TLong}
)

// TypeSize is the size of the value of type t in a dump.
func TypeSize(t byte, idSize int) int {
	switch t {
	case TObject:
		return idSize
	case TBool, TByte:
		return 1
	case TChar, TShort:
		return 2
	case TFloat, TInt:
		return 4
	case TDouble, TLong:
		return 8
	}
	return -1
}

// TypeName is the Java keyword of primitive type t.
func TypeName(t byte) string {
	return map[byte]string{TBool: "boolean", TChar: "char", TFloat: "float", TDouble: "double",
		TByte: "byte", TShort: "short", TInt: "int", TLong: "long", TObject: "object"}[t]
}

// GC root kinds.
const (
	RootJNIGlobal   = 0x01
	RootJNILocal    = 0x02
	RootJavaFrame   = 0x03
	RootNativeStack = 0x04
	RootSticky      = 0x05
	RootThreadBlock = 0x06
	RootMonitor     = 0x07
	RootThread      = 0x08
	RootUnknown     = 0xff
)

// Kinds of heap objects: the codes of sub-records.
const (
	KClass = 0x20
	KInst  = 0x21
	KObjA  = 0x22
	KPrim  = 0x23
)

type Str struct {
	ID uint64 `json:"i"`
	S  string `json:"s"`
}

// MarshalJSON keeps strings which are not valid UTF-8.
func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(s.S) {
		return json.Marshal(struct {
			I uint64 `json:"i"`
			S string `json:"s"`
		}{s.ID, s.S})
	}
	return json.Marshal(struct {
		I uint64 `json:"i"`
		B []byte `json:"b"`
	}{s.ID, []byte(s.S)})
}

// UnmarshalJSON is the reverse of MarshalJSON.
func (s *Str) UnmarshalJSON(b []byte) error {
	var x struct {
		I uint64 `json:"i"`
		S string `json:"s"`
		B []byte `json:"b"`
	}
	err := json.Unmarshal(b, &x)
	s.ID, s.S = x.I, x.S
	if x.B != nil {
		s.S = string(x.B)
	}
	return err
}

type Load struct {
	Serial uint32 `json:"n"`
	ID     uint64 `json:"i"`
	Trace  uint32 `json:"t,omitempty"`
	Name   uint64 `json:"s"`
}

type Frame struct {
	ID          uint64 `json:"i"`
	Method      uint64 `json:"m"`
	Sig         uint64 `json:"g"`
	File        uint64 `json:"f"`
	ClassSerial uint32 `json:"c"`
	Line        int32  `json:"l"`
}

type Trace struct {
	Serial uint32   `json:"n"`
	Thread uint32   `json:"t"`
	Frames []uint64 `json:"f,omitempty"`
}

// Root is a GC root. A and B are, in order, the rest of the fields of its kind:
// JNI ref of JNI global; thread serial and frame number (or trace serial) of the
// others.
type Root struct {
	Kind byte   `json:"k"`
	Obj  uint64 `json:"o"`
	A    uint64 `json:"a,omitempty"`
	B    uint64 `json:"b,omitempty"`
}

// Val is a typed value, V holds its bits.
type Val struct {
	T byte   `json:"t"`
	V uint64 `json:"v,omitempty"`
}

type Const struct {
	Idx uint16 `json:"x"`
	Val
}

type Static struct {
	Name uint64 `json:"s"`
	Val
}

type Field struct {
	Name uint64 `json:"s"`
	T    byte   `json:"t"`
}

type Class struct {
	ID      uint64   `json:"i"`
	Trace   uint32   `json:"t,omitempty"`
	Super   uint64   `json:"p,omitempty"`
	Loader  uint64   `json:"l,omitempty"`
	Signers uint64   `json:"sg,omitempty"`
	Domain  uint64   `json:"d,omitempty"`
	Size    int32    `json:"z"`
	Consts  []Const  `json:"c,omitempty"`
	Statics []Static `json:"st,omitempty"`
	Fields  []Field  `json:"f,omitempty"`
}

// Obj is a heap object. Vals are the values of fields of an instance, those of
// its own class first. Elems are the elements of an object array. Data are the
// elements of a primitive array. Zeros adds that many zero elements to an array,
// they are kept out of the model to describe huge arrays.
type Obj struct {
	Kind  byte     `json:"k"`
	ID    uint64   `json:"i"`
	Trace uint32   `json:"t,omitempty"`
	Class uint64   `json:"c,omitempty"`
	T     byte     `json:"e,omitempty"`
	Vals  []Val    `json:"v,omitempty"`
	Elems []uint64 `json:"el,omitempty"`
	Data  []byte   `json:"d,omitempty"`
	Zeros uint32   `json:"zz,omitempty"`
}

// Layout tells how records are put to the file. Zero value is the HotSpot-like
// order with one segment of known length.
type Layout struct {
	Seed   uint64 `json:"seed,omitempty"`
	Mix    int    `json:"mix,omitempty"`  // 1: shuffle inside kinds, 2: all heap records interleaved, 3: everything interleaved
	Seg    int    `json:"seg,omitempty"`  // about as many records per segment, 0: single segment
	Zero   int    `json:"zero,omitempty"` // 1: all segment lengths unknown, 2: some of them
	Empty  int    `json:"empty,omitempty"`
	TsNote uint32 `json:"ts,omitempty"` // value of the (ignored) time field of record headers
}

type World struct {
	IDSize  int     `json:"idsize"`
	Time    int64   `json:"time"`
	Strs    []Str   `json:"strs"`
	Loads   []Load  `json:"loads"`
	Frames  []Frame `json:"frames,omitempty"`
	Traces  []Trace `json:"traces,omitempty"`
	Roots   []Root  `json:"roots,omitempty"`
	Classes []Class `json:"classes,omitempty"`
	Objs    []Obj   `json:"objs,omitempty"`
}

// Len is the number of elements of an array.
func (o *Obj) Len(idSize int) uint64 {
	switch o.Kind {
	case KObjA:
		return uint64(len(o.Elems)) + uint64(o.Zeros)
	case KPrim:
		return uint64(len(o.Data)/TypeSize(o.T, idSize)) + uint64(o.Zeros)
	}
	return 0
}

// Rng is splitmix64. It expands seeds drawn by the property library.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *Rng) Intn(n int) int { return int(r.Next() % uint64(n)) }

func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

type enc struct {
	bytes.Buffer
	id int
}

func (e *enc) u1(v byte)   { e.WriteByte(v) }
func (e *enc) u2(v uint16) { e.Write(binary.BigEndian.AppendUint16(nil, v)) }
func (e *enc) u4(v uint32) { e.Write(binary.BigEndian.AppendUint32(nil, v)) }
func (e *enc) u8(v uint64) { e.Write(binary.BigEndian.AppendUint64(nil, v)) }
func (e *enc) ref(v uint64) {
	if e.id == 4 {
		e.u4(uint32(v))
	} else {
		e.u8(v)
	}
}
func (e *enc) val(v Val) {
	switch TypeSize(v.T, e.id) {
	case 1:
		e.u1(byte(v.V))
	case 2:
		e.u2(uint16(v.V))
	case 4:
		e.u4(uint32(v.V))
	case 8:
		e.u8(v.V)
	default:
		panic("bad type")
	}
}

// Item is one record or sub-record of a dump. Pad zero bytes follow Body.
type Item struct {
	Tag  byte
	Sub  bool
	Body []byte
	Pad  uint64
}

// InstData is the payload of an instance.
func (w *World) InstData(o *Obj) []byte {
	e := &enc{id: w.IDSize}
	for _, v := range o.Vals {
		e.val(v)
	}
	return e.Bytes()
}

func (w *World) rec(f func(e *enc)) []byte {
	e := &enc{id: w.IDSize}
	f(e)
	return e.Bytes()
}

func (w *World) StrItem(s Str) Item {
	return Item{Tag: 1, Body: w.rec(func(e *enc) { e.ref(s.ID); e.WriteString(s.Raw()) })}
}

// Raw is the text as it is written in the file: in modified UTF-8 as JVM does
// it or (one of four) in plain UTF-8 as other tools do.
func (s Str) Raw() string {
	if s.ID%4 == 3 || !utf8.ValidString(s.S) {
		return s.S
	}
	return ModifiedUTF8(s.S)
}

// ModifiedUTF8 writes the text as java.io.DataOutput.writeUTF does: by UTF-16
// units of at most three bytes, with a zero in two bytes.
func ModifiedUTF8(s string) string {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		switch {
		case u != 0 && u < 0x80:
			b = append(b, byte(u))
		case u < 0x800:
			b = append(b, 0xc0|byte(u>>6), 0x80|byte(u&0x3f))
		default:
			b = append(b, 0xe0|byte(u>>12), 0x80|byte(u>>6&0x3f), 0x80|byte(u&0x3f))
		}
	}
	return string(b)
}

// fromModified is the text of the bytes of a name: of plain or modified UTF-8,
// or the bytes themselves if they are neither.
func fromModified(raw string) string {
	if utf8.ValidString(raw) {
		return raw
	}
	var us []uint16
	for i := 0; i < len(raw); {
		n := 1
		switch c := raw[i]; {
		case c >= 0xe0 && c < 0xf0:
			n = 3
		case c >= 0xc0 && c < 0xe0:
			n = 2
		}
		if i+n > len(raw) {
			return raw
		}
		u := uint16(raw[i])
		switch n {
		case 2:
			u = uint16(raw[i]&0x1f)<<6 | uint16(raw[i+1]&0x3f)
		case 3:
			u = uint16(raw[i]&0xf)<<12 | uint16(raw[i+1]&0x3f)<<6 | uint16(raw[i+2]&0x3f)
		}
		us = append(us, u)
		i += n
	}
	if s := string(utf16.Decode(us)); ModifiedUTF8(s) == raw {
		return s
	}
	return raw
}
func (w *World) LoadItem(l Load) Item {
	return Item{Tag: 2, Body: w.rec(func(e *enc) { e.u4(l.Serial); e.ref(l.ID); e.u4(l.Trace); e.ref(l.Name) })}
}
func (w *World) FrameItem(f Frame) Item {
	return Item{Tag: 4, Body: w.rec(func(e *enc) {
		e.ref(f.ID)
		e.ref(f.Method)
		e.ref(f.Sig)
		e.ref(f.File)
		e.u4(f.ClassSerial)
		e.u4(uint32(f.Line))
	})}
}
func (w *World) TraceItem(t Trace) Item {
	return Item{Tag: 5, Body: w.rec(func(e *enc) {
		e.u4(t.Serial)
		e.u4(t.Thread)
		e.u4(uint32(len(t.Frames)))
		for _, f := range t.Frames {
			e.ref(f)
		}
	})}
}
func (w *World) RootItem(r Root) Item {
	return Item{Sub: true, Tag: r.Kind, Body: w.rec(func(e *enc) {
		e.ref(r.Obj)
		switch r.Kind {
		case RootJNIGlobal:
			e.ref(r.A)
		case RootJNILocal, RootJavaFrame, RootThread:
			e.u4(uint32(r.A))
			e.u4(uint32(r.B))
		case RootNativeStack, RootThreadBlock:
			e.u4(uint32(r.A))
		}
	})}
}
func (w *World) ClassItem(c Class) Item {
	return Item{Sub: true, Tag: KClass, Body: w.rec(func(e *enc) {
		e.ref(c.ID)
		e.u4(c.Trace)
		e.ref(c.Super)
		e.ref(c.Loader)
		e.ref(c.Signers)
		e.ref(c.Domain)
		e.ref(0)
		e.ref(0)
		e.u4(uint32(c.Size))
		e.u2(uint16(len(c.Consts)))
		for _, k := range c.Consts {
			e.u2(k.Idx)
			e.u1(k.T)
			e.val(k.Val)
		}
		e.u2(uint16(len(c.Statics)))
		for _, k := range c.Statics {
			e.ref(k.Name)
			e.u1(k.T)
			e.val(k.Val)
		}
		e.u2(uint16(len(c.Fields)))
		for _, k := range c.Fields {
			e.ref(k.Name)
			e.u1(k.T)
		}
	})}
}
func (w *World) ObjItem(o *Obj) Item {
	it := Item{Sub: true, Tag: o.Kind}
	it.Body = w.rec(func(e *enc) {
		e.ref(o.ID)
		e.u4(o.Trace)
		switch o.Kind {
		case KInst:
			d := w.InstData(o)
			e.ref(o.Class)
			e.u4(uint32(len(d)))
			e.Write(d)
		case KObjA:
			e.u4(uint32(len(o.Elems)) + o.Zeros)
			e.ref(o.Class)
			for _, x := range o.Elems {
				e.ref(x)
			}
			it.Pad = uint64(o.Zeros) * uint64(w.IDSize)
		case KPrim:
			e.u4(uint32(len(o.Data)/TypeSize(o.T, w.IDSize)) + o.Zeros)
			e.u1(o.T)
			e.Write(o.Data)
			it.Pad = uint64(o.Zeros) * uint64(TypeSize(o.T, w.IDSize))
		}
	})
	return it
}

// Items lists all the records in the order of the layout.
func (w *World) Items(l Layout) []Item {
	r := NewRng(l.Seed)
	var groups [][]Item // every group keeps its order when groups are interleaved
	mk := func(n int, f func(i int) Item) []Item {
		g := make([]Item, n)
		for i := range g {
			g[i] = f(i)
		}
		if l.Mix > 0 {
			r.Shuffle(n, func(i, j int) { g[i], g[j] = g[j], g[i] })
		}
		return g
	}
	top := [][]Item{
		mk(len(w.Strs), func(i int) Item { return w.StrItem(w.Strs[i]) }),
		mk(len(w.Loads), func(i int) Item { return w.LoadItem(w.Loads[i]) }),
		mk(len(w.Frames), func(i int) Item { return w.FrameItem(w.Frames[i]) }),
		mk(len(w.Traces), func(i int) Item { return w.TraceItem(w.Traces[i]) }),
	}
	classes := mk(len(w.Classes), func(i int) Item { return w.ClassItem(w.Classes[i]) })
	roots := mk(len(w.Roots), func(i int) Item { return w.RootItem(w.Roots[i]) })
	if l.Mix < 2 {
		var out []Item
		for _, g := range top {
			out = append(out, g...)
		}
		out = append(out, classes...)
		for i := range w.Objs {
			out = append(out, w.ObjItem(&w.Objs[i]))
		}
		return append(out, roots...)
	}
	kinds := map[byte][]Item{}
	for i := range w.Objs {
		k := w.Objs[i].Kind
		kinds[k] = append(kinds[k], w.ObjItem(&w.Objs[i]))
	}
	heap := [][]Item{classes, roots, kinds[KInst], kinds[KObjA], kinds[KPrim]}
	var out []Item
	if l.Mix == 2 {
		for _, g := range top {
			out = append(out, g...)
		}
		groups = heap
	} else {
		groups = append(top, heap...)
	}
	total := 0
	for _, g := range groups {
		total += len(g)
	}
	for ; total > 0; total-- {
		// weighted choice makes all interleavings reachable
		k := r.Intn(total)
		for gi := range groups {
			if k < len(groups[gi]) {
				out = append(out, groups[gi][0])
				groups[gi] = groups[gi][1:]
				break
			}
			k -= len(groups[gi])
		}
	}
	return out
}

// Chunk is a piece of a file: bytes and then a run of zeros.
type Chunk struct {
	B   []byte
	Pad uint64
}

// Header is the file header.
func (w *World) Header() []byte {
	e := &enc{id: w.IDSize}
	e.WriteString("JAVA PROFILE 1.0.2")
	e.u1(0)
	e.u4(uint32(w.IDSize))
	e.u8(uint64(w.Time))
	return e.Bytes()
}

// EncodeItems lays records out to the file as the layout says.
func (w *World) EncodeItems(items []Item, l Layout) []Chunk {
	return w.encodeItems(items, l, func(uint64) {})
}

// Starts lists where records and sub-records start in the file.
func (w *World) Starts(l Layout) []uint64 {
	var at []uint64
	w.encodeItems(w.Items(l), l, func(p uint64) { at = append(at, p) })
	return at
}

func (w *World) encodeItems(items []Item, l Layout, start func(pos uint64)) []Chunk {
	r := NewRng(l.Seed ^ 0x5e65)
	var out []Chunk
	cur := &enc{id: w.IDSize}
	cur.Write(w.Header())
	var done uint64
	flush := func(pad uint64) {
		done += uint64(cur.Len()) + pad
		out = append(out, Chunk{append([]byte(nil), cur.Bytes()...), pad})
		cur.Reset()
	}
	head := func(tag byte, n uint64) {
		start(done + uint64(cur.Len()))
		cur.u1(tag)
		cur.u4(l.TsNote)
		cur.u4(uint32(n))
	}
	var seg []Item
	endSeg := func(next int) { // next is the index of the following item
		if len(seg) == 0 {
			return
		}
		var n uint64
		for _, it := range seg {
			n += 1 + uint64(len(it.Body)) + it.Pad
		}
		followedByTop := next < len(items) && !items[next].Sub
		unknown := l.Zero == 1 || l.Zero == 2 && r.Intn(2) == 0
		if unknown && !followedByTop || n > 0xffffffff {
			n = 0
		}
		head(0x1c, n)
		for _, it := range seg {
			start(done + uint64(cur.Len()))
			cur.u1(it.Tag)
			cur.Write(it.Body)
			if it.Pad > 0 {
				flush(it.Pad)
			}
		}
		seg = nil
		if l.Empty > 0 && r.Intn(3) == 0 && !followedByTop {
			for k := r.Intn(l.Empty + 1); k > 0; k-- {
				head(0x1c, 0)
			}
		}
	}
	for i, it := range items {
		if !it.Sub {
			endSeg(i)
			head(it.Tag, uint64(len(it.Body))+it.Pad)
			cur.Write(it.Body)
			continue
		}
		if l.Seg > 0 && len(seg) > 0 && r.Intn(l.Seg) == 0 {
			endSeg(i)
		}
		seg = append(seg, it)
	}
	endSeg(len(items))
	head(0x2c, 0)
	flush(0)
	return out
}

// Encode returns the bytes of the dump.
func (w *World) Encode(l Layout) []byte {
	var b []byte
	for _, c := range w.EncodeItems(w.Items(l), l) {
		b = append(b, c.B...)
		b = append(b, make([]byte, c.Pad)...)
	}
	return b
}

// SortObjs sorts the objects by identifier.
func (w *World) SortObjs() {
	sort.SliceStable(w.Objs, func(i, j int) bool { return w.Objs[i].ID < w.Objs[j].ID })
}

// Renumber replaces identifiers of objects and classes.
func (w *World) Renumber(f func(uint64) uint64) {
	val := func(v *Val) {
		if v.T == TObject {
			v.V = f(v.V)
		}
	}
	for i := range w.Loads {
		w.Loads[i].ID = f(w.Loads[i].ID)
	}
	for i := range w.Roots {
		w.Roots[i].Obj = f(w.Roots[i].Obj)
	}
	for i := range w.Classes {
		c := &w.Classes[i]
		c.ID, c.Super, c.Loader, c.Signers, c.Domain = f(c.ID), f(c.Super), f(c.Loader), f(c.Signers), f(c.Domain)
		for j := range c.Consts {
			val(&c.Consts[j].Val)
		}
		for j := range c.Statics {
			val(&c.Statics[j].Val)
		}
	}
	for i := range w.Objs {
		o := &w.Objs[i]
		o.ID, o.Class = f(o.ID), f(o.Class)
		for j := range o.Vals {
			val(&o.Vals[j])
		}
		for j := range o.Elems {
			o.Elems[j] = f(o.Elems[j])
		}
	}
	w.SortObjs()
}

// Clone makes a deep copy.
func (w *World) Clone() *World {
	c := *w
	c.Strs = append([]Str(nil), w.Strs...)
	c.Loads = append([]Load(nil), w.Loads...)
	c.Frames = append([]Frame(nil), w.Frames...)
	c.Traces = append([]Trace(nil), w.Traces...)
	c.Roots = append([]Root(nil), w.Roots...)
	c.Classes = append([]Class(nil), w.Classes...)
	for i := range c.Classes {
		k := &c.Classes[i]
		k.Consts = append([]Const(nil), k.Consts...)
		k.Statics = append([]Static(nil), k.Statics...)
		k.Fields = append([]Field(nil), k.Fields...)
	}
	c.Objs = append([]Obj(nil), w.Objs...)
	for i := range c.Objs {
		o := &c.Objs[i]
		o.Vals = append([]Val(nil), o.Vals...)
		o.Elems = append([]uint64(nil), o.Elems...)
	}
	return &c
}

type dec struct {
	b   []byte
	p   int
	id  int
	err error
}

func (d *dec) take(n int) []byte {
	if d.err != nil || n < 0 || d.p+n > len(d.b) {
		if d.err == nil {
			d.err = fmt.Errorf("short read at %d", d.p)
		}
		return make([]byte, 8)
	}
	r := d.b[d.p : d.p+n]
	d.p += n
	return r
}
func (d *dec) u1() byte   { return d.take(1)[0] }
func (d *dec) u2() uint16 { return binary.BigEndian.Uint16(d.take(2)) }
func (d *dec) u4() uint32 { return binary.BigEndian.Uint32(d.take(4)) }
func (d *dec) u8() uint64 { return binary.BigEndian.Uint64(d.take(8)) }
func (d *dec) ref() uint64 {
	if d.id == 4 {
		return uint64(d.u4())
	}
	return d.u8()
}
func (d *dec) val(t byte) Val {
	switch TypeSize(t, d.id) {
	case 1:
		return Val{t, uint64(d.u1())}
	case 2:
		return Val{t, uint64(d.u2())}
	case 4:
		return Val{t, uint64(d.u4())}
	case 8:
		return Val{t, d.u8()}
	}
	if d.err == nil {
		d.err = fmt.Errorf("bad type %d at %d", t, d.p)
	}
	return Val{}
}

// Decode reads a dump by the lengths of its records. Unlike the tool it decides
// where a segment ends only by its length.
func Decode(b []byte) (*World, error) {
	d := &dec{b: b}
	if string(d.take(19)) != "JAVA PROFILE 1.0.2\x00" {
		return nil, fmt.Errorf("bad header")
	}
	w := &World{IDSize: int(d.u4())}
	w.Time = int64(d.u8())
	d.id = w.IDSize
	raw := map[int][]byte{}
	ended := false
	for !ended && d.err == nil {
		tag := d.u1()
		d.u4()
		n := int(d.u4())
		end := d.p + n
		switch tag {
		case 1:
			id := d.ref()
			w.Strs = append(w.Strs, Str{id, fromModified(string(d.take(end - d.p)))})
		case 2:
			w.Loads = append(w.Loads, Load{d.u4(), d.ref(), d.u4(), d.ref()})
		case 4:
			w.Frames = append(w.Frames, Frame{d.ref(), d.ref(), d.ref(), d.ref(), d.u4(), int32(d.u4())})
		case 5:
			t := Trace{Serial: d.u4(), Thread: d.u4()}
			for k := d.u4(); k > 0 && d.err == nil; k-- {
				t.Frames = append(t.Frames, d.ref())
			}
			w.Traces = append(w.Traces, t)
		case 0x1c:
			for d.p < end && d.err == nil {
				d.sub(w, raw)
			}
		case 0x2c:
			ended = true
		default:
			return nil, fmt.Errorf("tag %d", tag)
		}
		if d.p != end && d.err == nil {
			return nil, fmt.Errorf("record of tag %d ends at %d, not %d", tag, d.p, end)
		}
	}
	if d.err != nil {
		return nil, d.err
	}
	ix := w.Index()
	for i, data := range raw {
		o := &w.Objs[i]
		dd := &dec{b: data, id: w.IDSize}
		for c := ix.Class[o.Class]; c != nil; c = ix.Class[c.Super] {
			for _, f := range c.Fields {
				o.Vals = append(o.Vals, dd.val(f.T))
			}
		}
		if dd.err != nil || dd.p != len(data) {
			return nil, fmt.Errorf("bad instance %x: %v", o.ID, dd.err)
		}
	}
	return w, nil
}

func (d *dec) sub(w *World, raw map[int][]byte) {
	k := d.u1()
	switch k {
	case RootUnknown, RootSticky, RootMonitor:
		w.Roots = append(w.Roots, Root{Kind: k, Obj: d.ref()})
	case RootJNIGlobal:
		w.Roots = append(w.Roots, Root{Kind: k, Obj: d.ref(), A: d.ref()})
	case RootJNILocal, RootJavaFrame, RootThread:
		w.Roots = append(w.Roots, Root{Kind: k, Obj: d.ref(), A: uint64(d.u4()), B: uint64(d.u4())})
	case RootNativeStack, RootThreadBlock:
		w.Roots = append(w.Roots, Root{Kind: k, Obj: d.ref(), A: uint64(d.u4())})
	case KClass:
		c := Class{ID: d.ref(), Trace: d.u4(), Super: d.ref(), Loader: d.ref(), Signers: d.ref(), Domain: d.ref()}
		d.ref()
		d.ref()
		c.Size = int32(d.u4())
		for n := d.u2(); n > 0 && d.err == nil; n-- {
			x := d.u2()
			c.Consts = append(c.Consts, Const{x, d.val(d.u1())})
		}
		for n := d.u2(); n > 0 && d.err == nil; n-- {
			x := d.ref()
			c.Statics = append(c.Statics, Static{x, d.val(d.u1())})
		}
		for n := d.u2(); n > 0 && d.err == nil; n-- {
			x := d.ref()
			c.Fields = append(c.Fields, Field{x, d.u1()})
		}
		w.Classes = append(w.Classes, c)
	case KInst:
		o := Obj{Kind: k, ID: d.ref(), Trace: d.u4(), Class: d.ref()}
		raw[len(w.Objs)] = d.take(int(d.u4()))
		w.Objs = append(w.Objs, o)
	case KObjA:
		o := Obj{Kind: k, ID: d.ref(), Trace: d.u4()}
		n := d.u4()
		o.Class = d.ref()
		for ; n > 0 && d.err == nil; n-- {
			o.Elems = append(o.Elems, d.ref())
		}
		w.Objs = append(w.Objs, o)
	case KPrim:
		o := Obj{Kind: k, ID: d.ref(), Trace: d.u4()}
		n := int(d.u4())
		o.T = d.u1()
		if TypeSize(o.T, d.id) < 0 {
			d.err = fmt.Errorf("bad element type %d", o.T)
			return
		}
		o.Data = append([]byte(nil), d.take(n*TypeSize(o.T, d.id))...)
		w.Objs = append(w.Objs, o)
	default:
		d.err = fmt.Errorf("sub-record %#x at %d", k, d.p)
	}
}

// Index gives access to the parts of a world by identifier.
type Index struct {
	W      *World
	Str    map[uint64]string
	Load   map[uint64]*Load
	Serial map[uint32]*Load
	Class  map[uint64]*Class
	Frame  map[uint64]*Frame
	Obj    map[uint64]*Obj
}

func (w *World) Index() *Index {
	ix := &Index{W: w, Str: map[uint64]string{}, Load: map[uint64]*Load{}, Serial: map[uint32]*Load{},
		Class: map[uint64]*Class{}, Frame: map[uint64]*Frame{}, Obj: map[uint64]*Obj{}}
	for _, s := range w.Strs {
		ix.Str[s.ID] = s.S
	}
	for i := range w.Loads {
		ix.Load[w.Loads[i].ID] = &w.Loads[i]
		ix.Serial[w.Loads[i].Serial] = &w.Loads[i]
	}
	for i := range w.Classes {
		ix.Class[w.Classes[i].ID] = &w.Classes[i]
	}
	for i := range w.Frames {
		ix.Frame[w.Frames[i].ID] = &w.Frames[i]
	}
	for i := range w.Objs {
		ix.Obj[w.Objs[i].ID] = &w.Objs[i]
	}
	return ix
}

// ClassName is the internal name of the class.
func (ix *Index) ClassName(id uint64) string {
	l := ix.Load[id]
	if l == nil {
		return ""
	}
	return ix.Str[l.Name]
}
