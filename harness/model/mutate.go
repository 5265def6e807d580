package model

import (
	"encoding/binary"
	"strings"

	"pgregory.net/rapid"
)

// Edit is a change of a heap that need not leave it well-formed. All the numbers
// are taken modulo what there is.
type Edit struct {
	Op int    `json:"op"`
	A  uint64 `json:"a"`
	B  uint64 `json:"b,omitempty"`
	C  uint64 `json:"c,omitempty"`
}

// Edits is how many kinds of edits there are.
const Edits = 28

var oddSymbols = []string{"", "(", ")", "()", "(V", "()[", "()L", "(L;)V", "([)V", "(Q)V", "[", "[[", "[[[[[[[[", "[L", "[Lx", "[Ljava/lang/String", "L;", "L", ";", "V", "[V", "[Q",
	"java/lang/String", "java/lang/Thread", "java/lang/System", "sun/management/ManagementFactoryHelper", "java/util/concurrent/ConcurrentHashMap$TreeBin",
	"java/util/concurrent/ConcurrentHashMap$ForwardingNode", "name", "value", "table", "next", "first", "key", "val", "map", "props", "coder", "threadStatus", "tid", "\x00", "\xff\xfe", "%s%n", "<b>", "{{.}}",
	"/", "a/", "/a", "//", "a//b", "$", "a$", ".", "a.", ".a", "..", "+", "a+", "a+0x0", "-", ":", "a:", "#", "<", "<init", "@", "=", " ", "\n"}

// Edit applies the edit.
func (w *World) Edit(e Edit) {
	r := NewRng(e.C)
	anyID := func() uint64 {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return r.Next()
		case 2:
			if len(w.Classes) > 0 {
				return w.Classes[r.Intn(len(w.Classes))].ID
			}
		}
		if len(w.Objs) > 0 {
			return w.Objs[r.Intn(len(w.Objs))].ID
		}
		return r.Next()
	}
	at := func(n int) (int, bool) {
		if n == 0 {
			return 0, false
		}
		return int(e.A % uint64(n)), true
	}
	pick := func(n int) int { return int(e.B % uint64(n)) }
	num := func() uint32 {
		return []uint32{0, 1, 2, 0xffffffff, 0x7fffffff, 0x80000000, uint32(r.Next()), uint32(r.Intn(300))}[r.Intn(8)]
	}
	ty := func() byte { return []byte{2, 4, 5, 6, 7, 8, 9, 10, 11, 0, 1, 3, 12, 255}[r.Intn(14)] }
	switch e.Op % Edits {
	case 0:
		if i, ok := at(len(w.Classes)); ok {
			w.Classes[i].Super = w.Classes[pick(len(w.Classes))].ID
		}
	case 1, 16, 17:
		// a reference in an instance
		if i, ok := at(len(w.Objs)); ok {
			for ; i < len(w.Objs); i++ {
				var refs []int
				for k, v := range w.Objs[i].Vals {
					if v.T == TObject {
						refs = append(refs, k)
					}
				}
				if len(refs) > 0 {
					w.Objs[i].Vals[refs[pick(len(refs))]].V = anyID()
					break
				}
			}
		}
	case 2, 18:
		if i, ok := at(len(w.Objs)); ok {
			for ; i < len(w.Objs); i++ {
				if n := len(w.Objs[i].Elems); n > 0 {
					w.Objs[i].Elems[pick(n)] = anyID()
					break
				}
			}
		}
	case 3:
		if i, ok := at(len(w.Objs)); ok {
			w.Objs[i].Class = anyID()
		}
	case 4:
		switch e.B % 7 {
		case 0:
			if i, ok := at(len(w.Strs)); ok {
				w.Strs = append(w.Strs[:i], w.Strs[i+1:]...)
			}
		case 1:
			if i, ok := at(len(w.Loads)); ok {
				w.Loads = append(w.Loads[:i], w.Loads[i+1:]...)
			}
		case 2:
			if i, ok := at(len(w.Classes)); ok {
				w.Classes = append(w.Classes[:i], w.Classes[i+1:]...)
			}
		case 3:
			if i, ok := at(len(w.Frames)); ok {
				w.Frames = append(w.Frames[:i], w.Frames[i+1:]...)
			}
		case 4:
			if i, ok := at(len(w.Traces)); ok {
				w.Traces = append(w.Traces[:i], w.Traces[i+1:]...)
			}
		default:
			if i, ok := at(len(w.Objs)); ok {
				w.Objs = append(w.Objs[:i], w.Objs[i+1:]...)
			}
		}
	case 5:
		switch e.B % 6 {
		case 0:
			if i, ok := at(len(w.Classes)); ok {
				w.Classes = append(w.Classes, w.Classes[i])
			}
		case 1:
			if i, ok := at(len(w.Loads)); ok {
				w.Loads = append(w.Loads, w.Loads[i])
			}
		case 2:
			if i, ok := at(len(w.Traces)); ok {
				w.Traces = append(w.Traces, w.Traces[i])
			}
		case 3:
			if i, ok := at(len(w.Objs)); ok {
				w.Objs = append(w.Objs, w.Objs[i])
				w.SortObjs()
			}
		default:
			if i, ok := at(len(w.Roots)); ok {
				w.Roots = append(w.Roots, w.Roots[i])
			}
		}
	case 6:
		if i, ok := at(len(w.Classes)); ok {
			if n := len(w.Classes[i].Fields); n > 0 {
				f := append([]Field(nil), w.Classes[i].Fields...)
				f[pick(n)].T = ty()
				w.Classes[i].Fields = f
			}
		}
	case 7:
		if i, ok := at(len(w.Objs)); ok {
			o := &w.Objs[i]
			if n := len(o.Vals); n > 0 && e.B&1 == 0 {
				o.Vals = o.Vals[:r.Intn(n)]
			} else if o.Kind == KInst {
				o.Vals = append(append([]Val(nil), o.Vals...), Val{TLong, r.Next()})
			}
		}
	case 8:
		if i, ok := at(len(w.Objs)); ok {
			for ; i < len(w.Objs); i++ {
				if o := &w.Objs[i]; o.Kind == KPrim {
					o.T = PrimTypes[pick(8)]
					if e.B>>8&1 == 0 {
						o.Data = o.Data[:r.Intn(len(o.Data)+1)]
					}
					n := TypeSize(o.T, 8)
					o.Data = o.Data[:len(o.Data)/n*n]
					break
				}
			}
		}
	case 9:
		if i, ok := at(len(w.Roots)); ok {
			switch e.B % 3 {
			case 0:
				w.Roots[i].Obj = anyID()
			case 1:
				w.Roots[i].A = uint64(num())
			case 2:
				w.Roots[i].B = uint64(num())
			}
		}
	case 10:
		if i, ok := at(len(w.Traces)); ok {
			if n := len(w.Traces[i].Frames); n > 0 && e.B&1 == 0 {
				w.Traces[i].Frames = append([]uint64(nil), w.Traces[i].Frames...)
				w.Traces[i].Frames[int(e.B>>1)%n&0x7fffffff] = anyID()
			} else {
				w.Traces[i].Serial = num()
			}
		}
	case 11:
		if i, ok := at(len(w.Classes)); ok {
			for k := range w.Classes {
				c := &w.Classes[(i+k)%len(w.Classes)]
				if n := len(c.Statics); n > 0 {
					c.Statics = append([]Static(nil), c.Statics...)
					s := &c.Statics[pick(n)]
					s.V = anyID()
					if e.B>>16&3 == 0 {
						s.T = AllTypes[r.Intn(len(AllTypes))]
					}
					break
				}
			}
		}
	case 12:
		if i, ok := at(len(w.Loads)); ok {
			switch e.B % 3 {
			case 0:
				w.Loads[i].Name = anyID()
			case 1:
				w.Loads[i].ID = anyID()
			case 2:
				w.Loads[i].Serial = num()
			}
		}
	case 13, 19, 20:
		if i, ok := at(len(w.Strs)); ok {
			w.Strs[i].S = oddSymbols[pick(len(oddSymbols))]
		}
	case 14:
		if i, ok := at(len(w.Objs)); ok {
			j := pick(len(w.Objs))
			w.Objs[i], w.Objs[j] = w.Objs[j], w.Objs[i]
		}
	case 15:
		if i, ok := at(len(w.Classes)); ok {
			w.Classes[i].Size = int32(num())
		}
	case 22, 23:
		// the name of a class, of an object that is referred to if possible
		if i, ok := at(len(w.Roots)); ok && len(w.Loads) > 0 {
			class := w.Roots[i].Obj
			for k := range w.Objs {
				if o := &w.Objs[k]; o.ID == class && o.Kind != KPrim {
					class = o.Class
				}
			}
			l := w.Loads[pick(len(w.Loads))]
			for _, k := range w.Loads {
				if k.ID == class {
					l = k
				}
			}
			w.setStr(l.Name, r)
		}
	case 24:
		if i, ok := at(len(w.Frames)); ok {
			f := w.Frames[i]
			w.setStr([]uint64{f.Sig, f.Sig, f.Sig, f.Method, f.File}[pick(5)], r)
		}
	case 25:
		if i, ok := at(len(w.Classes)); ok {
			for k := range w.Classes {
				if c := &w.Classes[(i+k)%len(w.Classes)]; len(c.Fields) > 0 {
					w.setStr(c.Fields[pick(len(c.Fields))].Name, r)
					break
				}
			}
		}
	case 26:
		// the class of an object is of another kind
		if i, ok := at(len(w.Objs)); ok && len(w.Classes) > 0 {
			w.Objs[i].Class = w.Classes[pick(len(w.Classes))].ID
		}
	case 27:
		// a local variable
		if i, ok := at(len(w.Roots)); ok {
			for k := range w.Roots {
				if t := w.Roots[(i+k)%len(w.Roots)]; t.Kind == RootThread {
					w.Roots = append(w.Roots, Root{RootJavaFrame, anyID(), t.A, []uint64{0, 1, uint64(r.Intn(20)), 0xffffffff}[r.Intn(4)]})
					break
				}
			}
		}
	case 21:
		if i, ok := at(len(w.Frames)); ok {
			f := &w.Frames[i]
			switch e.B % 5 {
			case 0:
				f.Method = anyID()
			case 1:
				f.Sig = anyID()
			case 2:
				f.File = anyID()
			case 3:
				f.ClassSerial = num()
			case 4:
				f.Line = int32(num())
			}
		}
	}
}

func (w *World) setStr(id uint64, r *Rng) {
	for i := range w.Strs {
		if w.Strs[i].ID == id {
			if s := w.Strs[i].S; r.Intn(2) == 0 {
				// a small change of what it was
				k := r.Intn(len(s) + 1)
				mark := []string{"/", ".", "$", ";", "[", "L", "(", ")", "<", ">", " ", "+", "-", "_", "0", "\x00", "\xc0"}[r.Intn(17)]
				switch r.Intn(6) {
				case 0:
					w.Strs[i].S = s[:k]
				case 1:
					w.Strs[i].S = s[k:]
				case 2:
					w.Strs[i].S = s[:k] + mark + s[k:]
				case 3:
					w.Strs[i].S = s + mark
				case 4:
					w.Strs[i].S = mark + s
				case 5:
					if n := strings.LastIndexAny(s, "/.$_"); n >= 0 {
						w.Strs[i].S = s[:n+1]
					}
				}
				return
			}
			w.Strs[i].S = oddSymbols[r.Intn(len(oddSymbols))]
			if r.Intn(3) == 0 {
				w.Strs[i].S = oddSymbols[r.Intn(4)*5]
			}
			return
		}
	}
}

// Mut is a change of bytes.
type Mut struct {
	Op   int    `json:"op"`
	Near bool   `json:"near,omitempty"` // near the start of a record
	Pos  uint64 `json:"p"`
	V    uint64 `json:"v,omitempty"`
}

var oddNumbers = []uint64{0, 1, 2, 3, 4, 7, 8, 9, 16, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
	0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff}

// Apply changes the bytes. Starts are places of records in the file before all
// changes.
func (m Mut) Apply(b []byte, starts []uint64) []byte {
	pos := int(m.Pos % uint64(len(b)+1))
	if m.Near && len(starts) > 0 {
		pos = int(starts[m.Pos%uint64(len(starts))]) + int(m.Pos>>32%24)
		pos = min(pos, len(b))
	}
	r := NewRng(m.V)
	put := func(v []byte) []byte {
		c := append([]byte(nil), b...)
		copy(c[pos:], v)
		return c
	}
	splice := func(from, to int, v []byte) []byte {
		to = min(to, len(b))
		c := append([]byte(nil), b[:from]...)
		c = append(c, v...)
		return append(c, b[to:]...)
	}
	n := oddNumbers[r.Intn(len(oddNumbers))]
	switch m.Op % 12 {
	case 0:
		if pos < len(b) {
			return put([]byte{b[pos] ^ 1<<(m.V%8)})
		}
	case 1:
		return put([]byte{byte(m.V)})
	case 2:
		return put(binary.BigEndian.AppendUint16(nil, uint16(n)))
	case 3:
		return put(binary.BigEndian.AppendUint32(nil, uint32(n)))
	case 4:
		return put(binary.BigEndian.AppendUint64(nil, n))
	case 5:
		return splice(pos, pos+1+r.Intn(20), nil)
	case 6:
		v := make([]byte, 1+r.Intn(20))
		for i := range v {
			v[i] = byte(r.Next())
		}
		return splice(pos, pos, v)
	case 7: // repeat
		return splice(pos, pos, append([]byte(nil), b[pos:min(pos+1+r.Intn(200), len(b))]...))
	case 8: // a piece from elsewhere
		from := r.Intn(len(b) + 1)
		return splice(pos, pos+r.Intn(60), append([]byte(nil), b[from:min(from+1+r.Intn(60), len(b))]...))
	case 9: // cut
		if m.V%4 == 0 {
			return b[:pos]
		}
	case 10: // add to the number
		if pos+4 <= len(b) {
			return put(binary.BigEndian.AppendUint32(nil, binary.BigEndian.Uint32(b[pos:])+uint32(r.Intn(9))-4))
		}
	case 11: // one record in the place of another
		if len(starts) > 0 {
			from := int(starts[r.Intn(len(starts))])
			if from < len(b) {
				return splice(pos, pos+r.Intn(40), append([]byte(nil), b[from:min(from+1+r.Intn(60), len(b))]...))
			}
		}
	}
	return b
}

// File is any file: a dump made of a heap that may be spoiled, then changed
// bytes, or just bytes.
type File struct {
	W     *World `json:"w,omitempty"`
	L     Layout `json:"l"`
	Edits []Edit `json:"edits,omitempty"`
	Muts  []Mut  `json:"muts,omitempty"`
	Raw   []byte `json:"raw,omitempty"`
	Head  int    `json:"head,omitempty"` // of raw bytes: 1: file header first, 2: and a heap segment
}

// GenFile draws a file.
func GenFile(t *rapid.T, w func(o Opts) *World) File {
	f := File{L: GenLayout(t)}
	kind := rapid.IntRange(0, 9).Draw(t, "file")
	if kind == 0 {
		f.Head = rapid.IntRange(0, 2).Draw(t, "head")
		f.Raw = rapid.SliceOfN(rapid.Byte(), 0, 400).Draw(t, "raw")
		return f
	}
	f.W = w(Opts{Small: rapid.IntRange(0, 4).Draw(t, "small") > 0})
	if kind >= 4 {
		f.Edits = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Edit {
			return Edit{rapid.IntRange(0, Edits-1).Draw(t, "op"), rapid.Uint64().Draw(t, "a"), rapid.Uint64().Draw(t, "b"), rapid.Uint64().Draw(t, "c")}
		}), 1, 6).Draw(t, "edits")
	}
	if kind < 6 {
		f.Muts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Mut {
			return Mut{rapid.IntRange(0, 11).Draw(t, "op"), rapid.IntRange(0, 3).Draw(t, "near") > 0, rapid.Uint64().Draw(t, "pos"), rapid.Uint64().Draw(t, "v")}
		}), 1, 4).Draw(t, "muts")
	}
	return f
}

// Bytes makes the file.
func (f File) Bytes() []byte {
	if f.W == nil {
		var b []byte
		if f.Head > 0 {
			b = (&World{IDSize: 4 + 4*(len(f.Raw)%2), Time: 1}).Header()
		}
		if f.Head > 1 {
			b = append(b, 0x1c, 0, 0, 0, 0, 0, 0, 0, 0)
		}
		return append(b, f.Raw...)
	}
	w := f.W
	if len(f.Edits) > 0 {
		w = w.Clone()
		for _, e := range f.Edits {
			w.Edit(e)
		}
	}
	b := w.Encode(f.L)
	if len(f.Muts) > 0 {
		starts := w.Starts(f.L)
		for _, m := range f.Muts {
			b = m.Apply(b, starts)
		}
	}
	return b
}
