package model

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"
)

// Opts bounds generated worlds. Zero values are defaults.
type Opts struct {
	IDSize      int  // 0: any
	Small       bool // little worlds, for expensive checks
	NoSystem    bool // no system properties (the summary is not available)
	Symbols     bool // unusual characters in symbols
	MaxThreads  int
	MaxFrames   int
	MaxObjs     int
	MaxProps    int
	ForceLocals bool
	SmallSizes  bool   // declared instance sizes are realistic
	AnyText     bool   // any characters in texts of the heap, but no line breaks
	Codes       bool   // color codes in texts of the heap
	PlainRoots  bool   // only root kinds written by HotSpot
	Bulk        int    // percentage of heaps having very many things of some kind
	BulkKind    string // which ones, all if empty
}

// Truth is what the generator meant, independently of how it is stored.
type Truth struct {
	Props    map[string]string
	HasStart bool
	Start    int64
	Names    map[int64]string // thread names by ID
}

type fieldDef struct {
	name string
	t    byte
}

type bclass struct {
	h      uint64
	serial uint32
	name   string
	super  *bclass
	fields []fieldDef
}

func (c *bclass) isA(name string) bool {
	for ; c != nil; c = c.super {
		if c.name == name {
			return true
		}
	}
	return false
}

type builder struct {
	t       *rapid.T
	r       *Rng
	o       Opts
	w       *World
	truth   *Truth
	next    uint64
	strs    map[string]uint64
	classes []*bclass
	byName  map[string]*bclass
	serials map[uint32]bool
	objs    []uint64 // handles of all objects that may be referred to
	mirrors []uint64 // handles of classes
	descs   []string
	texts   map[string]text
	bulk    string // what there is very much of
	bulkN   int
}

// much is how many things there are if there are very many of the kind.
func (b *builder) much(kind string) int {
	if b.bulk == kind {
		return b.bulkN
	}
	return 0
}

var bulkSizes = []int{250, 255, 256, 257, 258, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000,
	8191, 8193, 10000, 16385, 20000, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 66000, 70000}

// bulkMax bounds what would be too slow.
var bulkMax = map[string]int{"threads": 3000, "frames": 70000, "depth": 70000, "classes": 70000, "roots": 70000, "locals": 10000, "props": 3000,
	"objects": 70000, "hierarchy": 1100, "strings": 70000, "loads": 70000, "fields": 65535, "table": 70000}

func (b *builder) drawBulk() {
	if b.o.Bulk <= 0 || rapid.IntRange(0, 99).Draw(b.t, "bulk") < 100-b.o.Bulk {
		return
	}
	kinds := b.o.BulkKind
	if kinds == "" {
		kinds = "depth,threads,frames,classes,roots,locals,props,objects,hierarchy,strings,fields,table"
	}
	b.bulk = rapid.SampledFrom(strings.Split(kinds, ",")).Draw(b.t, "bulkKind")
	sizes := bulkSizes
	for sizes[len(sizes)-1] > bulkMax[b.bulk] {
		sizes = sizes[:len(sizes)-1]
	}
	b.bulkN = rapid.SampledFrom(sizes).Draw(b.t, "bulkSize")
}

func (b *builder) chance(pct int, label string) bool {
	return rapid.IntRange(0, 99).Draw(b.t, label) >= 100-pct
}

func (b *builder) n(max int, label string) int {
	if max <= 0 {
		return 0
	}
	// mostly small, sometimes up to the bound
	if max > 6 && !b.chance(15, label+"Big") {
		max = 6
	}
	return rapid.IntRange(0, max).Draw(b.t, label)
}

func (b *builder) handle() uint64 { b.next++; return b.next }

func (b *builder) str(s string) uint64 {
	if id, ok := b.strs[s]; ok && b.r.Intn(40) > 0 {
		return id // otherwise it is recorded once more
	}
	id := uint64(len(b.w.Strs) + 1)
	b.strs[s] = id
	b.w.Strs = append(b.w.Strs, Str{id, s})
	return id
}

func (b *builder) serial() uint32 {
	for {
		var s uint32
		if k := b.r.Intn(8); k == 0 {
			s = uint32(b.r.Next())
		} else if k == 1 && len(b.classes) > 0 { // alike another one
			s = b.classes[b.r.Intn(len(b.classes))].serial + uint32(1+b.r.Intn(3))<<(8<<b.r.Intn(2))
		} else {
			s = uint32(len(b.serials) + 1 + b.r.Intn(3))
		}
		if s != 0 && !b.serials[s] {
			b.serials[s] = true
			return s
		}
	}
}

// bits draws a value of the type, with extreme ones being frequent.
func (b *builder) bits(t byte) uint64 {
	v := b.r.Next()
	switch b.r.Intn(6) {
	case 0:
		v = 0
	case 1:
		v = math.MaxUint64
	case 2:
		v = 1
	case 3:
		v = 1 << (8*TypeSize(t, 8) - 1) // the lowest negative one
	}
	switch t {
	case TObject:
		return b.anyRef()
	case TBool:
		return v & 1
	}
	if n := TypeSize(t, 8); n < 8 {
		v &= 1<<(8*n) - 1
	}
	return v
}

func (b *builder) anyRef() uint64 {
	if len(b.objs) == 0 || b.r.Intn(4) == 0 {
		return 0
	}
	if b.r.Intn(8) == 0 && len(b.mirrors) > 0 {
		return b.mirrors[b.r.Intn(len(b.mirrors))]
	}
	return b.objs[b.r.Intn(len(b.objs))]
}

func (b *builder) instSize() int32 {
	if !b.o.SmallSizes && b.r.Intn(12) == 0 {
		return []int32{0, 1, math.MaxInt32, 1 << 30, 1 << 20, 1023, 1024, 1025, 1<<20 - 1, 1<<30 - 1}[b.r.Intn(10)]
	}
	return int32(8 * b.r.Intn(30))
}

// class declares a loaded class with its dump.
func (b *builder) class(name string, super *bclass, fields []fieldDef, statics ...Static) *bclass {
	c := &bclass{h: b.handle(), serial: b.serial(), name: name, super: super, fields: fields}
	b.w.Loads = append(b.w.Loads, Load{c.serial, c.h, uint32(b.r.Intn(3)), b.str(name)})
	k := Class{ID: c.h, Trace: uint32(b.r.Intn(3)), Size: b.instSize(), Statics: statics}
	if super != nil {
		k.Super = super.h
	}
	for _, f := range fields {
		k.Fields = append(k.Fields, Field{b.str(f.name), f.t})
	}
	b.w.Classes = append(b.w.Classes, k)
	b.classes = append(b.classes, c)
	if _, ok := b.byName[name]; !ok {
		b.byName[name] = c
	}
	b.mirrors = append(b.mirrors, c.h)
	return c
}

func (b *builder) dump(c *bclass) *Class {
	for i := range b.w.Classes {
		if b.w.Classes[i].ID == c.h {
			return &b.w.Classes[i]
		}
	}
	panic("no class")
}

// shuffled puts fields in a random order.
func (b *builder) shuffled(f ...fieldDef) []fieldDef {
	b.r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
	return f
}

// noise adds some more fields to the known ones. Their names differ from them.
func (b *builder) noise(f ...fieldDef) []fieldDef {
	for k := b.r.Intn(4); k > 0; k-- {
		t := AllTypes[b.r.Intn(len(AllTypes))]
		f = append(f, fieldDef{fmt.Sprintf("x%d%s", k, TypeName(t)), t})
	}
	return b.shuffled(f...)
}

// inst creates an instance. vals gives values by "declaring class.field" name,
// other fields have random values.
func (b *builder) inst(c *bclass, vals map[string]uint64) uint64 {
	o := Obj{Kind: KInst, ID: b.handle(), Trace: uint32(b.r.Intn(3)), Class: c.h}
	for k := c; k != nil; k = k.super {
		for _, f := range k.fields {
			v, ok := vals[k.name+"."+f.name]
			if !ok {
				v = b.bits(f.t)
			}
			o.Vals = append(o.Vals, Val{f.t, v})
		}
	}
	b.w.Objs = append(b.w.Objs, o)
	b.objs = append(b.objs, o.ID)
	return o.ID
}

func (b *builder) prim(t byte, data []byte) uint64 {
	o := Obj{Kind: KPrim, ID: b.handle(), Trace: uint32(b.r.Intn(3)), T: t, Data: data}
	b.w.Objs = append(b.w.Objs, o)
	b.objs = append(b.objs, o.ID)
	return o.ID
}

func (b *builder) array(c *bclass, elems []uint64) uint64 {
	o := Obj{Kind: KObjA, ID: b.handle(), Trace: uint32(b.r.Intn(3)), Class: c.h, Elems: elems}
	b.w.Objs = append(b.w.Objs, o)
	b.objs = append(b.objs, o.ID)
	return o.ID
}

func (b *builder) arrayClass(name string) *bclass {
	if c, ok := b.byName[name]; ok {
		return c
	}
	return b.class(name, b.byName["java/lang/Object"], nil)
}

// EncodeText is the payload and coder of java.lang.String with the text.
func EncodeText(s string, wide bool) ([]byte, byte) {
	latin := true
	for _, r := range s {
		latin = latin && r < 256
	}
	if latin && !wide {
		var d []byte
		for _, r := range s {
			d = append(d, byte(r))
		}
		return d, 0
	}
	var d []byte
	for _, u := range utf16.Encode([]rune(s)) {
		d = append(d, byte(u), byte(u>>8))
	}
	return d, 1
}

func (b *builder) text(s string) uint64 {
	// JVM started with -XX:-CompactStrings keeps everything as UTF16
	if known, ok := b.texts[s]; ok {
		switch b.r.Intn(4) {
		case 0: // the very same object, as interned strings are
			return known.object
		case 1: // the array is shared after deduplication
			return b.stringOf(known.value, known.coder)
		}
	}
	d, coder := EncodeText(s, b.wide())
	v := b.prim(TByte, d)
	h := b.stringOf(v, coder)
	b.texts[s] = text{h, v, coder}
	return h
}

type text struct {
	object, value uint64
	coder         byte
}

func (b *builder) stringOf(value uint64, coder byte) uint64 {
	return b.inst(b.byName["java/lang/String"], map[string]uint64{
		"java/lang/String.value": value, "java/lang/String.coder": uint64(coder)})
}

func (b *builder) wide() bool { return b.r.s>>40&7 == 0 }

var textAlphabets = []string{
	"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.#:/ ",
	"ab \u00e9\u00fc\u00ff\u00df\u00a1\u00b5\u0080\u009f",
	"a\u0416\u65e5\u672c\u20ac\u0100\u0101\u4e00\ud7ff\ue000\ufb01\u05d0",
	"\U0001f600\U00010000\U0010ffffxy\U0001d54f",
	"<>&\"'=`/{}()[]%$#\\+ab",
	"x\u2028y\u202e\u200dz\u0301",
	"a\tb\u0001\u0007\u001b\u007f\u00a0\u00ad\u200b\u2060\ufeff\u3000\ue000\U000e0041z",
}

var textSamples = []string{
	"<script>alert(\"x\")</script>", "&lt;b&gt;", "</p><p class=\"one\">", "{{.Title}}", "' onload='x", "<!-- ", "]]>", "</style>",
	"&amp;amp;", "a&b", "%s %d %v", "%!(EXTRA)", "\\n", "main", "Reference Handler", "java.lang.Thread", "a\tb", "ID=1, prio=5", "\"quoted\"", "(daemon)",
}

// GenText draws a text without line breaks, control characters and without
// spaces at its ends.
func GenText(t *rapid.T, label string, max int) string {
	if rapid.IntRange(0, 9).Draw(t, label+"Kind") == 9 {
		s := rapid.SampledFrom(textSamples).Draw(t, label+"Sample")
		if len(s) <= max {
			return s
		}
	}
	a := []rune(textAlphabets[rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5, 6}).Draw(t, label+"Abc")])
	rs := rapid.SliceOfN(rapid.SampledFrom(a), 0, min(max, 24)).Draw(t, label)
	s := strings.TrimSpace(string(rs))
	if max > 24 && rapid.IntRange(0, 40).Draw(t, label+"Long") == 40 && s != "" {
		n := rapid.SampledFrom([]int{100, 127, 128, 255, 256, 300, 1000, 4095, 4096, 4097, 9000, 65535, 65536, 66000}).Draw(t, label+"Len")
		if n > max {
			n = max
		}
		s = strings.TrimSpace(strings.Repeat(s, n/len(s)+1))
	}
	return s
}

func (b *builder) genText(label string, max int) string {
	if b.o.Codes && b.chance(2, label+"Codes") {
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(colorCodes), 1, 6).Draw(b.t, label), "")
	}
	if !b.o.AnyText || b.chance(20, label+"Usual") {
		return GenText(b.t, label, max)
	}
	top := rapid.SampledFrom([]rune{0x7f, 0xff, 0x7ff, 0xffff, 0x10ffff}).Draw(b.t, label+"Top")
	rs := rapid.SliceOfN(rapid.Int32Range(1, top), 0, 24).Draw(b.t, label)
	for i, c := range rs {
		switch {
		case c == '\n' || c == '\r':
			rs[i] = '\t'
		case c >= 0xd800 && c < 0xe000:
			rs[i] = 0x200b
		case c == '[' && i > 0 && rs[i-1] == 0x1b:
			rs[i] = ']' // it would be a color code
		}
	}
	return strings.TrimSpace(string(rs))
}

var colorCodes = []string{"\x1b[0m", "\x1b[m", "\x1b[1m", "\x1b[31m", "\x1b[36m", "\x1b[33m", "\x1b[34m", "\x1b[1;31m", "\x1b", "\x1b[2K", "a", "b c", "m", "[", "0m"}

var symAlphabets = []string{
	"abcxyzABCIJLSZVDF0189_$",
	"ab\u00e9\u0416\u65e5$-",
	"ab\u65e5\U0001f600\U00010000\U0010ffff\U0001d49c\ue000\ufffd$",
	"a<>()'\"&=+{}$LIJ,:!|*?#%",
}

// alike changes a text in little.
func alike(s string, r *Rng) string {
	switch r.Intn(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		rs := []rune(s)
		return strings.ToUpper(string(rs[:1])) + string(rs[1:])
	case 3:
		return s + "."
	case 4:
		return s + "1"
	}
	return strings.ReplaceAll(s, ".", "_") + "x"
}

// GenSym draws a JVM unqualified name.
func GenSym(t *rapid.T, label string, unusual bool) string {
	k := 0
	if unusual {
		k = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 3, 3}).Draw(t, label+"Abc")
	}
	a := []rune(symAlphabets[k])
	return string(rapid.SliceOfN(rapid.SampledFrom(a), 1, 10).Draw(t, label))
}

// GenClassName draws an internal name of a class.
func GenClassName(t *rapid.T, label string, unusual bool) string {
	n := rapid.IntRange(1, 4).Draw(t, label+"Depth")
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, GenSym(t, label, unusual))
	}
	return strings.Join(parts, "/")
}

// GenTypeDesc draws a field descriptor.
func GenTypeDesc(t *rapid.T, label string, classes []string, unusual bool) string {
	dims := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 3, 255}).Draw(t, label+"Dims")
	base := rapid.SampledFrom([]string{"B", "C", "D", "F", "I", "J", "S", "Z", "L", "L", "L", "L"}).Draw(t, label+"Base")
	if base == "L" {
		name := ""
		if len(classes) > 0 && rapid.Bool().Draw(t, label+"Known") {
			name = rapid.SampledFrom(classes).Draw(t, label+"Class")
		} else {
			name = GenClassName(t, label+"Name", unusual)
		}
		base = "L" + name + ";"
	}
	return strings.Repeat("[", dims) + base
}

// GenMethodDesc draws a method descriptor.
func GenMethodDesc(t *rapid.T, label string, classes []string, unusual bool) string {
	n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 5, 8}).Draw(t, label+"Args")
	if n == 8 && rapid.IntRange(0, 9).Draw(t, label+"Many") == 9 {
		n = 255
	}
	var sb strings.Builder
	sb.WriteByte('(')
	for i := 0; i < n; i++ {
		sb.WriteString(GenTypeDesc(t, label, classes, unusual))
	}
	sb.WriteByte(')')
	if rapid.Bool().Draw(t, label+"Void") {
		sb.WriteByte('V')
	} else {
		sb.WriteString(GenTypeDesc(t, label, classes, unusual))
	}
	return sb.String()
}

func (b *builder) randomData(t byte, n int) []byte {
	size := TypeSize(t, 8)
	d := make([]byte, n*size)
	for i := 0; i < n; i++ {
		v := b.r.Next()
		if t == TBool {
			v &= 1
		}
		if t == TByte && b.r.Intn(4) == 0 {
			// payload that looks like record tags
			v = uint64([]byte{0x1c, 0x2c, 0x21, 0x22, 0x23, 0x20, 0x01, 0}[b.r.Intn(8)])
		}
		for k := 0; k < size; k++ {
			d[i*size+k] = byte(v >> (8 * (size - 1 - k)))
		}
	}
	return d
}

func (b *builder) arrayLen(label string) int {
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 13}).Draw(b.t, label)
	if !b.o.Small && n == 13 {
		n = rapid.SampledFrom([]int{13, 14, 100, 127, 128, 255, 256, 257, 511, 512, 1023, 4095, 4096, 5000, 8192}).Draw(b.t, label+"Big")
	}
	return n
}

// GenWorld draws a heap.
func GenWorld(t *rapid.T, o Opts) (*World, *Truth) {
	def := func(p *int, normal, small int) {
		if *p == 0 {
			*p = normal
			if o.Small {
				*p = small
			}
		}
	}
	def(&o.MaxThreads, 12, 3)
	def(&o.MaxFrames, 20, 4)
	def(&o.MaxObjs, 60, 8)
	def(&o.MaxProps, 40, 6)
	b := &builder{t: t, o: o, w: &World{}, truth: &Truth{Props: map[string]string{}, Names: map[int64]string{}},
		strs: map[string]uint64{}, texts: map[string]text{}, byName: map[string]*bclass{}, serials: map[uint32]bool{}}
	b.r = NewRng(rapid.Uint64().Draw(t, "filler"))
	b.w.IDSize = o.IDSize
	b.drawBulk()
	if o.IDSize == 0 {
		b.w.IDSize = rapid.SampledFrom([]int{8, 8, 4}).Draw(t, "idSize")
	}
	b.w.Time = rapid.Int64Range(0, 4_000_000_000_000).Draw(t, "time")
	b.core()
	app := b.appClasses()
	b.appObjects(app)
	threads := b.threads(app)
	b.roots(threads)
	if !o.NoSystem {
		b.system()
		b.management()
	}
	b.finish()
	return b.w, b.truth
}

// core declares java.lang.Object and java.lang.String.
func (b *builder) core() {
	obj := b.class("java/lang/Object", nil, nil)
	b.class("java/lang/String", obj, b.noise(fieldDef{"value", TObject}, fieldDef{"hash", TInt},
		fieldDef{"coder", TByte}, fieldDef{"hashIsZero", TBool}),
		Static{b.str("serialVersionUID"), Val{TLong, b.r.Next()}}, Static{b.str("COMPACT_STRINGS"), Val{TBool, 1}})
	b.class("java/lang/Class", obj, b.noise(fieldDef{"name", TObject}))
	for _, t := range PrimTypes {
		if b.r.Intn(3) == 0 {
			b.arrayClass("[" + string(descOf[t]))
		}
	}
	b.arrayClass("[Ljava/lang/Object;")
	b.arrayClass("[Ljava/lang/String;")
}

var descOf = map[byte]byte{TBool: 'Z', TChar: 'C', TFloat: 'F', TDouble: 'D', TByte: 'B', TShort: 'S', TInt: 'I', TLong: 'J'}

// KnownNames are the classes that mean something to the tool.
var KnownNames = []string{"java/lang/System", "java/lang/Thread", "java/lang/String", "java/lang/Class", "java/lang/Object", "java/util/Properties", "java/util/concurrent/ConcurrentHashMap",
	"java/util/concurrent/ConcurrentHashMap$Node", "java/util/concurrent/ConcurrentHashMap$TreeBin", "java/util/concurrent/ConcurrentHashMap$ForwardingNode",
	"java/util/concurrent/ConcurrentHashMap$TreeNode", "sun/management/ManagementFactoryHelper", "sun/management/RuntimeImpl"}

// LikeKnown makes a name that resembles one of a known class.
func LikeKnown(r *Rng) string {
	n := KnownNames[r.Intn(len(KnownNames))]
	last := n[strings.LastIndexByte(n, '/')+1:]
	switch r.Intn(9) {
	case 0:
		return "shaded/" + n
	case 1:
		return n + "2"
	case 2:
		return n + "$1"
	case 3:
		return n + "/Inner"
	case 4:
		return strings.ToLower(n)
	case 5:
		return last
	case 6:
		return "app/" + last
	case 7:
		return strings.ReplaceAll(n, "$", "/") + "s"
	}
	return n[:len(n)-1]
}

func (b *builder) appClasses() []*bclass {
	var out []*bclass
	n := b.n(12, "classes")
	fieldNames := []string{"a", "b", "c", "name", "value", "coder", "next", "id", "x", "A", "Name", "VALUE", "ID"}
	for i := 0; i < n; i++ {
		name := ""
		if len(out) > 0 && b.chance(6, "sameName") {
			name = out[b.r.Intn(len(out))].name // loaded by another loader
		} else {
			name = GenClassName(b.t, "class", b.o.Symbols)
			if b.chance(12, "likeKnown") {
				if name = LikeKnown(b.r); slices.Contains(KnownNames, name) {
					name += "x"
				}
			}
			if b.byName[name] != nil && strings.Contains(name, "/") || slices.Contains(KnownNames, name) {
				name = "app/" + name
			}
		}
		super := b.byName["java/lang/Object"]
		if len(out) > 0 && b.chance(50, "derived") {
			super = out[rapid.IntRange(0, len(out)-1).Draw(b.t, "super")]
		}
		var fs []fieldDef
		used := map[string]bool{}
		nf := b.n(8, "fields")
		if nf == 8 && b.chance(20, "manyFields") {
			nf = rapid.SampledFrom([]int{30, 255, 256, 300}).Draw(b.t, "fieldCount")
		}
		for k := 0; k < nf; k++ {
			f := fmt.Sprintf("f%d", k)
			if k < 6 {
				f = rapid.SampledFrom(fieldNames).Draw(b.t, "field")
			}
			if used[f] {
				continue
			}
			used[f] = true
			fs = append(fs, fieldDef{f, AllTypes[b.r.Intn(len(AllTypes))]})
		}
		c := b.class(name, super, fs)
		k := b.dump(c)
		for j := b.r.Intn(4); j > 0; j-- {
			t := AllTypes[b.r.Intn(len(AllTypes))]
			k.Statics = append(k.Statics, Static{b.str(fieldNames[b.r.Intn(len(fieldNames))]), Val{t, b.bits(t)}})
		}
		for j := b.r.Intn(8) - 4; j > 0; j-- {
			t := AllTypes[b.r.Intn(len(AllTypes))]
			k.Consts = append(k.Consts, Const{uint16(b.r.Next()), Val{t, b.bits(t)}})
		}
		if b.r.Intn(3) == 0 {
			k.Loader, k.Signers, k.Domain = b.anyRef(), b.anyRef(), b.anyRef()
		}
		out = append(out, c)
		if b.chance(30, "arrayOf") {
			array := strings.Repeat("[", rapid.IntRange(1, 3).Draw(b.t, "dims")) + "L" + name + ";"
			b.arrayClass(array)
			if b.r.Intn(4) == 0 {
				// its elements are of a class of another loader
				b.class(array, b.byName["java/lang/Object"], nil)
			}
		}
	}
	for i := b.much("classes"); i > 0; i-- {
		super := b.byName["java/lang/Object"]
		if i%16 != 0 && len(out) > 0 {
			super = out[len(out)-1-b.r.Intn(min(len(out), 3))]
			if b.r.Intn(3) > 0 {
				super = b.byName["java/lang/Object"]
			}
		}
		var fs []fieldDef
		if i%5 == 0 {
			fs = []fieldDef{{"a", TInt}, {"next", TObject}}
		}
		out = append(out, b.class(fmt.Sprintf("bulk/C%d", i), super, fs))
	}
	for i := b.much("hierarchy"); i > 0; i-- {
		super := b.byName["java/lang/Object"]
		if len(out) > 0 && out[len(out)-1].name == fmt.Sprintf("bulk/D%d", i+1) {
			super = out[len(out)-1]
		}
		out = append(out, b.class(fmt.Sprintf("bulk/D%d", i), super, []fieldDef{{[]string{"a", "value", "id"}[i%3], AllTypes[b.r.Intn(len(AllTypes))]}}))
	}
	if len(out) > 1 && b.bulk == "hierarchy" {
		b.inst(out[len(out)-1], nil)
		b.inst(out[len(out)/2], nil)
	}
	for i := b.much("strings"); i > 0; i-- {
		b.str(fmt.Sprintf("bulk%d", i))
	}
	if n := min(b.much("fields"), 65535); n > 0 {
		// a generated class, it has plenty of everything
		var fs []fieldDef
		for i := 0; i < n; i++ {
			fs = append(fs, fieldDef{fmt.Sprintf("g%d", i/len(AllTypes)), AllTypes[i%len(AllTypes)]})
		}
		kind := b.r.Intn(4)
		c := b.class("bulk/Generated", b.byName["java/lang/Object"], nil)
		k := b.dump(c)
		for i, f := range fs {
			switch {
			case kind == 0 || kind == 3 && i%3 == 0:
				k.Fields = append(k.Fields, Field{b.str(f.name), f.t})
				c.fields = append(c.fields, f)
			case kind == 1 || kind == 3 && i%3 == 1:
				k.Statics = append(k.Statics, Static{b.str(f.name), Val{f.t, b.bits(f.t)}})
			default:
				k.Consts = append(k.Consts, Const{uint16(i), Val{f.t, b.bits(f.t)}})
			}
		}
		b.inst(c, nil)
		out = append(out, b.class("bulk/Derived", c, []fieldDef{{"own", TInt}}))
		b.inst(out[len(out)-1], nil)
	}
	if b.chance(20, "primMatrix") {
		b.arrayClass("[[" + string(descOf[PrimTypes[b.r.Intn(len(PrimTypes))]]))
	}
	return out
}

func (b *builder) appObjects(app []*bclass) {
	n := b.n(b.o.MaxObjs, "objects")
	var arrays []*bclass
	for _, c := range b.classes {
		if strings.HasPrefix(c.name, "[L") || strings.HasPrefix(c.name, "[[") {
			arrays = append(arrays, c)
		}
	}
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 4).Draw(b.t, "objKind") {
		case 0, 1:
			cs := app
			if len(cs) == 0 {
				cs = b.classes[:1]
			}
			c := cs[rapid.IntRange(0, len(cs)-1).Draw(b.t, "objClass")]
			for k := rapid.SampledFrom([]int{1, 1, 1, 2, 5}).Draw(b.t, "copies"); k > 0; k-- {
				b.inst(c, nil)
			}
		case 2:
			c := arrays[rapid.IntRange(0, len(arrays)-1).Draw(b.t, "arrClass")]
			el := make([]uint64, b.arrayLen("arrLen"))
			for k := range el {
				el[k] = b.anyRef()
			}
			b.array(c, el)
		case 3:
			tp := rapid.SampledFrom(PrimTypes).Draw(b.t, "primType")
			b.prim(tp, b.randomData(tp, b.arrayLen("primLen")))
		case 4:
			b.text(GenText(b.t, "str", 100))
		}
	}
	if n := b.much("classes"); n > 0 {
		// an object of each class, or of some of them: each is a row of the histogram
		some := 1
		if n > 25000 || b.r.Intn(3) == 0 {
			some = 1 + n/700
		}
		for i, c := range app {
			if i%some == 0 {
				b.inst(c, nil)
			}
		}
	}
	for i := b.much("objects"); i > 0; i-- {
		switch {
		case i%3 == 0 && len(app) > 0:
			b.inst(app[b.r.Intn(len(app))], nil)
		case i%3 == 1:
			b.inst(b.byName["java/lang/Object"], nil)
		default:
			b.prim(TByte, []byte{byte(i)})
		}
	}
	if b.chance(30, "primMirror") {
		b.inst(b.byName["java/lang/Class"], nil)
	}
}

func sortedKeys(m map[int64]string) []int64 {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return ks
}

type bthread struct {
	obj    uint64
	serial uint32
	trace  uint32
	frames int
}

// States are the status words HotSpot records.
var States = []int32{0x0, 0x5, 0x191, 0x1a1, 0xe1, 0x2, 0x401, 0x91, 0xa1, 0xe1, 0x225, 0x405}

func (b *builder) threads(app []*bclass) []bthread {
	w := b.w
	// a dummy trace without frames and thread, as HotSpot makes
	serials := map[uint32]bool{0: true}
	fresh := func() uint32 {
		for {
			s := uint32(len(serials) + b.r.Intn(3))
			if b.r.Intn(10) == 0 {
				s = uint32(b.r.Next())
			}
			if !serials[s] {
				serials[s] = true
				return s
			}
		}
	}
	threadSerial := fresh
	if first := rapid.SampledFrom([]uint32{0, 0, 1, 1, 1, 200, 1 << 16, 1<<32 - 5000, 1<<31 - 3}).Draw(b.t, "firstThread"); first != 0 {
		// threads and traces are numbered on their own, one by one, as in HotSpot
		threadSerial = func() uint32 { first++; return first - 1 }
	}
	if b.chance(70, "dummyTrace") {
		serials[1] = true
		w.Traces = append(w.Traces, Trace{Serial: 1, Thread: 0})
	}
	n := b.n(b.o.MaxThreads, "threads")
	if b.bulk == "depth" || b.bulk == "locals" || b.bulk == "frames" {
		n = max(n, 2)
	}
	obj := b.byName["java/lang/Object"]
	thread := b.class("java/lang/Thread", obj, b.noise(fieldDef{"name", TObject}, fieldDef{"priority", TInt},
		fieldDef{"daemon", TBool}, fieldDef{"tid", TLong}, fieldDef{"threadStatus", TInt}, fieldDef{"eetop", TLong},
		fieldDef{"target", TObject}, fieldDef{"interrupted", TBool}),
		Static{b.str("threadInitNumber"), Val{TInt, 7}}, Static{b.str("name"), Val{TObject, 0}})
	kinds := []*bclass{thread}
	for i := rapid.IntRange(0, 3).Draw(b.t, "threadClasses"); i > 0; i-- {
		var fs []fieldDef
		for _, f := range []string{"name", "tid", "priority", "daemon", "threadStatus", "own"} {
			if b.r.Intn(4) == 0 {
				fs = append(fs, fieldDef{f, AllTypes[b.r.Intn(len(AllTypes))]})
			}
		}
		c := b.class(fmt.Sprintf("app/Thread%d", i), kinds[b.r.Intn(len(kinds))], fs)
		kinds = append(kinds, c)
	}
	var names []string
	for _, c := range b.classes {
		if !strings.HasPrefix(c.name, "[") {
			names = append(names, c.name)
		}
	}
	// frames shared between the threads and frames of nobody
	frameIDs := map[uint64]bool{}
	newFrame := func() uint64 {
		id := uint64(len(frameIDs) + 1)
		switch b.r.Intn(10) {
		case 0, 1:
			id = b.r.Next() & 0xffffffff
		case 2:
			if n := len(w.Frames); n > 0 && w.IDSize == 8 { // alike another one
				id = w.Frames[b.r.Intn(n)].ID + uint64(1+b.r.Intn(3))<<32
			}
		}
		if id == 0 || frameIDs[id] {
			id = 1 << 31
			for frameIDs[id] {
				id++
			}
		}
		frameIDs[id] = true
		f := Frame{ID: id, Method: b.str(b.method()), Sig: b.str(b.desc(names)),
			ClassSerial: b.classes[rapid.IntRange(0, len(b.classes)-1).Draw(b.t, "frameClass")].serial}
		for strings.HasPrefix(b.serialName(f.ClassSerial), "[") { // methods of arrays do not exist
			f.ClassSerial = b.byName["java/lang/Object"].serial
		}
		if !b.chance(12, "noFile") {
			f.File = b.str(b.file())
		}
		f.Line = rapid.SampledFrom([]int32{1, 2, 42, 404, 65535, 65536, math.MaxInt32, -1, -2, -3, -1, -3}).Draw(b.t, "line")
		w.Frames = append(w.Frames, f)
		return id
	}
	var pool []uint64
	for i := b.n(3, "spareFrames"); i > 0; i-- {
		pool = append(pool, newFrame())
	}
	tids := map[int64]bool{}
	var out []bthread
	deep := 0
	if n > 1 {
		deep = b.r.Intn(n - 1)
	}
	for i := 0; i < n; i++ {
		tid := int64(rapid.IntRange(1, 60).Draw(b.t, "tid"))
		if b.chance(10, "wideTid") {
			tid = rapid.Int64().Draw(b.t, "tidAny")
		}
		if known := b.truth.Names; len(known) > 0 && b.chance(8, "alikeTid") {
			tid = sortedKeys(known)[b.r.Intn(len(known))] + int64(1+b.r.Intn(3))<<(8<<b.r.Intn(3))
		}
		for tids[tid] {
			tid++
		}
		tids[tid] = true
		name := b.genText("threadName", 300)
		if known := b.truth.Names; len(known) > 0 && b.chance(15, "sameThreadName") {
			name = known[sortedKeys(known)[b.r.Intn(len(known))]]
		}
		status := rapid.SampledFrom(States).Draw(b.t, "status")
		if b.chance(10, "anyStatus") {
			status = rapid.Int32().Draw(b.t, "statusWord")
			if status&0x437 == 1 { // see known findings: never recorded by HotSpot
				status |= 4
			}
		}
		prio := int32(rapid.IntRange(1, 10).Draw(b.t, "prio"))
		if b.chance(5, "oddPrio") {
			prio = rapid.Int32().Draw(b.t, "prioAny")
		}
		daemon := uint64(b.r.Intn(2))
		c := kinds[b.r.Intn(len(kinds))]
		h := b.inst(c, map[string]uint64{
			"java/lang/Thread.name":         b.text(name),
			"java/lang/Thread.tid":          uint64(tid),
			"java/lang/Thread.priority":     uint64(uint32(prio)),
			"java/lang/Thread.daemon":       daemon,
			"java/lang/Thread.threadStatus": uint64(uint32(status)),
		})
		b.truth.Names[tid] = name
		th := bthread{obj: h, serial: threadSerial(), trace: fresh()}
		nf := b.n(b.o.MaxFrames, "frames")
		if nf == b.o.MaxFrames && !b.o.Small && b.chance(10, "deep") {
			nf = rapid.SampledFrom([]int{100, 255, 256, 257, 300}).Draw(b.t, "depth")
		}
		distinct := false
		if i == deep {
			if k := b.much("depth"); k > 0 {
				nf = k
			}
			if k := b.much("frames"); k > 0 {
				nf, distinct = k, true
			}
		}
		tr := Trace{Serial: th.trace, Thread: th.serial}
		var mine []uint64
		for k := 0; k < nf; k++ {
			switch {
			case distinct && k >= 6:
				// many frames, made of the same names
				id := uint64(1<<40) + uint64(k)
				if w.IDSize == 4 {
					id = 1<<30 + uint64(k)
				}
				for frameIDs[id] {
					id++
				}
				frameIDs[id] = true
				f := w.Frames[b.r.Intn(min(len(w.Frames), 6))]
				f.ID, f.Line = id, int32(k)
				w.Frames = append(w.Frames, f)
				tr.Frames = append(tr.Frames, id)
			case len(mine) > 4 && (nf > 50 || b.r.Intn(4) == 0):
				tr.Frames = append(tr.Frames, mine[b.r.Intn(len(mine))])
			case len(pool) > 0 && b.r.Intn(6) == 0:
				tr.Frames = append(tr.Frames, pool[b.r.Intn(len(pool))])
			default:
				f := newFrame()
				mine = append(mine, f)
				tr.Frames = append(tr.Frames, f)
			}
		}
		th.frames = nf
		w.Traces = append(w.Traces, tr)
		out = append(out, th)
	}
	for i := b.much("threads"); i > 0; i-- {
		tid := int64(i + 60)
		for tids[tid] {
			tid++
		}
		tids[tid] = true
		name := fmt.Sprintf("bulk-%d", i)
		h := b.inst(thread, map[string]uint64{
			"java/lang/Thread.name":         b.text(name),
			"java/lang/Thread.tid":          uint64(tid),
			"java/lang/Thread.priority":     5,
			"java/lang/Thread.threadStatus": uint64(States[b.r.Intn(len(States))]),
		})
		b.truth.Names[tid] = name
		th := bthread{obj: h, serial: threadSerial(), trace: fresh()}
		tr := Trace{Serial: th.trace, Thread: th.serial}
		for k := b.r.Intn(3); k > 0 && len(w.Frames) > 0; k-- {
			tr.Frames = append(tr.Frames, w.Frames[b.r.Intn(len(w.Frames))].ID)
			th.frames++
		}
		w.Traces = append(w.Traces, tr)
		out = append(out, th)
	}
	// traces that belong to no listed thread
	for i := b.n(2, "spareTraces"); i > 0; i-- {
		tr := Trace{Serial: fresh(), Thread: fresh()}
		for slices.ContainsFunc(out, func(th bthread) bool { return th.serial == tr.Thread }) {
			tr.Thread = uint32(b.r.Next())
		}
		if b.r.Intn(3) == 0 {
			tr.Thread = 0
		}
		tr.Frames = append(tr.Frames, pool...)
		w.Traces = append(w.Traces, tr)
	}
	return out
}

func (b *builder) serialName(s uint32) string {
	for _, c := range b.classes {
		if c.serial == s {
			return c.name
		}
	}
	return ""
}

func (b *builder) method() string {
	return rapid.OneOf(rapid.SampledFrom([]string{"<init>", "<clinit>", "run", "main", "lambda$main$0", "access$000", "wait"}),
		rapid.Custom(func(t *rapid.T) string { return GenSym(t, "method", b.o.Symbols) })).Draw(b.t, "methodName")
}

func (b *builder) file() string {
	if b.chance(25, "emptyFile") { // obfuscators leave it so
		return ""
	}
	if b.o.Symbols && b.chance(20, "oddFile") {
		if s := GenText(b.t, "file", 40); s != "" {
			return s
		}
	}
	return rapid.SampledFrom([]string{"Main.java", "Thread.java", "A.java", "Script1.groovy", "x.kt"}).Draw(b.t, "fileName")
}

func (b *builder) desc(names []string) string {
	if len(b.descs) > 3 && b.r.Intn(2) == 0 {
		return b.descs[b.r.Intn(len(b.descs))]
	}
	d := GenMethodDesc(b.t, "desc", names, b.o.Symbols)
	b.descs = append(b.descs, d)
	return d
}

func (b *builder) roots(threads []bthread) {
	w := b.w
	for _, th := range threads {
		w.Roots = append(w.Roots, Root{RootThread, th.obj, uint64(th.serial), uint64(th.trace)})
	}
	local := func() uint64 {
		for {
			if b.r.Intn(4) == 0 {
				return b.mirrors[b.r.Intn(len(b.mirrors))]
			}
			if len(b.objs) > 0 {
				return b.objs[b.r.Intn(len(b.objs))]
			}
			return b.mirrors[0]
		}
	}
	given := false
	for i, th := range threads {
		if b.bulk == "threads" && i >= 30 && i%7 > 0 {
			continue
		}
		n := b.n(10, "locals")
		if n == 0 && b.o.ForceLocals {
			n = 2
		}
		if th.frames > 100 {
			n = max(n, 8)
		}
		if k := b.much("locals"); k > 0 && !given {
			n, given = k, true
		}
		for k := 0; k < n; k++ {
			kind := byte(RootJavaFrame)
			if b.r.Intn(3) == 0 {
				kind = RootJNILocal
			}
			var pos uint64
			switch {
			case th.frames == 0 || b.r.Intn(12) == 0:
				pos = []uint64{0xffffffff, uint64(th.frames), 1 << 20}[b.r.Intn(3)]
			case th.frames > 100 && b.r.Intn(2) == 0:
				// around powers of two
				pos = uint64(1<<(4+b.r.Intn(13)) + b.r.Intn(5) - 2)
			case b.r.Intn(3) == 0:
				pos = uint64(th.frames - 1)
			default:
				pos = uint64(b.r.Intn(th.frames))
			}
			w.Roots = append(w.Roots, Root{kind, local(), uint64(th.serial), pos})
		}
	}
	if b.chance(10, "strayLocals") {
		// locals of a thread that is not listed
		w.Roots = append(w.Roots, Root{RootJavaFrame, local(), 0xfffffff0, 0})
	}
	other := []byte{RootJNIGlobal, RootSticky}
	if !b.o.PlainRoots {
		other = append(other, RootUnknown, RootNativeStack, RootThreadBlock, RootMonitor)
	}
	for k := b.n(20, "otherRoots"); k > 0; k-- {
		kind := other[b.r.Intn(len(other))]
		r := Root{Kind: kind, Obj: local()}
		switch kind {
		case RootJNIGlobal:
			r.A = b.r.Next() >> 16
			if b.w.IDSize == 4 {
				r.A &= 0xffffffff
			}
		case RootNativeStack, RootThreadBlock:
			r.A = uint64(uint32(b.r.Next()))
		}
		w.Roots = append(w.Roots, r)
	}
	for k := b.much("roots"); k > 0; k-- {
		w.Roots = append(w.Roots, Root{Kind: other[1], Obj: local()})
	}
	if b.chance(50, "mixRoots") {
		b.r.Shuffle(len(w.Roots), func(i, j int) { w.Roots[i], w.Roots[j] = w.Roots[j], w.Roots[i] })
	}
}

// PropKeys are the properties of the Environment section.
var PropKeys = []string{"os.name", "os.arch", "java.home", "java.version", "java.vm.name", "java.vm.version", "java.vm.info", "java.vm.vendor"}

func (b *builder) system() {
	const pkg = "java/util/concurrent/ConcurrentHashMap"
	obj := b.byName["java/lang/Object"]
	amap := b.class("java/util/AbstractMap", obj, b.shuffled(fieldDef{"keySet", TObject}, fieldDef{"values", TObject}))
	chm := b.class(pkg, amap, b.noise(fieldDef{"table", TObject}, fieldDef{"nextTable", TObject}, fieldDef{"baseCount", TLong},
		fieldDef{"sizeCtl", TInt}, fieldDef{"keySet", TObject}))
	node := b.class(pkg+"$Node", obj, b.noise(fieldDef{"hash", TInt}, fieldDef{"key", TObject}, fieldDef{"val", TObject}, fieldDef{"next", TObject}))
	treeNode := b.class(pkg+"$TreeNode", node, b.shuffled(fieldDef{"parent", TObject}, fieldDef{"left", TObject},
		fieldDef{"right", TObject}, fieldDef{"prev", TObject}, fieldDef{"red", TBool}))
	treeBin := b.class(pkg+"$TreeBin", node, b.noise(fieldDef{"root", TObject}, fieldDef{"first", TObject}, fieldDef{"waiter", TObject}, fieldDef{"lockState", TInt}))
	fwd := b.class(pkg+"$ForwardingNode", node, b.noise(fieldDef{"nextTable", TObject}))
	reserve := b.class(pkg+"$ReservationNode", node, nil)
	tableClass := b.arrayClass("[L" + pkg + "$Node;")
	dict := b.class("java/util/Dictionary", obj, nil)
	hashtable := b.class("java/util/Hashtable", dict, b.noise(fieldDef{"table", TObject}, fieldDef{"count", TInt}, fieldDef{"keySet", TObject}))
	props := b.class("java/util/Properties", hashtable, b.noise(fieldDef{"defaults", TObject}, fieldDef{"map", TObject}))
	integer := b.class("java/lang/Integer", obj, []fieldDef{{"value", TInt}})

	// entries
	type entry struct{ k, v uint64 }
	var entries []entry
	for _, k := range PropKeys {
		if b.chance(85, "env") {
			b.truth.Props[k] = b.genText("env", 60)
		}
	}
	var given []string
	for i := b.n(b.o.MaxProps, "props"); i > 0; i-- {
		k := b.genText("key", 40)
		if k == "" {
			k = "empty"
		}
		if len(given) > 0 && b.chance(15, "alike") {
			// a key that differs from another one in little
			k = alike(given[b.r.Intn(len(given))], b.r)
		}
		given = append(given, k)
		if _, ok := b.truth.Props[k]; !ok {
			b.truth.Props[k] = b.genText("val", 70000)
		}
	}
	for i := b.much("props"); i > 0; i-- {
		b.truth.Props[fmt.Sprintf("bulk.%d", i)] = fmt.Sprint(b.r.Intn(1000))
	}
	var keys []string
	for k := range b.truth.Props {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := b.truth.Props[k]
		entries = append(entries, entry{b.text(k), b.text(v)})
	}
	for i := 0; i < 2 && b.chance(10, "oddEntry"); i++ {
		e := entry{b.text(fmt.Sprintf("odd%d", i)), b.inst(integer, nil)}
		switch b.r.Intn(4) {
		case 0:
			e.k = b.inst(integer, nil)
		case 1:
			e.v = b.prim(TByte, []byte("text"))
		case 2:
			e.v = b.array(b.byName["[Ljava/lang/String;"], []uint64{b.text("x")})
		}
		entries = append(entries, e)
	}
	b.r.Shuffle(len(entries), func(i, j int) { entries[i], entries[j] = entries[j], entries[i] })

	newNode := func(c *bclass, e entry, next uint64) uint64 {
		return b.inst(c, map[string]uint64{pkg + "$Node.key": e.k, pkg + "$Node.val": e.v, pkg + "$Node.next": next, pkg + "$Node.hash": b.r.Next() & 0x7fffffff})
	}
	bin := func(es []entry, tree bool) uint64 {
		if len(es) == 0 {
			return 0
		}
		c := node
		if tree {
			c = treeNode
		}
		var head uint64
		var all []uint64
		for i := len(es) - 1; i >= 0; i-- {
			head = newNode(c, es[i], head)
			all = append(all, head)
		}
		if !tree {
			return head
		}
		return b.inst(treeBin, map[string]uint64{pkg + "$Node.key": 0, pkg + "$Node.val": 0, pkg + "$Node.next": 0, pkg + "$Node.hash": 0xfffffffe,
			pkg + "$TreeBin.root": all[b.r.Intn(len(all))], pkg + "$TreeBin.first": head})
	}
	fill := func(size int, es []entry, moved uint64, movedPct int) ([]uint64, []entry) {
		bins := make([][]entry, size)
		var rest []entry
		isMoved := make([]bool, size)
		for i := range isMoved {
			isMoved[i] = moved != 0 && b.r.Intn(100) < movedPct
		}
		for _, e := range es {
			i := b.r.Intn(size)
			if isMoved[i] {
				rest = append(rest, e)
			} else {
				bins[i] = append(bins[i], e)
			}
		}
		out := make([]uint64, size)
		for i := range out {
			switch {
			case isMoved[i]:
				out[i] = moved
			case len(bins[i]) == 0 && b.r.Intn(40) == 0:
				out[i] = b.inst(reserve, map[string]uint64{pkg + "$Node.key": 0, pkg + "$Node.val": 0, pkg + "$Node.next": 0, pkg + "$Node.hash": 0xfffffffd})
			default:
				out[i] = bin(bins[i], len(bins[i]) > 2 && b.r.Intn(4) == 0)
			}
		}
		return out, rest
	}
	size := 1 << rapid.IntRange(0, 7).Draw(b.t, "table")
	if !b.o.Small && b.chance(12, "wideTable") {
		size = 1 << rapid.IntRange(8, 13).Draw(b.t, "tableBig")
	}
	if k := b.much("table"); k > 0 {
		size = k
	}
	var table, nextTable uint64
	if len(entries) > 0 || b.chance(50, "allocated") {
		if b.chance(8, "resizing") {
			// the forwarding node is shared by all the moved bins
			f := b.handle()
			el, rest := fill(size, entries, f, 50)
			el2, _ := fill(2*size, rest, 0, 0)
			nextTable = b.array(tableClass, el2)
			saved := b.next
			b.next = f - 1
			b.inst(fwd, map[string]uint64{pkg + "$Node.key": 0, pkg + "$Node.val": 0, pkg + "$Node.next": 0, pkg + "$Node.hash": 0xffffffff,
				pkg + "$ForwardingNode.nextTable": nextTable})
			b.next = saved
			table = b.array(tableClass, el)
		} else {
			el, _ := fill(size, entries, 0, 0)
			table = b.array(tableClass, el)
		}
	}
	m := b.inst(chm, map[string]uint64{pkg + ".table": table, pkg + ".nextTable": nextTable})
	pc := props
	if b.chance(10, "propsSubclass") {
		pc = b.class("app/MyProperties", props, b.noise(fieldDef{"map", TObject}))
	}
	p := b.inst(pc, map[string]uint64{"java/util/Properties.map": m, "java/util/Hashtable.table": 0})
	statics := []Static{{b.str("in"), Val{TObject, b.anyRef()}}, {b.str("out"), Val{TObject, b.anyRef()}},
		{b.str("lineSeparator"), Val{TObject, b.anyRef()}}, {b.str("allowSecurityManager"), Val{TInt, 1}}, {b.str("props"), Val{TObject, p}}}
	b.r.Shuffle(len(statics), func(i, j int) { statics[i], statics[j] = statics[j], statics[i] })
	b.class("java/lang/System", obj, nil, statics...)
}

func (b *builder) management() {
	kind := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(b.t, "management")
	if kind == 1 {
		return // not loaded
	}
	var id uint64
	obj := b.byName["java/lang/Object"]
	impl := b.class("sun/management/RuntimeImpl", obj, b.noise(fieldDef{"jvm", TObject}, fieldDef{"vmStartupTime", TLong}))
	if kind == 0 {
		// from moments to decades of uptime
		up := rapid.OneOf(rapid.Int64Range(0, 5000), rapid.Int64Range(0, 4_000_000), rapid.Int64Range(-100_000, 1_000_000_000_000),
			rapid.Int64Range(80*86_400_000, 200*86_400_000)).Draw(b.t, "uptime")
		b.truth.HasStart, b.truth.Start = true, b.w.Time-up
		id = b.inst(impl, map[string]uint64{"sun/management/RuntimeImpl.vmStartupTime": uint64(b.truth.Start)})
	}
	statics := []Static{{b.str("jvm"), Val{TObject, b.anyRef()}}, {b.str("runtimeMBean"), Val{TObject, id}}, {b.str("flag"), Val{TBool, 1}}}
	b.r.Shuffle(len(statics), func(i, j int) { statics[i], statics[j] = statics[j], statics[i] })
	c := b.class("sun/management/ManagementFactoryHelper", obj, nil, statics...)
	if kind == 3 {
		// loaded but not linked: HotSpot does not dump such classes
		for i := range b.w.Classes {
			if b.w.Classes[i].ID == c.h {
				b.w.Classes = append(b.w.Classes[:i:i], b.w.Classes[i+1:]...)
				break
			}
		}
	}
}

// finish replaces handles with identifiers.
func (b *builder) finish() {
	w := b.w
	n := int(b.next)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	if rapid.Bool().Draw(b.t, "mixAddresses") {
		b.r.Shuffle(n, func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	}
	ids := GenIDs(b.t, b.r, n, w.IDSize, "base")
	at := make([]uint64, n+1)
	for i, h := range perm {
		at[h+1] = ids[i]
	}
	w.Renumber(func(h uint64) uint64 { return at[h] })
	// strings are somewhere else
	sids := GenIDs(b.t, b.r, len(w.Strs)+1, w.IDSize, "symBase")
	b.r.Shuffle(len(sids), func(i, j int) { sids[i], sids[j] = sids[j], sids[i] })
	sid := func(id uint64) uint64 {
		if id == 0 {
			return 0
		}
		return sids[id]
	}
	w.RenumberStrs(sid)
	b.r.Shuffle(len(w.Loads), func(i, j int) { w.Loads[i], w.Loads[j] = w.Loads[j], w.Loads[i] })
	b.r.Shuffle(len(w.Classes), func(i, j int) { w.Classes[i], w.Classes[j] = w.Classes[j], w.Classes[i] })
}

// RenumberStrs replaces identifiers of strings.
func (w *World) RenumberStrs(f func(uint64) uint64) {
	for i := range w.Strs {
		w.Strs[i].ID = f(w.Strs[i].ID)
	}
	for i := range w.Loads {
		w.Loads[i].Name = f(w.Loads[i].Name)
	}
	for i := range w.Frames {
		x := &w.Frames[i]
		x.Method, x.Sig, x.File = f(x.Method), f(x.Sig), f(x.File)
	}
	for i := range w.Classes {
		c := &w.Classes[i]
		for j := range c.Statics {
			c.Statics[j].Name = f(c.Statics[j].Name)
		}
		for j := range c.Fields {
			c.Fields[j].Name = f(c.Fields[j].Name)
		}
	}
}

// GenIDs draws n increasing non-zero identifiers.
func GenIDs(t *rapid.T, r *Rng, n, idSize int, label string) []uint64 {
	limit := uint64(math.MaxUint32)
	if idSize == 8 {
		limit = math.MaxUint64
	}
	base := rapid.SampledFrom([]uint64{1, 0xe0000000, 0x7ffffff0, 0x80000000, 0x1000, 0x7f0000000000, 0xfffffffffff00000, 0x7ffffffffffffff0, 0x100000000 - 64}).Draw(t, label)
	mode := rapid.IntRange(0, 3).Draw(t, label+"Gap") // 0: neighbours, 1: 8-aligned, 2: anything, 3: alike
	ids := make([]uint64, n)
	span := uint64(0)
	if mode == 3 && n > 1 {
		// several groups of identifiers having the same low bits
		shift := rapid.SampledFrom([]int{32, 32, 32, 32, 16, 24, 31, 33, 40, 48}).Draw(t, label+"Shift")
		groups := rapid.SampledFrom([]int{n, n, 2, 3, (n + 1) / 2}).Draw(t, label+"Groups")
		per := (n + groups - 1) / groups
		offsets := make([]uint64, per)
		for i := 1; i < per; i++ {
			offsets[i] = offsets[i-1] + 8*uint64(1+r.Intn(4))
		}
		last := uint64((n - 1) / per)
		if offsets[per-1]>>shift == 0 && last+1 < limit>>shift {
			for i := range ids {
				ids[i] = uint64(i/per)<<shift + offsets[i%per]
			}
			if base %= limit; base >= limit-ids[n-1] {
				base = limit - ids[n-1] - 1
			}
			for i := range ids {
				ids[i] += max(base, 1)
			}
			return ids
		}
		mode = 1
	}
	for i := range ids {
		switch {
		case mode == 0:
			span++
		case mode == 1 || r.Intn(3) > 0:
			span += 8 * uint64(1+r.Intn(64))
		default:
			span += 1 + r.Next()%min(1<<20, limit/2/uint64(n))
		}
		ids[i] = span
	}
	base %= limit
	if base == 0 {
		base = 1
	}
	if span >= limit-base {
		base = limit - span - 1
	}
	for i := range ids {
		ids[i] += base
	}
	return ids
}

// GenLayout draws a layout.
func GenLayout(t *rapid.T) Layout {
	return Layout{
		Seed:   rapid.Uint64().Draw(t, "layoutSeed"),
		Mix:    rapid.IntRange(0, 3).Draw(t, "layoutMix"),
		Seg:    rapid.SampledFrom([]int{0, 1, 2, 5, 30}).Draw(t, "layoutSeg"),
		Zero:   rapid.IntRange(0, 2).Draw(t, "layoutZero"),
		Empty:  rapid.IntRange(0, 2).Draw(t, "layoutEmpty"),
		TsNote: rapid.SampledFrom([]uint32{0, 0, 1, 0xffffffff}).Draw(t, "layoutTs"),
	}
}

// CheckTruth compares what was meant with what the oracle finds. A difference
// is a mistake in this package.
func (w *World) CheckTruth(tr *Truth, system bool) error {
	s := w.Index()
	if system {
		got := s.Properties()
		if len(got) != len(tr.Props) {
			return fmt.Errorf("properties: %q, meant %q", got, tr.Props)
		}
		for k, v := range tr.Props {
			if got[k] != v {
				return fmt.Errorf("property %q: %q, meant %q", k, got[k], v)
			}
		}
		st, ok := s.StartTime()
		if ok != tr.HasStart || ok && st != tr.Start {
			return fmt.Errorf("start time %v %v, meant %v %v", ok, st, tr.HasStart, tr.Start)
		}
	}
	for _, th := range w.Threads() {
		if !strings.HasPrefix(th.Line, fmt.Sprintf("\"%s\", ID=%d,", tr.Names[th.ID], th.ID)) {
			return fmt.Errorf("thread %q, meant %q", th.Line, tr.Names[th.ID])
		}
	}
	return nil
}
