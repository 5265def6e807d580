package cli

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

// JVM is a dump written by a real JVM (see fixtures/src), as it is or encoded
// anew in another layout, with other identifiers.
type JVM struct {
	File string       `json:"file"`
	Anew bool         `json:"anew,omitempty"`
	IDs  int          `json:"ids,omitempty"` // 4 or 8: identifiers are numbered anew
	Base uint64       `json:"base,omitempty"`
	Step uint64       `json:"step,omitempty"`
	L    model.Layout `json:"l"`
	C    Cmd          `json:"c"`
}

type fixture struct {
	raw []byte
	w   *model.World
	e   *Expected
	ids []uint64
}

var (
	fixtures   = map[string]*fixture{}
	fixturesMu sync.Mutex
)

func gunzip(name string) []byte {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_FIXTURES"), name+".gz"))
	prop.Must(err)
	z, err := gzip.NewReader(bytes.NewReader(b))
	prop.Must(err)
	b, err = io.ReadAll(z)
	prop.Must(err)
	return b
}

func loadFixture(name string) *fixture {
	fixturesMu.Lock()
	defer fixturesMu.Unlock()
	if f := fixtures[name]; f != nil {
		return f
	}
	f := &fixture{raw: gunzip(name + ".hprof")}
	var err error
	f.w, err = model.Decode(f.raw)
	prop.Must(err)
	f.e = Expect(f.w)
	seen := map[uint64]bool{0: true}
	f.w.Clone().Renumber(func(id uint64) uint64 {
		if !seen[id] {
			seen[id] = true
			f.ids = append(f.ids, id)
		}
		return id
	})
	sort.Slice(f.ids, func(i, j int) bool { return f.ids[i] < f.ids[j] })
	fixtures[name] = f
	return f
}

// file is the content of the dump and what is expected of it.
func (x JVM) file() ([]byte, *model.World, *Expected) {
	f := loadFixture(x.File)
	if !x.Anew && x.IDs == 0 {
		return f.raw, f.w, f.e
	}
	if x.IDs == 0 {
		return f.w.Encode(x.L), f.w, f.e
	}
	w := f.w.Clone()
	w.IDSize = x.IDs
	rank := make(map[uint64]uint64, len(f.ids))
	for i, id := range f.ids {
		rank[id] = x.Base + uint64(i+1)*x.Step
	}
	w.Renumber(func(id uint64) uint64 { return rank[id] })
	strs := map[uint64]uint64{}
	w.RenumberStrs(func(id uint64) uint64 {
		if id == 0 {
			return 0
		}
		if strs[id] == 0 {
			strs[id] = x.Base + uint64(len(strs)+1)*8
		}
		return strs[id]
	})
	for i := range w.Frames {
		w.Frames[i].ID = uint64(uint32(w.Frames[i].ID))
	}
	for i := range w.Traces {
		for j := range w.Traces[i].Frames {
			w.Traces[i].Frames[j] = uint64(uint32(w.Traces[i].Frames[j]))
		}
	}
	return w.Encode(x.L), w, Expect(w)
}

// jvmSays is what the JVM that wrote the dump said about itself.
func jvmSays(name string) (lines [][]string) {
	if name == "jcmd" {
		return nil
	}
	for _, l := range strings.Split(strings.TrimSpace(string(gunzip(name+".truth"))), "\n") {
		lines = append(lines, strings.Split(l, "\t"))
	}
	return lines
}

// asTheJVMSays compares the reference model with the JVM.
func asTheJVMSays(name string, w *model.World) error {
	threads := map[string]model.ThreadText{}
	for _, t := range w.Threads() {
		threads[fmt.Sprint(t.ID)] = t
	}
	frames := map[string][]string{}
	s := w.Summary()
	props := map[string]string{}
	for _, kv := range s.Properties {
		props[kv.K] = kv.V
	}
	n := 0
	for _, l := range jvmSays(name) {
		switch l[0] {
		case "thread":
			t, ok := threads[l[1]]
			line := fmt.Sprintf("\"%s\", ID=%s, prio=%s, status=%s", l[5], l[1], l[2], l[4])
			if l[3] == "true" {
				line += " (daemon)"
			}
			if !ok || t.Line != line {
				return fmt.Errorf("thread %s, the JVM says %s", t.Line, line)
			}
		case "frame":
			if strings.Contains(l[2], "$$Lambda") {
				continue
			}
			loc := l[4]
			switch l[5] {
			case "-2":
				loc += ":NativeMethod"
			default:
				loc += ":" + l[5]
			}
			frames[l[1]] = append(frames[l[1]], l[2]+"."+l[3]+"( "+loc)
		case "prop":
			if v, ok := props[l[1]]; !ok || strings.ReplaceAll(v, "\n", "\\n") != l[2] {
				return fmt.Errorf("property %s=%s, the JVM says %s", l[1], v, l[2])
			}
			n++
		case "start":
			if got := fmt.Sprint(w.Time - s.Uptime.Milliseconds()); got != l[1] {
				return fmt.Errorf("started at %s, the JVM says %s", got, l[1])
			}
		}
	}
	if len(jvmSays(name)) > 0 && n != len(props) {
		return fmt.Errorf("%d properties, the JVM says %d", len(props), n)
	}
	for id, fs := range frames {
		var got []string
		for _, f := range threads[id].Frames {
			i, j, k := strings.Index(f.Line, " "), strings.Index(f.Line, "("), strings.LastIndex(f.Line, " ")
			if strings.Contains(f.Line[i:j], "$$Lambda") {
				continue // named in another way
			}
			got = append(got, f.Line[i+1:j]+"( "+f.Line[k+1:])
		}
		// the busy thread goes on
		if strings.Contains(threads[id].Line, `"spin"`) {
			for len(fs) > 0 && !strings.HasPrefix(fs[0], "Rich$Worker") {
				fs = fs[1:]
			}
			for len(got) > 0 && !strings.HasPrefix(got[0], "Rich$Worker") {
				got = got[1:]
			}
		}
		if strings.Join(fs, "\n") != strings.Join(got, "\n") {
			return fmt.Errorf("frames of thread %s:\n%s\nthe JVM says:\n%s", id, strings.Join(got, "\n"), strings.Join(fs, "\n"))
		}
	}
	return nil
}

var agreed sync.Map

func init() {
	gen := func(names ...string) func(t *rapid.T) JVM {
		return func(t *rapid.T) JVM {
			x := JVM{File: rapid.SampledFrom([]string{"serial", "g1", "jcmd"}).Draw(t, "fixture"), C: genCmd(t, names...)}
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
			case 1:
				x.Anew = true
				x.L = model.GenLayout(t)
			default:
				x.IDs = rapid.SampledFrom([]int{4, 8}).Draw(t, "ids")
				x.L = model.GenLayout(t)
				x.Step = uint64(rapid.SampledFrom([]int{1, 8, 3, 4096}).Draw(t, "step"))
				x.Base = uint64(rapid.IntRange(0, 1<<31).Draw(t, "base"))
			}
			return x
		}
	}
	check := func(c *prop.Ctx, x JVM) error {
		return Guard(func() error {
			if _, ok := agreed.LoadOrStore(x.File, true); !ok {
				if err := asTheJVMSays(x.File, loadFixture(x.File).w); err != nil {
					prop.Broken("the reference model disagrees with the JVM: %v", err)
				}
			}
			b, w, e := x.file()
			d := c.Dir()
			Write(d, "h.hprof", b)
			c.Executions(1)
			c.Nontrivial(true)
			c.Class("%s", x.File)
			c.ClassIf(x.IDs == 4, "4-byte ids")
			c.Class("anew %v", x.Anew || x.IDs != 0)
			c.Sample("dump of JVM %s, %d bytes, %d objects, anew %v, identifiers %d from %d by %d, layout %+v; %v", x.File, len(b), len(w.Objs), x.Anew, x.IDs, x.Base, x.Step, x.L, x.C)
			return e.Check(x.C, Run(d, x.C.Args("h.hprof")...))
		})
	}
	for _, p := range []struct{ id, names string }{
		{"C01", "threads"}, {"C02", ""}, {"C03", "objects"}, {"C04", "objects"}, {"C05", "threads"}, {"C06", "threads"}, {"C07", "threads"},
		{"C09", "summary"}, {"C10", "summary"}, {"C11", "summary"}, {"C13", ""}, {"C14", ""},
	} {
		prop.Add(p.id, "jvm", 40, 1000, gen(strings.Fields(p.names)...), check)
	}
}
