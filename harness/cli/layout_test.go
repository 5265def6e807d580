package cli

import (
	"encoding/base64"
	"encoding/xml"
	"fmt"
	"io"
	"regexp"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

func init() {
	prop.Add("C35", "columns", 2600, 40000, func(t *rapid.T) Forms {
		w := genWorld(t, model.Opts{Symbols: true, MaxProps: 20, Bulk: 1, BulkKind: "classes,props"})
		if rapid.IntRange(0, 7).Draw(t, "long") == 0 && len(w.Loads) < 200 {
			lengthen(w, t)
		} else {
			hostile(w, t)
		}
		return Forms{w, model.GenLayout(t), genCmd(t, "objects", "summary")}
	}, func(c *prop.Ctx, x Forms) error {
		return Guard(func() error {
			d := c.Dir()
			Write(d, "h.hprof", x.W.Encode(x.L))
			cmd := x.C
			cmd.HTML, cmd.Progress = false, false
			r := Run(d, cmd.Args("h.hprof")...)
			c.Executions(1)
			e := Expect(x.W)
			if err := e.Check(cmd, r); err != nil {
				return err
			}
			out := r.Out
			if cmd.Color {
				out = model.StripColors(out)
			}
			c.Class("%s, colors %v", cmd.Name, cmd.Color)
			c.Sample("%s; %v; %.300q", describe(x.W, x.L), cmd, out)
			if cmd.Name == "summary" {
				return sameStart(c, out, e.Summary, cmd.AllProps)
			}
			return sameWidth(c, out)
		})
	})

	prop.Add("C36", "document", 2000, 30000, func(t *rapid.T) Forms {
		w := genWorld(t, model.Opts{Symbols: true, MaxProps: 20, Bulk: 2, BulkKind: "classes,classes,props,frames,threads,locals", AnyText: rapid.Bool().Draw(t, "anyText")})
		hostile(w, t)
		if r := model.NewRng(rapid.Uint64().Draw(t, "garble")); r.Intn(3) == 0 {
			garble(w, r)
		}
		x := Forms{w, model.GenLayout(t), genCmd(t)}
		x.C.HTML = true
		return x
	}, func(c *prop.Ctx, x Forms) error {
		return Guard(func() error {
			d := c.Dir()
			Write(d, "h.hprof", x.W.Encode(x.L))
			r := Run(d, x.C.Args("h.hprof")...)
			c.Executions(1)
			if err := ok(r); err != nil {
				return err
			}
			c.Nontrivial(len(r.Out) > 3000)
			c.Class("%s", x.C.Name)
			c.ClassIf(!isASCII(r.Out), "characters beyond ASCII")
			c.ClassIf(garbled(x.W), "names which are not texts")
			c.Sample("%s; %v; %.200q", describe(x.W, x.L), x.C, r.Out)
			if err := document(r.Out); err != nil {
				return fmt.Errorf("%v: %w", x.C, err)
			}
			return nil
		})
	})
}

// garble puts bytes which are no text into the names used by what the reports
// list: classes of the application, methods, source files.
func garble(w *model.World, r *model.Rng) {
	used := map[uint64]bool{}
	for _, f := range w.Frames {
		used[f.Method], used[f.File] = true, true
	}
	for _, l := range w.Loads {
		used[l.Name] = true
	}
	for _, c := range w.Classes {
		for _, f := range c.Fields {
			used[f.Name] = false
		}
		for _, f := range c.Statics {
			used[f.Name] = false
		}
	}
	for i := range w.Strs {
		s := &w.Strs[i]
		if used[s.ID] && isApp(s.S) && r.Intn(2) == 0 {
			k := r.Intn(len(s.S) + 1)
			s.S = s.S[:k] + []string{"\xff", "\xed\xa0\xbd", "\xed\xb8\x80", "\xc0", "\xe2\x82", "\xf0\x9f", "\x80", "\xc1\xbf", "\xf8\x88\x80\x80\x80"}[r.Intn(9)] + s.S[k:]
		}
	}
}

func garbled(w *model.World) bool {
	for _, s := range w.Strs {
		if !utf8.ValidString(s.S) {
			return true
		}
	}
	return false
}

// lengthen gives long names to some classes.
func lengthen(w *model.World, t *rapid.T) {
	r := model.NewRng(rapid.Uint64().Draw(t, "lengthen"))
	ix := w.Index()
	used := map[uint64]bool{}
	for _, u := range w.Strs {
		used[u.ID] = true
	}
	for k := range w.Loads {
		if n := ix.Str[w.Loads[k].Name]; isApp(n) && r.Intn(3) == 0 {
			size := []int{50, 100, 127, 128, 200, 255, 256, 300, 511, 1000, 4096, 65535}[r.Intn(12)]
			pad := []string{"x", "é", "漢", "Ж/", "$"}[r.Intn(5)]
			s := n + strings.Repeat(pad, 1+max(0, size-len(n)-len(pad))/len(pad))
			id := uint64(1)
			for used[id] {
				id++
			}
			used[id] = true
			w.Strs = append(w.Strs, model.Str{ID: id, S: s})
			w.Loads[k].Name = id
		}
	}
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// sameWidth checks that the table of objects has straight edges.
func sameWidth(c *prop.Ctx, out string) error {
	ls := strings.Split(strings.TrimRight(out, "\n"), "\n")
	first := -1
	for i, l := range ls {
		if strings.HasPrefix(l, "Class Name ") {
			first = i
			break
		}
	}
	if first < 0 || first+1 >= len(ls) {
		return fmt.Errorf("no table in the report %.300q", out)
	}
	// places of the separators, the last three of the header
	at := func(l string) []int {
		var res []int
		for i, ch := range []rune(l) {
			if ch == '|' {
				res = append(res, i)
			}
		}
		return res[max(0, len(res)-3):]
	}
	head := at(ls[first])
	width := utf8.RuneCountInString(ls[first])
	if len(head) != 3 {
		return fmt.Errorf("unexpected header %q", ls[first])
	}
	if rule := ls[first+1]; strings.Trim(rule, "-") != "" || len(rule) != width {
		return fmt.Errorf("the rule of %d characters, the header has %d", utf8.RuneCountInString(rule), width)
	}
	for _, l := range ls[first+2:] {
		if got := at(l); fmt.Sprint(got) != fmt.Sprint(head) || utf8.RuneCountInString(l) != width {
			return fmt.Errorf("columns of row %q end at %v of %d, those of the header at %v of %d", l, got, utf8.RuneCountInString(l), head, width)
		}
		if !isASCII(l) {
			c.Class("row beyond ASCII")
		}
	}
	c.Nontrivial(len(ls)-first > 3)
	return nil
}

// sameStart checks that all values of the summary start in one column.
func sameStart(c *prop.Ctx, out string, s model.Summary, all bool) error {
	ls := strings.Split(out, "\n")
	column, from, i, n := -1, "", 0, 0
	for _, sec := range s.Sections(all) {
		for _, kv := range sec.KVs {
			for i < len(ls) && !strings.HasPrefix(ls[i], kv.K+":") {
				i++
			}
			if i == len(ls) {
				return fmt.Errorf("no line of %q", kv.K)
			}
			v := ls[i][len(kv.K)+1:]
			i++
			if strings.TrimSpace(v) == "" {
				continue
			}
			at := utf8.RuneCountInString(kv.K) + 1 + len(v) - len(strings.TrimLeft(v, " "))
			if column >= 0 && at != column {
				return fmt.Errorf("the value of %q starts in column %d, that of %q in %d", kv.K, at, from, column)
			}
			if at == utf8.RuneCountInString(kv.K)+1 {
				return fmt.Errorf("no space before the value of %q", kv.K)
			}
			column, from = at, kv.K
			n++
			if !isASCII(kv.K) {
				c.Class("key beyond ASCII")
			}
		}
	}
	c.Nontrivial(n > 8)
	return nil
}

var (
	charsetRe = regexp.MustCompile(`(?i)<meta\s+charset\s*=\s*"utf-8"\s*/?>`)
	styleRe   = regexp.MustCompile(`(?i)url\s*\(|@import|expression\s*\(`)
)

// document checks that the report is a whole document which needs nothing
// from elsewhere.
func document(s string) error {
	if !utf8.ValidString(s) {
		return fmt.Errorf("the document is not UTF-8")
	}
	if at := charsetRe.FindStringIndex(s); at == nil || at[1] > 1024 {
		return fmt.Errorf("the encoding is not declared in the first 1024 bytes")
	}
	if strings.ContainsRune(s, 0) {
		return fmt.Errorf("character NUL in the document")
	}
	doc, err := model.ParseHTML(s)
	if err != nil {
		return err
	}
	for _, tag := range []string{"html", "head", "title", "body"} {
		if n := len(doc.Find(tag)); n != 1 {
			return fmt.Errorf("%d elements %s", n, tag)
		}
	}
	if doc.Find("title")[0].Flat() == "" {
		return fmt.Errorf("no title")
	}
	var walk func(n *model.Node) error
	walk = func(n *model.Node) error {
		for k, v := range n.Attrs {
			switch k {
			case "src", "srcset", "action", "data", "poster", "background":
				return fmt.Errorf("<%s %s=%q>", n.Tag, k, v)
			case "href":
				if err := embedded(v); err != nil {
					return fmt.Errorf("<%s href=%.60q>: %w", n.Tag, v, err)
				}
			}
			if strings.HasPrefix(k, "on") {
				return fmt.Errorf("<%s %s=%q>", n.Tag, k, v)
			}
		}
		if n.Tag == "style" && styleRe.MatchString(n.Text) {
			return fmt.Errorf("the style refers to something: %q", n.Text)
		}
		for _, k := range n.Kids {
			if err := walk(k); err != nil {
				return err
			}
		}
		return nil
	}
	return walk(doc)
}

// embedded checks an address whose content is within it.
func embedded(v string) error {
	b, ok := strings.CutPrefix(v, "data:image/svg+xml;base64,")
	if !ok {
		return fmt.Errorf("not within the document")
	}
	img, err := base64.StdEncoding.DecodeString(strings.NewReplacer("&#43;", "+", "&#x2b;", "+").Replace(b))
	if err != nil {
		return err
	}
	x := xml.NewDecoder(strings.NewReader(string(img)))
	for {
		t, err := x.Token()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return fmt.Errorf("the image is damaged: %w", err)
		}
		if e, ok := t.(xml.StartElement); ok {
			for _, a := range e.Attr {
				if a.Name.Local == "href" && !strings.HasPrefix(a.Value, "#") && !strings.HasPrefix(a.Value, "data:") {
					return fmt.Errorf("the image refers to %q", a.Value)
				}
			}
		}
	}
}
