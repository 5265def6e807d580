package model

import (
	"fmt"
	"html"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Reports are compared by content: white space at the ends of lines and the
// alignment of columns are not part of it.

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// StripColors removes ANSI color codes.
func StripColors(s string) string { return ansi.ReplaceAllString(s, "") }

// Lines are the non-empty trimmed lines of the text.
func Lines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return out
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// CompareThreads checks the lines of a threads report.
func CompareThreads(lines []string, exp []ThreadText, locals bool) error {
	i := 0
	next := func() string {
		if i < len(lines) {
			i++
			return strings.TrimSpace(lines[i-1])
		}
		return "(end of report)"
	}
	for n, t := range exp {
		if l := next(); l != strings.TrimSpace(t.Line) {
			return fmt.Errorf("thread %d of %d: expected %q, got %q", n+1, len(exp), cut(t.Line), cut(l))
		}
		for k, f := range t.Frames {
			if l := next(); l != strings.TrimSpace(f.Line) {
				return fmt.Errorf("thread %q, frame %d of %d: expected %q, got %q", cut(t.Line), k, len(t.Frames), cut(f.Line), cut(l))
			}
			if !locals {
				continue
			}
			var want, got []string
			for _, x := range f.Locals {
				want = append(want, strings.TrimSpace("local "+x))
				got = append(got, next())
			}
			sort.Strings(want)
			sort.Strings(got)
			for j := range want {
				if want[j] != got[j] {
					return fmt.Errorf("thread %q, frame %d %q: expected locals %q, got %q", cut(t.Line), k, cut(f.Line), cutAll(want), cutAll(got))
				}
			}
		}
	}
	if i < len(lines) {
		return fmt.Errorf("extra line after %d threads: %q", len(exp), cut(lines[i]))
	}
	return nil
}

// ThreadEntry is a thread of a report as it is printed.
type ThreadEntry struct {
	Line   string
	Frames []FrameText
}

var threadID = regexp.MustCompile(`^.*", ID=(-?\d+), prio=`)

// ID is the printed identifier of the thread.
func (e ThreadEntry) ID() string {
	m := threadID.FindStringSubmatch(e.Line)
	if m == nil {
		return ""
	}
	return m[1]
}

// ThreadsHTMLEntries reads the HTML threads report.
func ThreadsHTMLEntries(s string) ([]ThreadEntry, error) {
	b, err := body(s)
	if err != nil {
		return nil, err
	}
	var res []ThreadEntry
	for _, d := range b.Find("div") {
		e := ThreadEntry{}
		for i, p := range d.Find("p") {
			c := p.Attrs["class"]
			switch {
			case i == 0 && c == "thread-description":
				e.Line = p.Flat()
			case i > 0 && c == "one":
				e.Frames = append(e.Frames, FrameText{Line: p.Flat()})
			case i > 1 && c == "two":
				f := &e.Frames[len(e.Frames)-1]
				f.Locals = append(f.Locals, p.Flat())
			default:
				return nil, fmt.Errorf("unexpected paragraph %q", cut(p.Flat()))
			}
		}
		res = append(res, e)
	}
	return res, nil
}

// ParseThreadsPlain splits a plain threads report by its indentation.
func ParseThreadsPlain(out string) ([]ThreadEntry, error) {
	var res []ThreadEntry
	for _, l := range strings.Split(out, "\n") {
		text := strings.TrimSpace(l)
		indent := len(l) - len(strings.TrimLeft(l, " "))
		if strings.HasPrefix(l, "\t\t") {
			indent = 8
		} else if strings.HasPrefix(l, "\t") {
			indent = 4
		}
		switch {
		case text == "":
		case indent == 0:
			res = append(res, ThreadEntry{Line: text})
		case len(res) == 0:
			return nil, fmt.Errorf("frame without thread: %q", cut(l))
		case indent < 8:
			t := &res[len(res)-1]
			t.Frames = append(t.Frames, FrameText{Line: text})
		default:
			t := &res[len(res)-1]
			if len(t.Frames) == 0 {
				return nil, fmt.Errorf("local variable without frame: %q", cut(l))
			}
			f := &t.Frames[len(t.Frames)-1]
			f.Locals = append(f.Locals, text)
		}
	}
	return res, nil
}

func cutAll(s []string) []string {
	out := []string{}
	for _, x := range s {
		if out = append(out, cut(x)); len(out) > 12 {
			break
		}
	}
	return out
}

// ObjectsReport is a parsed objects report.
type ObjectsReport struct {
	Count, Size string
	Header      [3]string
	Rows        [][3]string
}

var (
	rowRe  = regexp.MustCompile(`^(.*?)\s*\|\s*(-?\d+ \(-?\d+%\))\s*\|\s*(-?\d+[BKMG] \(-?\d+%\))\s*\|$`)
	headRe = regexp.MustCompile(`^(.*?)\s*\|\s*([^|]*?)\s*\|\s*([^|]*?)\s*\|$`)
	ruleRe = regexp.MustCompile(`^-+$`)
)

// ParseObjectsPlain reads a plain objects report.
func ParseObjectsPlain(out string) (*ObjectsReport, error) {
	ls := Lines(out)
	if len(ls) < 4 {
		return nil, fmt.Errorf("objects report is too short: %q", cut(out))
	}
	r := &ObjectsReport{}
	var ok bool
	if r.Count, ok = strings.CutPrefix(ls[0], "Instances: "); !ok {
		return nil, fmt.Errorf("unexpected line %q", ls[0])
	}
	if r.Size, ok = strings.CutPrefix(ls[1], "Total Size: "); !ok {
		return nil, fmt.Errorf("unexpected line %q", ls[1])
	}
	m := headRe.FindStringSubmatch(ls[2])
	if m == nil {
		return nil, fmt.Errorf("unexpected header %q", ls[2])
	}
	r.Header = [3]string{m[1], m[2], m[3]}
	if !ruleRe.MatchString(ls[3]) {
		return nil, fmt.Errorf("unexpected line %q", ls[3])
	}
	for _, l := range ls[4:] {
		m := rowRe.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("unexpected row %q", cut(l))
		}
		r.Rows = append(r.Rows, [3]string{m[1], m[2], m[3]})
	}
	return r, nil
}

// CompareObjects checks an objects report sorted by "count" or "size".
func CompareObjects(r *ObjectsReport, h Histogram, sortBy string) error {
	if want := fmt.Sprint(h.Count); r.Count != want {
		return fmt.Errorf("total count %q, expected %q", r.Count, want)
	}
	if want := SizeText(h.Bytes); r.Size != want {
		return fmt.Errorf("total size %q, expected %q", r.Size, want)
	}
	head := [3]string{"Class Name", "Count ↓", "Size"}
	if sortBy == "size" {
		head = [3]string{"Class Name", "Count", "Size ↓"}
	}
	if r.Header != head {
		return fmt.Errorf("header %q, expected %q", r.Header, head)
	}
	want := map[[3]string][]Row{}
	for _, row := range h.Rows {
		c := h.Cells(row)
		want[c] = append(want[c], row)
	}
	for c := range want {
		// rows that look the same are taken in the order that fits
		sort.SliceStable(want[c], func(i, j int) bool { return want[c][i].Bytes.Cmp(want[c][j].Bytes) > 0 })
	}
	var prev *Row
	for i, c := range r.Rows {
		if len(want[c]) == 0 {
			return fmt.Errorf("row %d %q is unexpected; remaining %s", i, c, remaining(want))
		}
		row := want[c][0]
		want[c] = want[c][1:]
		if prev != nil {
			if sortBy == "size" && prev.Bytes.Cmp(row.Bytes) < 0 || sortBy != "size" && prev.Count < row.Count {
				return fmt.Errorf("row %d %q is out of order by %s", i, c, sortBy)
			}
		}
		prev = &row
	}
	if len(r.Rows) != len(h.Rows) {
		return fmt.Errorf("%d rows, expected %d; missing %s", len(r.Rows), len(h.Rows), remaining(want))
	}
	return nil
}

func remaining(m map[[3]string][]Row) string {
	var out []string
	for c, rows := range m {
		for range rows {
			out = append(out, fmt.Sprintf("%q", c))
		}
	}
	sort.Strings(out)
	return fmt.Sprint(cutAll(out))
}

// Section is a titled part of the summary.
type Section struct {
	Title string
	KVs   []KV
}

// Sections lists the expected sections of the summary. The value of uptime is
// "\x00", it is compared separately.
func (s Summary) Sections(allProps bool) []Section {
	out := []Section{
		{"Environment", s.Env},
		{"Heap", []KV{{"Classes", fmt.Sprint(s.Classes)}, {"GC Roots", fmt.Sprint(s.GCRoots)},
			{"Instances", fmt.Sprint(s.Instances)}, {"Heap Size", SizeText(s.HeapSize)}}},
		{"System", []KV{{"JVM Uptime", "\x00"}}},
	}
	if allProps {
		out = append(out, Section{"Properties", s.Properties})
	}
	return out
}

func (s Summary) uptime(text string) error {
	if !s.HasUptime {
		if text != "unknown" {
			return fmt.Errorf("uptime is %q, expected \"unknown\"", text)
		}
		return nil
	}
	d, err := time.ParseDuration(text)
	if err != nil || d != s.Uptime {
		return fmt.Errorf("uptime is %q, expected %v", text, s.Uptime)
	}
	return nil
}

// CompareSummaryPlain checks the given sections of a plain summary (all of them
// and nothing else if none is given).
func CompareSummaryPlain(out string, s Summary, allProps bool, only ...string) error {
	ls := Lines(out)
	i := 0
	next := func() string {
		if i < len(ls) {
			i++
			return ls[i-1]
		}
		return "(end of report)"
	}
	for _, sec := range s.Sections(allProps) {
		if len(sec.KVs) == 0 && sec.Title == "Properties" && i == len(ls) {
			continue // nothing to show
		}
		if !wanted(sec.Title, only) {
			continue
		}
		if len(only) > 0 {
			for i = 0; i < len(ls) && ls[i] != "- "+sec.Title; i++ {
			}
			if len(sec.KVs) == 0 && i == len(ls) {
				continue // nothing to show
			}
		}
		if l := next(); l != "- "+sec.Title {
			return fmt.Errorf("expected section %q, got %q", sec.Title, cut(l))
		}
		for _, kv := range sec.KVs {
			l := next()
			v, ok := strings.CutPrefix(l, strings.TrimLeft(kv.K, " ")+":")
			if !ok {
				return fmt.Errorf("section %s: expected %q, got %q", sec.Title, cut(kv.K), cut(l))
			}
			v = strings.TrimSpace(v)
			if kv.V == "\x00" {
				if err := s.uptime(v); err != nil {
					return err
				}
			} else if v != strings.TrimSpace(kv.V) {
				return fmt.Errorf("section %s: value of %q is %q, expected %q", sec.Title, cut(kv.K), cut(v), cut(kv.V))
			}
		}
		if len(only) > 0 && i < len(ls) && !strings.HasPrefix(ls[i], "- ") {
			return fmt.Errorf("section %s: extra line %q", sec.Title, cut(ls[i]))
		}
	}
	if len(only) == 0 && i < len(ls) {
		return fmt.Errorf("extra line %q", cut(ls[i]))
	}
	return nil
}

func wanted(title string, only []string) bool {
	for _, o := range only {
		if o == title {
			return true
		}
	}
	return len(only) == 0
}

// CompareSummarySections checks sections read from the HTML summary.
func CompareSummarySections(got []Section, s Summary, allProps bool, only ...string) error {
	want := s.Sections(allProps)
	if len(got) == 3 && len(want) == 4 && len(want[3].KVs) == 0 {
		want = want[:3]
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d sections, expected %d", len(got), len(want))
	}
	for i, w := range want {
		if got[i].Title != w.Title {
			return fmt.Errorf("section %q, expected %q", got[i].Title, w.Title)
		}
		if !wanted(w.Title, only) {
			continue
		}
		if len(got[i].KVs) != len(w.KVs) {
			return fmt.Errorf("section %s has %d entries, expected %d", w.Title, len(got[i].KVs), len(w.KVs))
		}
		for k, kv := range w.KVs {
			g := got[i].KVs[k]
			if g.K != strings.TrimSpace(kv.K) {
				return fmt.Errorf("section %s: key %q, expected %q", w.Title, cut(g.K), cut(kv.K))
			}
			if kv.V == "\x00" {
				if err := s.uptime(g.V); err != nil {
					return err
				}
			} else if g.V != strings.TrimSpace(kv.V) {
				return fmt.Errorf("section %s: value of %q is %q, expected %q", w.Title, cut(g.K), cut(g.V), cut(kv.V))
			}
		}
	}
	return nil
}

// Node is an HTML element or a text (then Tag is empty).
type Node struct {
	Tag   string
	Attrs map[string]string
	Text  string
	Kids  []*Node
}

var (
	tagRe  = regexp.MustCompile(`^<(/?)([a-zA-Z][a-zA-Z0-9]*)((?:\s+[a-zA-Z-]+(?:\s*=\s*"[^"<>]*")?)*)\s*(/?)>`)
	attrRe = regexp.MustCompile(`([a-zA-Z-]+)(?:\s*=\s*"([^"<>]*)")?`)
	entRe  = regexp.MustCompile(`^&(#[0-9]+|#[xX][0-9a-fA-F]+|[a-zA-Z][a-zA-Z0-9]*);`)
	void   = map[string]bool{"meta": true, "link": true, "br": true, "hr": true}
	known  = map[string]bool{"html": true, "head": true, "meta": true, "link": true, "title": true, "style": true, "body": true,
		"h1": true, "h2": true, "h3": true, "table": true, "thead": true, "tbody": true, "tr": true, "th": true, "td": true, "div": true, "p": true, "span": true, "br": true, "hr": true}
	attrs = map[string]bool{"lang": true, "charset": true, "name": true, "content": true, "rel": true, "href": true, "class": true, "colspan": true}
)

// ParseHTML is a strict parser of the documents the tool makes: every tag is
// known, closed and nested, every attribute is known and quoted, every & starts
// a character reference. Any markup coming from data breaks one of these rules
// or changes the texts.
func ParseHTML(s string) (*Node, error) {
	root := &Node{}
	stack := []*Node{root}
	rest := strings.TrimSpace(s)
	if !strings.HasPrefix(strings.ToLower(rest), "<!doctype html>") {
		return nil, fmt.Errorf("no doctype: %q", cut(rest))
	}
	rest = rest[len("<!doctype html>"):]
	for rest != "" {
		top := stack[len(stack)-1]
		if top.Tag == "style" {
			end := strings.Index(rest, "</style>")
			if end < 0 {
				return nil, fmt.Errorf("style is not closed")
			}
			if strings.Contains(rest[:end], "<") {
				return nil, fmt.Errorf("markup in style: %q", cut(rest[:end]))
			}
			top.Text = rest[:end]
			rest = rest[end+len("</style>"):]
			stack = stack[:len(stack)-1]
			continue
		}
		if rest[0] != '<' {
			end := strings.IndexByte(rest, '<')
			if end < 0 {
				end = len(rest)
			}
			raw := rest[:end]
			for i := 0; i < len(raw); i++ {
				if raw[i] == '&' && entRe.FindString(raw[i:]) == "" {
					return nil, fmt.Errorf("stray & in %q", cut(raw[i:]))
				}
			}
			top.Kids = append(top.Kids, &Node{Text: html.UnescapeString(raw)})
			rest = rest[end:]
			continue
		}
		m := tagRe.FindStringSubmatch(rest)
		if m == nil {
			return nil, fmt.Errorf("bad markup %q", cut(rest))
		}
		rest = rest[len(m[0]):]
		tag := strings.ToLower(m[2])
		if !known[tag] {
			return nil, fmt.Errorf("unexpected element %q", m[0])
		}
		if m[1] == "/" {
			if top.Tag != tag {
				return nil, fmt.Errorf("%q closes <%s>", m[0], top.Tag)
			}
			stack = stack[:len(stack)-1]
			continue
		}
		n := &Node{Tag: tag, Attrs: map[string]string{}}
		for _, a := range attrRe.FindAllStringSubmatch(m[3], -1) {
			k := strings.ToLower(a[1])
			if !attrs[k] {
				return nil, fmt.Errorf("unexpected attribute in %q", m[0])
			}
			n.Attrs[k] = a[2]
		}
		top.Kids = append(top.Kids, n)
		if !void[tag] {
			stack = append(stack, n)
		}
	}
	if len(stack) != 1 {
		return nil, fmt.Errorf("<%s> is not closed", stack[len(stack)-1].Tag)
	}
	return root, nil
}

// Find lists descendants with one of the tags, outermost first.
func (n *Node) Find(tags ...string) []*Node {
	var out []*Node
	for _, k := range n.Kids {
		hit := false
		for _, t := range tags {
			hit = hit || k.Tag == t
		}
		if hit {
			out = append(out, k)
		} else {
			out = append(out, k.Find(tags...)...)
		}
	}
	return out
}

// Flat is the text of the node without white space at the ends.
func (n *Node) Flat() string {
	var sb strings.Builder
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.Tag == "" {
			sb.WriteString(n.Text)
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(n)
	return strings.TrimSpace(sb.String())
}

// strayText is the text outside of the elements that are known to hold it.
func (n *Node) strayText(holders map[string]bool) string {
	for _, k := range n.Kids {
		if k.Tag == "" {
			if t := strings.TrimSpace(k.Text); t != "" {
				return t
			}
		} else if !holders[k.Tag] {
			if t := k.strayText(holders); t != "" {
				return t
			}
		}
	}
	return ""
}

func body(s string) (*Node, error) {
	doc, err := ParseHTML(s)
	if err != nil {
		return nil, err
	}
	b := doc.Find("body")
	if len(b) != 1 {
		return nil, fmt.Errorf("%d bodies", len(b))
	}
	if t := b[0].strayText(map[string]bool{"h1": true, "p": true, "td": true, "th": true, "span": true, "h3": true}); t != "" {
		return nil, fmt.Errorf("text outside of elements: %q", cut(t))
	}
	return b[0], nil
}

// ThreadsHTML reads the lines of the HTML threads report.
func ThreadsHTML(s string) ([]string, error) {
	b, err := body(s)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, p := range b.Find("p") {
		if t := p.Flat(); t != "" {
			out = append(out, t)
		}
	}
	return out, nil
}

func cells(tr *Node) []string {
	var out []string
	for _, c := range tr.Find("td", "th") {
		out = append(out, c.Flat())
	}
	return out
}

// ObjectsHTML reads the HTML objects report.
func ObjectsHTML(s string) (*ObjectsReport, error) {
	b, err := body(s)
	if err != nil {
		return nil, err
	}
	var rows [][]string
	for _, tr := range b.Find("tr") {
		rows = append(rows, cells(tr))
	}
	if len(rows) < 3 || len(rows[0]) != 2 || len(rows[1]) != 2 || rows[0][0] != "Instances" || rows[1][0] != "Total Size" {
		return nil, fmt.Errorf("unexpected rows %q", rows)
	}
	r := &ObjectsReport{Count: rows[0][1], Size: rows[1][1]}
	for i, row := range rows[2:] {
		if len(row) != 3 {
			return nil, fmt.Errorf("unexpected row %q", row)
		}
		c := [3]string{row[0], row[1], row[2]}
		if i == 0 {
			r.Header = c
		} else {
			r.Rows = append(r.Rows, c)
		}
	}
	return r, nil
}

// SummaryHTML reads the HTML summary.
func SummaryHTML(s string) ([]Section, error) {
	b, err := body(s)
	if err != nil {
		return nil, err
	}
	var out []Section
	for i, tr := range b.Find("tr") {
		c := cells(tr)
		switch {
		case i == 0:
			continue // names of columns
		case len(c) == 1:
			out = append(out, Section{Title: c[0]})
		case len(c) == 2 && len(out) > 0:
			out[len(out)-1].KVs = append(out[len(out)-1].KVs, KV{c[0], c[1]})
		default:
			return nil, fmt.Errorf("unexpected row %q", c)
		}
	}
	return out, nil
}

// Big makes a big.Int.
func Big(n int64) *big.Int { return big.NewInt(n) }
