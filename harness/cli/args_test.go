package cli

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/model"
	"verif/prop"
)

// Line is a command line.
type Line struct {
	W    *model.World `json:"w"`
	L    model.Layout `json:"l"`
	Name string       `json:"name"` // of the dump
	Args []string     `json:"args"` // {dir} is the absolute path of the directory
	New  bool         `json:"new,omitempty"`
}

// documented flags of commands
var boolFlags = map[string][]string{
	"threads": {"no-color", "non-interactive", "local-vars"},
	"summary": {"no-color", "non-interactive", "all-props"},
	"objects": {"no-color", "non-interactive"},
}
var choices = map[string]map[string][]string{
	"threads": {"output": {"plain", "html"}},
	"summary": {"output": {"plain", "html"}},
	"objects": {"output": {"plain", "html"}, "sort-by": {"count", "size"}},
}

var allFlags = []string{"hprof", "no-color", "non-interactive", "local-vars", "all-props", "output", "sort-by"}

func flagsOf(cmd string) []string {
	f := append([]string{"hprof"}, boolFlags[cmd]...)
	for k := range choices[cmd] {
		f = append(f, k)
	}
	return f
}

// Meaning is what the command line asks for.
type Meaning struct {
	Kind string // help, usage, refused, missing, report
	Cmd  Cmd
	Path string
}

func truth(s string) (bool, bool) {
	switch s {
	case "1", "t", "T", "true", "TRUE", "True":
		return true, true
	case "0", "f", "F", "false", "FALSE", "False":
		return false, true
	}
	return false, false
}

// understand is the reference of the command line.
func understand(args []string, exists func(string) bool) Meaning {
	if len(args) == 0 || boolFlags[args[0]] == nil {
		return Meaning{Kind: "help"}
	}
	m := Meaning{Kind: "report", Cmd: Cmd{Name: args[0], Color: true, Progress: true}}
	rest := args[1:]
	for len(rest) > 0 {
		a := rest[0]
		rest = rest[1:]
		name := strings.TrimPrefix(a, "-")
		name = strings.TrimPrefix(name, "-")
		name, value, has := strings.Cut(name, "=")
		isBool, choice := false, []string(nil)
		for _, f := range boolFlags[m.Cmd.Name] {
			isBool = isBool || f == name
		}
		choice = choices[m.Cmd.Name][name]
		switch {
		case isBool:
			v := true
			if has {
				var good bool
				if v, good = truth(value); !good {
					m.Kind = "refused"
					return m
				}
			}
			switch name {
			case "no-color":
				m.Cmd.Color = !v
			case "non-interactive":
				m.Cmd.Progress = !v
			case "local-vars":
				m.Cmd.Locals = v
			case "all-props":
				m.Cmd.AllProps = v
			}
		case name == "hprof" || choice != nil:
			if !has {
				if len(rest) == 0 {
					m.Kind = "refused"
					return m
				}
				value, rest = rest[0], rest[1:]
			}
			if name == "hprof" {
				m.Path = value
				continue
			}
			at := -1
			for i, c := range choice {
				if c == value || i == 0 && value == "" {
					at = i
				}
			}
			if at < 0 {
				m.Kind = "refused"
				return m
			}
			if name == "output" {
				m.Cmd.HTML = at == 1
			} else {
				m.Cmd.BySize = at == 1
			}
		case name == "h" || name == "help":
			if has {
				// not specified
				m.Kind = "help or refused"
				return m
			}
			m.Kind = "usage"
			return m
		default:
			m.Kind = "refused"
			return m
		}
	}
	switch {
	case m.Path == "":
		m.Kind = "usage"
	case !exists(m.Path):
		m.Kind = "missing"
	}
	return m
}

func genLine(t *rapid.T) Line {
	x := Line{W: genWorld(t, model.Opts{Small: true, MaxObjs: 12}), L: model.GenLayout(t)}
	x.Name = rapid.SampledFrom([]string{"h.hprof", "dump", "a b.hprof", "a=b.hprof", "-x.hprof", "дамп.hprof", "x.hprof.db", "h.hprof.gz", "h%d.hprof", "sub/h.hprof"}).Draw(t, "name")
	cmd := rapid.SampledFrom([]string{"threads", "summary", "objects", "threads", "summary", "objects", "threads", "summary", "objects", ""}).Draw(t, "command")
	if cmd == "" {
		if rapid.Bool().Draw(t, "nothing") {
			return x
		}
		cmd = rapid.SampledFrom([]string{"thread", "Threads", "OBJECTS", "help", "-h", "--help", "-version", "", "sumary", "object s", "-hprof", "h.hprof"}).Draw(t, "unknown")
	}
	x.Args = []string{cmd}
	path := func() string {
		return rapid.SampledFrom([]string{x.Name, x.Name, x.Name, "./" + x.Name, "{dir}/" + x.Name, "{dir}//" + x.Name, "../work/" + x.Name}).Draw(t, "path")
	}
	missing := []string{"no.hprof", "", "{dir}/no/h.hprof", x.Name + ".hprof", x.Name + "/", "no dir/" + x.Name}
	put := func(name, value string, hasValue, alone bool) {
		dash := rapid.SampledFrom([]string{"-", "--"}).Draw(t, "dash")
		switch {
		case !hasValue:
			x.Args = append(x.Args, dash+name)
		case alone && rapid.Bool().Draw(t, "apart"):
			x.Args = append(x.Args, dash+name, value)
		default:
			x.Args = append(x.Args, dash+name+"="+value)
		}
	}
	known := flagsOf(cmd)
	if boolFlags[cmd] == nil {
		known = allFlags
	}
	n := rapid.IntRange(0, 6).Draw(t, "flags")
	at := rapid.IntRange(0, n).Draw(t, "dump at") // the dump is named, as a rule
	hasDump := rapid.IntRange(0, 11).Draw(t, "dump") > 0
	wrong := rapid.IntRange(0, 3).Draw(t, "wrong") == 0
	for i := 0; i <= n; i++ {
		if i == at && hasDump {
			put("hprof", path(), true, true)
			continue
		}
		f := rapid.SampledFrom(known).Draw(t, "flag")
		switch f {
		case "hprof":
			if rapid.IntRange(0, 2).Draw(t, "missing") == 0 {
				put(f, rapid.SampledFrom(missing).Draw(t, "missing file"), true, true)
			} else {
				put(f, path(), true, true)
			}
		case "output":
			put(f, rapid.SampledFrom([]string{"plain", "html", ""}).Draw(t, "value"), true, true)
		case "sort-by":
			put(f, rapid.SampledFrom([]string{"size", "count", ""}).Draw(t, "value"), true, true)
		default:
			v := rapid.SampledFrom([]string{"", "", "", "true", "false", "1", "0", "t", "F", "TRUE", "False"}).Draw(t, "value")
			put(f, v, v != "", false)
		}
	}
	if wrong {
		// one thing is wrong or asks for help
		type w struct {
			name, value string
			has         bool
		}
		ws := []w{{"h", "", false}, {"help", "", false}, {"output", "pdf", true}, {"output", "HTML", true}, {"output", "html ", true}, {"no-color", "yes", true},
			{"no-color", "", true}, {"non-interactive", "2", true}, {"nocolor", "", false}, {"hprofs", "x", true}, {"sortby", "size", true},
			{"local-var", "", false}, {"Output", "html", true}, {"v", "", false}, {"", "", true}}
		for _, f := range allFlags {
			other := true
			for _, k := range known {
				other = other && k != f
			}
			if other {
				ws = append(ws, w{f, "", false}, w{f, "size", true}, w{f, "true", true})
			}
		}
		if cmd == "objects" {
			ws = append(ws, w{"sort-by", "name", true}, w{"sort-by", "Size", true}, w{"sort-by", "sizes", true})
		}
		k := rapid.SampledFrom(ws).Draw(t, "wrong flag")
		keep := x.Args
		x.Args = nil
		put(k.name, k.value, k.has, k.name == "output" || k.name == "sort-by")
		bad := x.Args
		x.Args = keep
		// flags with values given apart are not torn
		var cuts []int
		for i := 1; i <= len(keep); i++ {
			if i == len(keep) || strings.HasPrefix(keep[i], "-") && keep[i] != "-x.hprof" && !wantsValue(cmd, keep[i-1]) {
				cuts = append(cuts, i)
			}
		}
		c := rapid.SampledFrom(cuts).Draw(t, "place")
		x.Args = append(append(append([]string(nil), keep[:c]...), bad...), keep[c:]...)
	}
	if rapid.IntRange(0, 29).Draw(t, "no value") == 0 {
		x.Args = append(x.Args, rapid.SampledFrom([]string{"-hprof", "--output"}).Draw(t, "last flag"))
	}
	x.New = rapid.IntRange(0, 59).Draw(t, "new") == 0
	return x
}

// wantsValue tells whether the argument is a flag whose value is the next one.
func wantsValue(cmd, a string) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-")
	return n == "hprof" || n == "output" || n == "sort-by"
}

func init() {
	prop.Add("C27", "arguments", 4500, 75000, genLine, func(c *prop.Ctx, x Line) error {
		return Guard(func() error { return x.check(c) })
	})
}

func (x Line) check(c *prop.Ctx) error {
	d := filepath.Join(c.Dir(), "work")
	p := filepath.Join(d, x.Name)
	prop.Must(os.MkdirAll(filepath.Dir(p), 0o755))
	prop.Must(os.WriteFile(p, x.W.Encode(x.L), 0o644))
	args := make([]string, len(x.Args))
	for i, a := range x.Args {
		args[i] = strings.ReplaceAll(a, "{dir}", d)
	}
	m := understand(args, func(s string) bool {
		if !filepath.IsAbs(s) {
			s = d + "/" + s
		}
		f, err := os.Open(s)
		if err == nil {
			f.Close()
		}
		return err == nil
	})
	// positional arguments are not specified
	if m.Kind != "help" && m.Kind != "refused" {
		for i := 1; i < len(args); i++ {
			if wantsValue(args[0], args[i]) && !strings.Contains(args[i], "=") {
				i++
				continue
			}
			if !strings.HasPrefix(args[i], "-") || args[i] == "-" || args[i] == "--" {
				prop.Broken("positional argument %q", args)
			}
		}
	}
	c.Class("%s", m.Kind)
	c.Nontrivial(len(args) > 2)
	c.Sample("neojhat %q: %s %v", x.Args, m.Kind, m.Cmd)
	e := Expect(x.W)
	canonical := m.Cmd
	canonical.Progress = false
	var want *Result
	if m.Kind == "report" {
		// what the documented flags give
		if !x.New {
			want = Run(d, canonical.Args(p)...)
			c.Executions(1)
			if err := e.Check(canonical, want); err != nil {
				return err
			}
		}
	}
	before := Tree(d)
	r := Run(d, args...)
	c.Executions(1)
	after := Tree(d)
	unchanged := func() error {
		for k, v := range after {
			if before[k] != v {
				return fmt.Errorf("%s appears or changes: %v", k, r)
			}
		}
		if len(before) != len(after) {
			return fmt.Errorf("files vanish: %v", r)
		}
		return nil
	}
	if err := crashed(r); err != nil && r.Code != 2 {
		return err
	}
	usage := func(cmds ...string) error {
		if looksLikeReport(r.Out) {
			return fmt.Errorf("a report is printed: %v", r)
		}
		for _, cmd := range cmds {
			if !strings.Contains(r.Out+r.Err, cmd) {
				return fmt.Errorf("the help does not tell about %s: %v", cmd, r)
			}
			for _, f := range flagsOf(cmd) {
				if !strings.Contains(r.Out+r.Err, "-"+f) {
					return fmt.Errorf("the help does not tell about -%s: %v", f, r)
				}
			}
		}
		return unchanged()
	}
	switch m.Kind {
	case "help":
		if r.Code != 0 {
			return fmt.Errorf("help: %v", r)
		}
		return usage("threads", "summary", "objects")
	case "usage":
		if r.Code != 0 {
			return fmt.Errorf("help of the command: %v", r)
		}
		return usage(m.Cmd.Name)
	case "help or refused":
		return usage(m.Cmd.Name)
	case "refused":
		if r.Code == 0 {
			return fmt.Errorf("wrong arguments are accepted: %v", r)
		}
		return usage(m.Cmd.Name)
	case "missing":
		if err := refused(r); err != nil {
			return fmt.Errorf("no such file: %w", err)
		}
		return unchanged()
	}
	if m.Cmd.Color && !m.Cmd.HTML && !strings.Contains(r.Out, "\x1b[") && strings.TrimSpace(r.Out) != "" {
		return fmt.Errorf("no colors: %v", r)
	}
	if err := e.Check(m.Cmd, r); err != nil {
		return err
	}
	if !m.Cmd.Color && strings.Contains(r.Out, "\x1b[") && want != nil && !strings.Contains(want.Out, "\x1b[") {
		return fmt.Errorf("colors are not asked for: %v", r)
	}
	if want != nil && want.Out != r.Out {
		return fmt.Errorf("not the report of %v %s", want.Args, firstDiff(want.Out, r.Out))
	}
	if !m.Cmd.Progress && r.Err != "" {
		return fmt.Errorf("the display is off: %v", r)
	}
	return nil
}
