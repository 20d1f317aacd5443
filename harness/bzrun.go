package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
)

// Whole runs of buildozer over a workspace.

type runFile struct {
	Pkg   string `json:"pkg"`
	Fname string `json:"fname"`
	Tree  *Node  `json:"tree"`
	Raw   string `json:"raw"` // contents of a file that cannot be parsed
}

type runCase struct {
	Files  []runFile `json:"files"`
	Lay    int64     `json:"lay"`
	Mode   string    `json:"mode"` // args, file, stdin
	Text   string    `json:"text"`
	Args   []string  `json:"args"`
	Keep   bool      `json:"keep"`
	Stdout bool      `json:"stdout"`
	Types  []string  `json:"types"`
	Cwd    string    `json:"cwd"`
	Root   bool      `json:"root"` // give the workspace with -root_dir
	NumIO  int       `json:"numio"`
}

type runFileObs struct {
	Path  string   `json:"path"`
	Dir   string   `json:"dir"`
	Tree  *Node    `json:"tree"`
	Spans [][4]int `json:"spans"`
	Same  bool     `json:"same"`
	After *Node    `json:"after"`
	Src   string   `json:"src"`
	Now   string   `json:"now"`
}

type runObs struct {
	Files    []runFileObs `json:"files"`
	Code     int          `json:"code"`
	Out      string       `json:"out"`
	OutT     *Node        `json:"outtree"`
	Errs     string       `json:"errs"`
	Leftover string       `json:"leftover"`
}

func execRun(in json.RawMessage) (interface{}, error) {
	var c runCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "bzr")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	ws := filepath.Join(tmp, "ws")
	os.MkdirAll(filepath.Join(ws, filepath.FromSlash(c.Cwd)), 0o755)
	os.WriteFile(filepath.Join(ws, "WORKSPACE"), nil, 0o644)
	o := runObs{Files: []runFileObs{}}
	po := projOpts{}
	parse := func(path string, src []byte) (*build.File, *Node) {
		f, err := build.Parse(path, src)
		if err != nil {
			return nil, mk("none", "")
		}
		if f.Type == build.TypeDefault {
			f.Type = build.TypeBuild
		}
		return f, fileTree(f, po)
	}
	known := map[string]bool{"WORKSPACE": true}
	for _, rf := range c.Files {
		d := filepath.Join(ws, filepath.FromSlash(rf.Pkg))
		os.MkdirAll(d, 0o755)
		p := filepath.Join(d, rf.Fname)
		src := rf.Raw
		if rf.Raw == "" {
			src = renderFile(rf.Tree, c.Lay)
		}
		os.WriteFile(p, []byte(src), 0o644)
		rel, _ := filepath.Rel(ws, p)
		known[rel] = true
		f, t := parse(p, []byte(src))
		fo := runFileObs{Path: strings.TrimPrefix(p, tmp), Dir: filepath.Base(d), Tree: t, Spans: [][4]int{}, Src: src}
		if f != nil {
			fo.Spans = callLines(f, []byte(src))
		}
		o.Files = append(o.Files, fo)
	}
	old, _ := os.Getwd()
	os.Chdir(filepath.Join(ws, filepath.FromSlash(c.Cwd)))
	defer os.Chdir(old)
	opts := edit.NewOpts()
	if c.Root {
		opts.RootDir = ws
	}
	opts.KeepGoing, opts.Stdout, opts.FilterRuleTypes, opts.NumIO = c.Keep, c.Stdout, c.Types, c.NumIO
	outF, _ := os.Create(filepath.Join(tmp, "out"))
	var eb bytes.Buffer
	opts.OutWriter, opts.ErrWriter = outF, &eb
	switch c.Mode {
	case "file":
		cf := filepath.Join(tmp, "cmds")
		os.WriteFile(cf, []byte(c.Text), 0o644)
		opts.CommandsFiles = []string{cf}
	case "stdin":
		r, w, _ := os.Pipe()
		stdin := os.Stdin
		os.Stdin = r
		go func() { w.Write([]byte(c.Text)); w.Close() }()
		opts.CommandsFiles = []string{"-"}
		defer func() { os.Stdin = stdin; r.Close() }()
	}
	o.Code = edit.Buildozer(opts, append([]string{}, c.Args...))
	outF.Close()
	out, _ := os.ReadFile(filepath.Join(tmp, "out"))
	o.Out = strings.ReplaceAll(string(out), tmp, "")
	o.Errs = strings.ReplaceAll(eb.String(), tmp, "")
	o.OutT = mk("file", "BUILD")
	if g, err := build.ParseBuild("BUILD", out); err == nil {
		o.OutT = fileTree(g, po)
	}
	for i := range o.Files {
		p := filepath.Join(tmp, filepath.FromSlash(o.Files[i].Path))
		now, _ := os.ReadFile(p)
		o.Files[i].Now = string(now)
		o.Files[i].Same = o.Files[i].Now == o.Files[i].Src
		_, o.Files[i].After = parse(p, now)
	}
	filepath.Walk(ws, func(p string, fi os.FileInfo, err error) error {
		if rel, _ := filepath.Rel(ws, p); err == nil && !fi.IsDir() && !known[rel] {
			o.Leftover = rel
		}
		return nil
	})
	return o, nil
}

func (g *bzGen) runFiles(m *bzMix) []runFile {
	var fs []runFile
	for _, p := range []string{"", "p", "q", "p/s"} {
		if g.p(3) {
			continue
		}
		names := []string{"BUILD"}
		if g.p(4) {
			names = []string{"BUILD.bazel"}
		} else if g.p(6) {
			names = []string{"BUILD", "BUILD.bazel"}
		}
		for _, n := range names {
			g.pkg = p
			rf := runFile{Pkg: p, Fname: n, Tree: g.file(m)}
			if g.p(25) {
				rf.Raw, rf.Tree = "x = (", mk("file", "BUILD")
			}
			fs = append(fs, rf)
		}
	}
	if len(fs) == 0 {
		g.pkg = "p"
		fs = append(fs, runFile{Pkg: "p", Fname: "BUILD", Tree: g.file(m)})
	}
	return fs
}

// runTarget spells a target.
func (g *bzGen) runTarget(c *runCase) string {
	rule := g.pick("r1", "r2", "r3", "r1", "r2", "all", "*", "%cc_library", "__pkg__", "%my_rule", "nope")
	pkg := g.pick("p", "p", "q", "", "p/s")
	if g.p(30) {
		pkg = "gone"
	}
	rel := func() (string, bool) {
		if c.Cwd == "" {
			return pkg, true
		}
		if pkg == c.Cwd {
			return "", true
		}
		if strings.HasPrefix(pkg, c.Cwd+"/") {
			return pkg[len(c.Cwd)+1:], true
		}
		return "", false
	}
	switch g.r.Intn(12) {
	case 0, 1:
		if r, ok := rel(); ok {
			return r + ":" + rule
		}
	case 2:
		return "//" + strings.TrimPrefix(pkg+"/...", "/") + ":" + g.pick("r1", "all", "*", "%cc_library")
	case 3:
		if r, ok := rel(); ok {
			return strings.TrimPrefix(r+"/...", "/") + ":" + g.pick("all", "*", "%cc_library")
		}
	case 4, 5: // the name of the file
		for _, f := range c.Files {
			if f.Pkg == pkg && g.p(2) {
				if rule == "__pkg__" && pkg != "" && g.p(2) {
					return "//" + pkg + "/" + f.Fname
				}
				return "//" + strings.TrimPrefix(pkg+"/"+f.Fname, "/") + ":" + rule
			}
		}
	case 6:
		if pkg != "" {
			return "//" + pkg
		}
	}
	return "//" + pkg + ":" + rule
}

// line writes a line of a command file.
func (g *bzGen) line(fields []string) string {
	var q []string
	for _, f := range fields {
		q = append(q, strings.ReplaceAll(f, "|", "\\|"))
	}
	return strings.Join(q, "|")
}

// word is an argument with blanks and bars, as it is written in a command.
func (g *bzGen) word() string {
	s := ""
	for i := 1 + g.r.Intn(5); i > 0; i-- {
		s += g.pick("a", "b", "x", "\\ ", "\\ ", "|", "|", "#", "*", "\\", "=", ",")
	}
	if strings.Trim(s, "\\ ") == "" || strings.HasSuffix(s, "\\") {
		s += "w"
	}
	return s
}

func (g *bzGen) spaced(words []string) string {
	s := ""
	for i, w := range words {
		if i > 0 {
			s += g.pick(" ", " ", " ", "  ")
		}
		s += w
	}
	if g.p(8) {
		s = " " + s
	}
	if g.p(8) {
		s += " "
	}
	return s
}

func genRun(split bool) func(r *rand.Rand, n int, emit func(interface{})) {
	return func(r *rand.Rand, n int, emit func(interface{})) {
		for i := 0; i < n; i++ {
			g := &bzGen{}
			g.r = r
			m := &bzMix{attrs: []string{"deps", "tags", "cmd", "size", "testonly"}, stmts: true}
			if split {
				m.stmts = false
			}
			c := runCase{Lay: -1 - int64(r.Intn(1<<30)), Files: g.runFiles(m), Mode: g.pick("file", "file", "stdin", "args"), Keep: g.p(3), Stdout: g.p(6), NumIO: []int{1, 2, 3, 200}[r.Intn(4)], Args: []string{}, Types: []string{}, Root: g.p(2)}
			if !c.Root || g.p(2) {
				c.Cwd = g.pick("", "", "p", "q")
			}
			if c.Root {
				c.Cwd = ""
			}
			if g.p(12) && !split {
				c.Types = []string{g.pick("cc_library", "my_rule")}
			}
			deleted, printed := false, false
			cmd := func() string {
				g.pkg = g.pick("p", "q")
				if split {
					switch r.Intn(6) {
					case 0:
						return g.spaced([]string{"set", "cmd", g.word()})
					case 1:
						return g.spaced([]string{"set", "size", g.word(), g.word()})
					case 2:
						return g.spaced([]string{"add", "tags", g.word(), g.word()})
					case 3:
						return g.spaced([]string{"remove", "tags", g.word()})
					case 4:
						return g.spaced([]string{"rename", "cmd", "out"})
					}
					return g.spaced([]string{"add", "tags", g.word()})
				}
				var b bzCmd
				for b.C == "" || b.C == "substitute" || b.C == "substitute_load" || (c.Stdout && (b.C == "print")) || (b.C == "print" && deleted) || (b.C == "delete" && printed) { // nothing is asked of a rule that is gone
					switch r.Intn(10) {
					case 0, 1, 2:
						b = listCmds(g, m)
					case 3, 4, 5:
						b = scalarCmds(g, m)
					case 6, 7:
						b = fileCmds(g, m)
					case 8:
						b = bzCmd{C: "delete", A: []string{}}
					case 9:
						b = bzCmd{C: "print", A: []string{g.pick("name", "kind", "label")}}
					}
				}
				b.fit()
				deleted = deleted || b.C == "delete"
				printed = printed || b.C == "print"
				return cmdText(b)
			}
			targets := func() []string {
				q := []string{}
				for i := 1 + r.Intn(3); i > 0; i-- {
					q = append(q, g.runTarget(&c))
				}
				return q
			}
			fields := func() []string {
				q := []string{}
				deleted, printed = false, false
				for i := 1 + r.Intn(2); i > 0; i-- {
					q = append(q, cmd())
				}
				q = append(q, targets()...)
				if g.p(8) {
					r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
				}
				return q
			}
			if c.Mode == "args" {
				c.Args = fields()
			} else {
				if g.p(2) {
					c.Args = targets()
				}
				var ls []string
				for i := 1 + r.Intn(4); i > 0; i-- {
					f := fields()
					if len(c.Args) > 0 && g.p(3) {
						f = []string{cmd()}
						if g.p(2) {
							f = append(f, cmd())
						}
						f = append(f, "*")
					}
					l := g.line(f)
					if g.p(8) {
						ls = append(ls, g.pick("", "# comment|x", "   ", "  # set cmd x|//p:r1"))
					}
					if g.p(8) {
						l = g.pick(" ", "\t") + l + g.pick(" ", "\r", "")
					}
					ls = append(ls, l)
				}
				c.Text = strings.Join(ls, "\n")
				if g.p(2) {
					c.Text += "\n"
				}
			}
			emit(c)
		}
	}
}

func init() {
	props["C06"] = &Prop{Gen: genRun(false), Exec: execRun}
	props["C07"] = &Prop{Gen: genRun(true), Exec: execRun}
}
