package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"path"
	"regexp"
	"strconv"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
)

// Lints that look into several files: the first file of a project is checked, the others can be read.

type macroFile struct {
	Pkg  string `json:"pkg"`
	Name string `json:"name"`
	OK   bool   `json:"ok"` // can be parsed
	Tree *Node  `json:"tree"`
}
type macroCase struct {
	Files []macroFile `json:"files"`
	Lay   int64       `json:"lay"`
}
type macroCall struct {
	Def  string `json:"def"`
	Name string `json:"name"`
	Line int    `json:"line"`
}
type macroFind struct {
	Name string `json:"name"`
	Via  string `json:"via"`
	Line int    `json:"line"`
}
type deprFind struct {
	Name string `json:"name"`
	Path string `json:"path"`
}
type macroObs struct {
	Src        []string    `json:"src"`
	Files      []macroFile `json:"files"`
	Calls      []macroCall `json:"calls"`
	Macros     []macroFind `json:"macros"`
	Alone      []string    `json:"alone"`
	Deprecated []deprFind  `json:"deprecated"`
	Same       bool        `json:"same"`
}

var macroMsg = regexp.MustCompile(`^The macro "([^"]*)" should have`)
var macroVia = regexp.MustCompile(`calls a rule or another macro "([^"]*)" on line (\d+)\.`)
var deprMsg = regexp.MustCompile(`^The function "([^"]*)" defined in "([^"]*)" is deprecated`)

func execMacro(in json.RawMessage) (interface{}, error) {
	var c macroCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	o := &macroObs{Src: []string{}, Files: []macroFile{}, Calls: []macroCall{}, Macros: []macroFind{}, Alone: []string{}, Deprecated: []deprFind{}, Same: true}
	content := map[string][]byte{}
	for i, f := range c.Files {
		src := renderFile(f.Tree, c.Lay)
		if !f.OK {
			src += "def broken(:\n"
		}
		o.Src = append(o.Src, src)
		p := path.Join(f.Pkg, f.Name)
		content[p] = []byte(src)
		b, err := build.ParseBzl(p, []byte(src))
		g := macroFile{Pkg: f.Pkg, Name: f.Name, OK: err == nil, Tree: mk("none", "")}
		if err == nil {
			g.Tree = fileTree(b, projOpts{comments: true})
		} else if i == 0 {
			return nil, err
		}
		o.Files = append(o.Files, g)
	}
	parse := func() *build.File {
		f, _ := build.ParseBzl(path.Join(c.Files[0].Pkg, c.Files[0].Name), []byte(o.Src[0]))
		f.Pkg, f.Label = c.Files[0].Pkg, c.Files[0].Name
		return f
	}
	reader := func() *warn.FileReader {
		return warn.NewFileReader(func(p string) ([]byte, error) {
			if b, ok := content[p]; ok {
				return b, nil
			}
			return nil, errors.New("no such file")
		})
	}
	f := parse()
	for _, s := range f.Stmt {
		def, ok := s.(*build.DefStmt)
		if !ok {
			continue
		}
		build.Walk(def, func(e build.Expr, _ []build.Expr) {
			call, ok := e.(*build.CallExpr)
			if !ok {
				return
			}
			st, _ := call.Span()
			switch x := call.X.(type) {
			case *build.Ident:
				o.Calls = append(o.Calls, macroCall{def.Name, x.Name, st.Line})
			case *build.DotExpr:
				if id, ok := x.X.(*build.Ident); ok {
					o.Calls = append(o.Calls, macroCall{def.Name, id.Name + "." + x.Name, st.Line})
				}
			}
		})
	}
	find := func(r *warn.FileReader) []*warn.Finding {
		return warn.FileWarnings(parse(), []string{"unnamed-macro", "deprecated-function"}, nil, warn.ModeWarn, r)
	}
	text := func(q []*warn.Finding) string {
		s := ""
		for _, w := range q {
			s += fmt.Sprintf("%d:%d %s %s\n", w.Start.Line, w.Start.LineRune, w.Category, w.Message)
		}
		return s
	}
	first := find(reader())
	for _, w := range first {
		if m := macroMsg.FindStringSubmatch(w.Message); m != nil {
			x := macroFind{Name: m[1]}
			if v := macroVia.FindStringSubmatch(w.Message); v != nil {
				x.Via = v[1]
				x.Line, _ = strconv.Atoi(v[2])
			}
			o.Macros = append(o.Macros, x)
		} else if m := deprMsg.FindStringSubmatch(w.Message); m != nil {
			o.Deprecated = append(o.Deprecated, deprFind{m[1], m[2]})
		}
	}
	for i := 0; i < 6; i++ {
		if text(find(reader())) != text(first) {
			o.Same = false
		}
	}
	for _, w := range find(nil) {
		if m := macroMsg.FindStringSubmatch(w.Message); m != nil {
			o.Alone = append(o.Alone, m[1])
		}
	}
	return o, nil
}

type macroGen struct {
	r     *rand.Rand
	names []string
}

func (g *macroGen) pick(q ...string) string { return q[g.r.Intn(len(q))] }
func (g *macroGen) name() string            { return g.pick(g.names...) }
func (g *macroGen) call() *Node {
	x := mk("id", g.name())
	switch g.r.Intn(9) {
	case 0:
		x = mk("dot", g.pick("cc_library", "glob", "glob", "package_name", "existing_rules", "exports_files", "sh_test", "existing_rule", "repository_name"), mk("id", "native"))
	case 1:
		x = mk("dot", g.name(), mk("id", g.pick("ctx", "foo")))
	case 2:
		x = mk("id", g.pick("print", "rule", "len", "select"))
	}
	n := mk("call", "", x)
	for i := g.r.Intn(2); i > 0; i-- {
		if g.r.Intn(3) == 0 {
			n.K = append(n.K, mk("asg", "=", mk("id", "k"), g.expr(1)))
			continue
		}
		n.K = append(n.K, g.expr(1))
	}
	return n
}
func (g *macroGen) expr(d int) *Node {
	if d <= 0 {
		return g.call()
	}
	switch g.r.Intn(12) {
	case 0:
		return mk("list", "", g.expr(d-1))
	case 1:
		return mk("dict", "", mk("kv", "", mk("str", "k"), g.expr(d-1)))
	case 2:
		return mk("comp", "[", g.expr(d-1), mk("forc", "", mk("id", "i"), g.expr(d-1)))
	case 3:
		return mk("bin", "+", mk("num", "1"), g.expr(d-1))
	case 4:
		return mk("cond", "", g.expr(d-1), mk("id", "x"), mk("num", "2"))
	case 5, 6:
		return mk("lambda", "", mk("params", ""), mk("block", "", g.expr(d-1)))
	case 7:
		return mk("call", "", g.call())
	case 8, 9:
		return mk("id", g.name()) // only mentioned
	}
	return g.call()
}
func (g *macroGen) stmt(d int) *Node {
	switch g.r.Intn(8) {
	case 0:
		if d > 0 {
			return mk("if", "", g.expr(1), g.block(d-1), mk("block", ""))
		}
	case 1:
		if d > 0 {
			return mk("for", "", mk("id", "i"), g.expr(1), g.block(d-1))
		}
	case 2:
		if d > 0 {
			return mk("def", "inner", mk("params", ""), mk("none", ""), g.block(d-1))
		}
	case 3:
		return mk("return", "", g.expr(2))
	case 4:
		return mk("asg", "=", mk("id", "v"), g.expr(2))
	case 5:
		return mk("num", "0")
	}
	return g.expr(2)
}
func (g *macroGen) block(d int) *Node {
	b := mk("block", "")
	for i := 1 + g.r.Intn(2); i > 0; i-- {
		b.K = append(b.K, g.stmt(d))
	}
	return b
}
func (g *macroGen) params() *Node {
	p := mk("params", "")
	for i := g.r.Intn(3); i > 0; i-- {
		switch g.r.Intn(12) {
		case 0:
			p.K = append(p.K, mk("id", "name"))
		case 1:
			p.K = append(p.K, mk("asg", "=", mk("id", "name"), mk("id", "None")))
		case 2:
			p.K = append(p.K, mk("un", "*", mk("id", "args")))
		case 3:
			p.K = append(p.K, mk("un", "**", mk("id", "kwargs")))
		case 4:
			p.K = append(p.K, mk("asg", "=", mk("id", "d"), g.call()))
		default:
			p.K = append(p.K, mk("id", g.pick("x", "y", "names")))
		}
	}
	return p
}

type macroPlace struct{ pkg, name string }

var macroPlaces = []macroPlace{{"p", "x.bzl"}, {"p", "y.bzl"}, {"q", "x.bzl"}, {"", "x.bzl"}, {"p/sub", "z.bzl"}, {"p", "sub2/w.bzl"}}

func (g *macroGen) load(from macroPlace) string {
	to := macroPlaces[g.r.Intn(len(macroPlaces))]
	switch {
	case g.r.Intn(20) == 0:
		return "@other//" + to.pkg + ":" + to.name
	case to.pkg == from.pkg && g.r.Intn(2) == 0:
		return ":" + to.name
	}
	return g.pick("//", "//", "@//") + to.pkg + ":" + to.name
}
func genMacro(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		g := &macroGen{r: r, names: []string{"a", "b", "c", "_d", "e"}}
		if r.Intn(2) == 0 {
			g.names = g.names[:2+r.Intn(3)]
		}
		c := macroCase{}
		if r.Intn(3) == 0 {
			c.Lay = -1 - r.Int63n(1<<30)
		}
		perm := r.Perm(len(macroPlaces))
		for k := 1 + r.Intn(4); k > 0; k-- {
			pl := macroPlaces[perm[k]]
			t := mk("file", ".bzl")
			var loads, rest []*Node
			for _, x := range g.names {
				switch r.Intn(10) {
				case 0, 1, 2:
					from := g.name()
					l := g.load(pl)
					if len(loads) > 0 && r.Intn(2) == 0 {
						loads[len(loads)-1].K = append(loads[len(loads)-1].K, mk("sym", x, mk("id", from)))
					} else {
						loads = append(loads, mk("load", l, mk("sym", x, mk("id", from))))
					}
				case 3:
					if r.Intn(2) == 0 {
						rest = append(rest, mk("asg", "=", mk("id", x), mk("call", "", mk("id", g.pick("rule", "rule", "rule", "provider", "repository_rule")))))
					}
				case 4:
					rest = append(rest, mk("asg", "=", mk("id", x), mk("id", g.name())))
				default:
					b := g.block(1)
					if r.Intn(3) == 0 {
						b.K = append([]*Node{mk("str", g.pick("Doc.", "Doc.\n\n    Deprecated:\n      use b", "Doc.\n\n    Deprecated: use b\n    ", "Doc.\n    Deprecated:   ", "Doc.\n\n    Args:\n      x: y\n\n    Deprecated:\n      no\n    "))}, b.K...)
					}
					rest = append(rest, mk("def", x, g.params(), mk("none", ""), b))
				}
			}
			// a symbol is loaded once by a load
			for _, l := range loads {
				seen := map[string]bool{}
				var q []*Node
				for _, s := range l.K {
					if !seen[s.K[0].V] {
						q = append(q, s)
					}
					seen[s.K[0].V] = true
				}
				l.K = q
			}
			r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
			t.K = append(loads, rest...)
			if len(t.K) == 0 {
				t.K = append(t.K, mk("num", "1"))
			}
			c.Files = append(c.Files, macroFile{pl.pkg, pl.name, len(c.Files) == 0 || r.Intn(10) > 0, t})
		}
		emit(c)
	}
}

func init() { props["C23"] = &Prop{Gen: genMacro, Exec: execMacro} }
