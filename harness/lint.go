package main

import (
	"encoding/json"
	"math/rand"
	"regexp"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
)

// Lints on the control flow and on names: the findings with the statement they are in.

type lintCase struct {
	Typ  string   `json:"typ"`
	Tree *Node    `json:"tree"`
	Lay  int64    `json:"lay"`
	Cats []string `json:"cats"`
}

type lintFind struct {
	Cat  string `json:"cat"`
	S    int    `json:"s"` // number of the innermost statement around it
	W    string `json:"w"` // the word it points at
	Line int    `json:"line"`
	Def  bool   `json:"def"` // it points at the beginning of the statement
	OK   bool   `json:"ok"`  // the position is one of the file
}

type lintObs struct {
	Src   string     `json:"src"`
	Err   string     `json:"err"`
	Tree  *Node      `json:"tree"`
	Finds []lintFind `json:"finds"`
	Fixed *Node      `json:"fixed"`
}

// starts lists the positions of all statements in the order of the file.
func starts(q []build.Expr) []build.Position {
	var r []build.Position
	for _, s := range q {
		p, _ := s.Span()
		if _, ok := s.(*build.CommentBlock); ok {
			if a := s.Comment().After; len(a) > 0 {
				p = a[0].Start
			}
		}
		r = append(r, p)
		switch s := s.(type) {
		case *build.DefStmt:
			r = append(r, starts(s.Body)...)
		case *build.ForStmt:
			r = append(r, starts(s.Body)...)
		case *build.IfStmt:
			r = append(r, starts(s.True)...)
			r = append(r, starts(s.False)...)
		}
	}
	return r
}

var wordRe = regexp.MustCompile(`^["']?([A-Za-z_][A-Za-z_0-9]*)`)

func place(src string, st []build.Position, f *warn.Finding) lintFind {
	l := lintFind{Cat: f.Category, Line: f.Start.Line}
	for i, p := range st {
		if p.Line < f.Start.Line || p.Line == f.Start.Line && p.LineRune <= f.Start.LineRune {
			l.S = i + 1
			l.Def = p.Line == f.Start.Line && p.LineRune == f.Start.LineRune
		}
	}
	lines := strings.Split(src, "\n")
	if f.Start.Line < 1 || f.Start.Line > len(lines) {
		return l
	}
	line := lines[f.Start.Line-1]
	if f.Start.LineRune < 1 || f.Start.LineRune > len(line)+1 || f.End.Line < f.Start.Line {
		return l
	}
	l.OK = true
	if m := wordRe.FindStringSubmatch(line[f.Start.LineRune-1:]); m != nil {
		l.W = m[1]
	}
	return l
}

// nameOf replaces "def" by the name of the function.
func defName(src string, f *warn.Finding) string {
	line := strings.Split(src, "\n")[f.Start.Line-1]
	m := regexp.MustCompile(`^def\s+([A-Za-z_0-9]+)`).FindStringSubmatch(line[f.Start.LineRune-1:])
	if m == nil {
		return ""
	}
	return m[1]
}

func execLint(cats ...string) func(in json.RawMessage) (interface{}, error) {
	return func(in json.RawMessage) (interface{}, error) {
		var c lintCase
		if err := json.Unmarshal(in, &c); err != nil {
			return nil, err
		}
		o := &lintObs{Src: renderFile(c.Tree, c.Lay), Finds: []lintFind{}, Tree: mk("none", ""), Fixed: mk("none", "")}
		f, err := parseAs(c.Typ, "p/FILE", []byte(o.Src))
		if err != nil {
			o.Err = err.Error()
			return o, nil
		}
		opts := projOpts{comments: true}
		o.Tree = fileTree(f, opts)
		st := starts(f.Stmt)
		for _, w := range warn.FileWarnings(f, cats, nil, warn.ModeWarn, nil) {
			l := place(o.Src, st, w)
			if l.OK && l.W == "def" {
				l.W = defName(o.Src, w)
			} else if w.Category == "unused-variable" {
				l.Def = false
			}
			o.Finds = append(o.Finds, l)
		}
		for _, x := range cats {
			if x == "load" {
				f2, _ := parseAs(c.Typ, "p/FILE", []byte(o.Src))
				warn.FixWarnings(f2, []string{"load"}, false, nil)
				f3, err := parseAs(c.Typ, "p/FILE", build.FormatWithoutRewriting(f2))
				if err != nil {
					o.Fixed = mk("broken", err.Error())
				} else {
					o.Fixed = fileTree(f3, opts)
				}
			}
		}
		return o, nil
	}
}

type lintGen struct {
	r      *rand.Rand
	vars   []string
	marks  bool
	names  bool // for the unused-name lints
	loaded []string
	uniq   int
	nocb   bool // no comment blocks
}

func (g *lintGen) p(n int) bool { return g.r.Intn(n) == 0 }
func (g *lintGen) v() string    { return g.vars[g.r.Intn(len(g.vars))] }
func (g *lintGen) expr(d int) *Node {
	if d <= 0 {
		switch g.r.Intn(6) {
		case 0:
			return mk("num", "1")
		case 1:
			return mk("str", g.v())
		}
		return mk("id", g.v())
	}
	switch g.r.Intn(14) {
	case 0:
		return mk("bin", "+", g.expr(d-1), g.expr(d-1))
	case 1:
		return mk("call", "", mk("id", g.v()), g.expr(d-1), mk("asg", "=", mk("id", g.v()), g.expr(d-1)))
	case 2:
		return mk("list", "", g.expr(d-1), g.expr(d-1))
	case 3:
		return mk("index", "", g.expr(d-1), g.expr(d-1))
	case 4:
		return mk("dot", g.v(), g.expr(d-1))
	case 5, 6:
		cl := mk("comp", "[", g.expr(d-1))
		if g.p(3) {
			cl.V = "{"
			cl.K[0] = mk("kv", "", g.expr(d-1), g.expr(d-1))
		}
		for i := 1 + g.r.Intn(2); i > 0; i-- {
			cl.K = append(cl.K, mk("forc", "", g.target(g.p(3), true), g.expr(d-1)))
			if g.p(3) {
				cl.K = append(cl.K, mk("ifc", "", g.expr(d-1)))
			}
		}
		return cl
	case 7:
		l := mk("lambda", "", mk("params", ""), mk("block", "", g.expr(d-1)))
		for _, v := range g.some(2) {
			p := mk("id", v)
			if len(l.K[0].K) > 0 && l.K[0].K[len(l.K[0].K)-1].T == "asg" || g.p(3) {
				p = mk("asg", "=", p, g.expr(0))
			}
			l.K[0].K = append(l.K[0].K, p)
		}
		return l
	case 8:
		return mk("cond", "", g.expr(d-1), g.expr(d-1), g.expr(d-1))
	case 9:
		return mk("dict", "", mk("kv", "", g.expr(d-1), g.expr(d-1)))
	case 10:
		return mk("un", "not", g.expr(d-1))
	}
	return g.expr(0)
}

// some picks up to n different variables.
func (g *lintGen) some(n int) []string {
	perm := g.r.Perm(len(g.vars))
	var r []string
	for i := g.r.Intn(n + 1); i > 0 && len(perm) > 0; i-- {
		r = append(r, g.vars[perm[0]])
		perm = perm[1:]
	}
	return r
}

func (g *lintGen) target(tuple, comp bool) *Node {
	if !tuple {
		if !comp && g.p(8) {
			return mk("index", "", mk("id", g.v()), g.expr(0))
		}
		if !comp && g.p(12) {
			return mk("dot", "a", mk("id", g.v()))
		}
		return mk("id", g.v())
	}
	perm := g.r.Perm(len(g.vars))
	t := mk("tuple", "")
	if g.p(3) {
		t.T = "list"
	}
	for i := 0; i < 2; i++ {
		t.K = append(t.K, mk("id", g.vars[perm[i]]))
	}
	if g.p(5) && len(perm) > 2 {
		t.K[1] = mk("tuple", "", t.K[1], mk("id", g.vars[perm[2]]))
	}
	return t
}

func (g *lintGen) mark(n *Node) *Node {
	if g.marks && g.p(6) {
		x := []string{"# @unused", "# keep @Unused here", "# unused"}[g.r.Intn(3)]
		n.C = append(n.C, []string{"B", "S"}[g.r.Intn(2)]+x)
	}
	return n
}

func (g *lintGen) block(d int, fn, loop bool, max int) *Node {
	b := mk("block", "")
	for i := 1 + g.r.Intn(max); i > 0; i-- {
		b.K = append(b.K, g.stmt(d, fn, loop))
	}
	if g.p(12) && !g.nocb {
		b.K = append(b.K, NCcomment())
	}
	return b
}

// NCcomment is a stand-alone comment block.
func NCcomment() *Node {
	n := mk("comment", "")
	n.C = []string{"A# note"}
	return n
}

func (g *lintGen) def(d int) *Node {
	ps := mk("params", "")
	perm := g.r.Perm(len(g.vars))
	dflt := false
	for i := g.r.Intn(3); i > 0; i-- {
		p := mk("id", g.vars[perm[0]])
		perm = perm[1:]
		if g.p(12) && g.names {
			p = mk("id", "name")
			if len(ps.K) > 0 {
				break
			}
		}
		if g.names && g.p(6) {
			p = mk("typed", "", p, mk("id", g.typ()))
		}
		if dflt || g.p(3) {
			dflt = true
			p = mk("asg", "=", p, g.expr(1))
		}
		ps.K = append(ps.K, p)
	}
	if g.p(6) {
		ps.K = append(ps.K, mk("un", "*", mk("id", g.vars[perm[0]])))
		perm = perm[1:]
	}
	if g.p(6) && len(perm) > 0 {
		ps.K = append(ps.K, mk("un", "**", mk("id", g.vars[perm[0]])))
	}
	if g.marks {
		for _, p := range ps.K {
			if g.p(5) {
				p.C = append(p.C, []string{"B", "S"}[g.r.Intn(2)]+"# @unused")
			}
		}
	}
	g.uniq++
	name := []string{"f", "g", "_h", "_k"}[g.r.Intn(4)] + strings.Repeat("q", g.uniq%3)
	if g.names && g.p(5) {
		name = g.v()
	}
	ret := mk("none", "")
	if g.names && g.p(8) {
		ret = mk("id", g.typ())
	}
	n := mk("def", name, ps, ret, g.block(d-1, true, false, 4))
	if g.marks && g.p(6) {
		n.C = append(n.C, "B# @unused")
	}
	return n
}

func (g *lintGen) typ() string {
	if len(g.loaded) > 0 && g.p(2) {
		return g.loaded[g.r.Intn(len(g.loaded))]
	}
	return "int"
}

func (g *lintGen) stmt(d int, fn, loop bool) *Node {
	x := g.r.Intn(20)
	switch {
	case x < 3 && d > 0 && fn || x < 2 && d > 0 && g.names:
		n := mk("if", "", g.expr(1), g.block(d-1, fn, loop, 3), mk("block", ""))
		if g.p(2) {
			n.K[2] = g.block(d-1, fn, loop, 3)
		}
		return n
	case x < 5 && d > 0 && fn || x < 3 && d > 0 && g.names:
		return mk("for", "", g.target(g.p(3), false), g.expr(1), g.block(d-1, fn, true, 3))
	case x < 6 && d > 0 && (g.names || g.p(2)):
		return g.def(d)
	case x < 8 && fn:
		if g.p(2) {
			return mk("return", "")
		}
		return mk("return", "", g.expr(1))
	case x < 10 && loop:
		return mk("branch", []string{"break", "continue"}[g.r.Intn(2)])
	case x < 11 && fn:
		return mk("call", "", mk("id", "fail"), g.expr(0))
	case x < 12:
		return mk("branch", "pass")
	case x < 13 && (fn || g.names):
		return g.mark(mk("asg", []string{"+=", "-=", "|="}[g.r.Intn(3)], g.target(false, false), g.expr(1)))
	case x < 17:
		return g.mark(mk("asg", "=", g.target(g.p(3), false), g.expr(2)))
	}
	e := g.expr(2)
	if e.T == "str" || e.T == "tuple" {
		e = mk("call", "", mk("id", "print"), e)
	}
	return e
}

func (g *lintGen) load() *Node {
	l := mk("load", []string{":a.bzl", ":b.bzl"}[g.r.Intn(2)])
	seen := map[string]bool{}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		to := []string{"x", "y", "l1", "l2", "l3", "_l4"}[g.r.Intn(6)]
		if seen[to] {
			continue
		}
		seen[to] = true
		from := to
		if g.p(3) || strings.HasPrefix(to, "_") {
			from = []string{"l1", "z9"}[g.r.Intn(2)]
		}
		s := mk("sym", to, mk("id", from))
		if g.marks && g.p(6) {
			s.C = append(s.C, []string{"B", "S"}[g.r.Intn(2)]+"# @unused")
		}
		g.loaded = append(g.loaded, to)
		l.K = append(l.K, s)
	}
	if g.marks && g.p(8) {
		l.C = append(l.C, "B# @unused")
	}
	return l
}

func genFlow(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		g := &lintGen{r: r, vars: []string{"x", "y", "z"}}
		t := mk("file", ".bzl")
		for j := 1 + r.Intn(2); j > 0; j-- {
			t.K = append(t.K, g.def(3+r.Intn(2)))
		}
		c := lintCase{Typ: ".bzl", Tree: t, Cats: []string{}}
		if r.Intn(2) == 0 {
			c.Lay = -1 - r.Int63n(1<<30)
		}
		emit(c)
	}
}

func genNames(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		g := &lintGen{r: r, vars: []string{"x", "y", "_u", "w"}, names: true, marks: r.Intn(2) == 0}
		typ := []string{".bzl", ".bzl", "default", "BUILD", "WORKSPACE"}[r.Intn(5)]
		t := mk("file", typ)
		if r.Intn(2) == 0 {
			for j := 1 + r.Intn(3); j > 0; j-- {
				t.K = append(t.K, g.load())
			}
			g.vars = append(g.vars, g.loaded...)
			g.vars = uniqStrs(g.vars)
		}
		for j := 1 + r.Intn(4); j > 0; j-- {
			if r.Intn(2) == 0 {
				t.K = append(t.K, g.def(2))
			} else {
				t.K = append(t.K, g.stmt(2, false, false))
			}
		}
		if r.Intn(12) == 0 {
			t.K = append(t.K, g.load())
		}
		c := lintCase{Typ: typ, Tree: t, Cats: []string{}}
		if r.Intn(2) == 0 {
			c.Lay = -1 - r.Int63n(1<<30)
		}
		emit(c)
	}
}

func uniqStrs(q []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range q {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

func init() {
	props["C19"] = &Prop{Gen: genFlow, Exec: execLint("unreachable", "return-value", "uninitialized")}
	props["C20"] = &Prop{Gen: genNames, Exec: execLint("unused-variable", "load")}
}
