package main

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
)

// Suppression comments: findings with and without them, and the comments of every node with the lines of the node.

type supCase struct {
	Typ  string    `json:"typ"`
	Src  string    `json:"src"`
	Cats []string  `json:"cats"`
	Has  bool      `json:"has"`  // whether exp is given
	Exp  []supFind `json:"exp"`  // expected findings (category and line), from the model
	Fix  []string  `json:"fix"`  // categories to fix
	Rest []supFind `json:"rest"` // only used in observations
}

type supFind struct {
	Cat  string `json:"cat"`
	Line int    `json:"line"`
}

type supFull struct {
	Cat  string `json:"cat"`
	Line int    `json:"line"`
	Col  int    `json:"col"`
	EndL int    `json:"endl"`
	EndC int    `json:"endc"`
	Msg  string `json:"msg"`
}

type supCom struct {
	K string `json:"k"`
	L int    `json:"l"`
	T string `json:"t"`
}

type supNode struct {
	S int      `json:"s"`
	E int      `json:"e"`
	C []supCom `json:"c"`
	// the text of the node and what it parses to, to see that its lines are the right ones
	Self *Node `json:"self"`
	Text *Node `json:"text"`
}

type supObs struct {
	Err   string    `json:"err"`
	Nodes []supNode `json:"nodes"`
	Raw   []supFull `json:"raw"`
	Got   []supFull `json:"got"`
	// findings of the fixed categories after fixing, comments taken away
	Left []supFind `json:"left"`
	Bad  string    `json:"bad"` // the fixed file does not parse
}

var exprType = reflect.TypeOf((*build.Expr)(nil)).Elem()

// allNodes lists every node of a tree, whatever the library's own traversals look at.
func allNodes(f *build.File) []build.Expr {
	var r []build.Expr
	seen := map[interface{}]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if e, ok := v.Interface().(build.Expr); ok {
				r = append(r, e)
			}
			walk(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			if v.CanAddr() && v.Addr().Type().Implements(exprType) && v.Type().Name() == "End" {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(reflect.ValueOf(f))
	return r
}

func supComs(k string, cs []build.Comment) []supCom {
	r := []supCom{}
	for _, c := range cs {
		r = append(r, supCom{k, c.Start.Line, strings.TrimSpace(c.Token)})
	}
	return r
}

// textTree parses the text of a node; nil if that is not possible out of its context.
func textTree(src string, e build.Expr) (self, text *Node) {
	self, text = mk("none", ""), mk("none", "")
	s, t := e.Span()
	if s.Byte < 0 || t.Byte > len(src) || s.Byte > t.Byte {
		return self, mk("broken", "")
	}
	sl := src[s.Byte:t.Byte]
	pre := ""
	switch e.(type) {
	case *build.DefStmt, *build.ForStmt, *build.IfStmt:
		if strings.HasPrefix(sl, "el") || s.LineRune > 1 && strings.Contains(src[strings.LastIndex(src[:s.Byte], "\n")+1:s.Byte], ":") {
			return
		}
		if s.LineRune > 1 {
			pre = "if 1:\n" + strings.Repeat(" ", s.LineRune-1)
		}
		sl += "\n"
	case *build.CallExpr, *build.BinaryExpr, *build.ListExpr, *build.DictExpr, *build.DotExpr, *build.Ident, *build.StringExpr, *build.LiteralExpr, *build.Comprehension, *build.ConditionalExpr, *build.IndexExpr, *build.ParenExpr:
		pre = "(\n"
		sl += "\n)"
	default:
		return
	}
	if _, ok := e.(*build.Ident); ok && strings.ContainsAny(sl, "\"'") {
		return // the symbol of a load
	}
	f, err := build.ParseDefault("x", []byte(pre+sl))
	if err != nil || len(f.Stmt) != 1 {
		return self, mk("broken", sl)
	}
	x := f.Stmt[0]
	if p, ok := x.(*build.ParenExpr); ok && pre == "(\n" {
		x = p.X
	}
	if p, ok := x.(*build.IfStmt); ok && strings.HasPrefix(pre, "if") {
		if len(p.True) != 1 {
			return self, mk("broken", sl)
		}
		x = p.True[0]
	}
	return proj(e, projOpts{}), proj(x, projOpts{})
}

var neutral = strings.NewReplacer("disable=", "disabl3=", "DISABLE=", "DISABL3=")

func fullFinds(ws []*warn.Finding) []supFull {
	r := []supFull{}
	for _, w := range ws {
		r = append(r, supFull{w.Category, w.Start.Line, w.Start.LineRune, w.End.Line, w.End.LineRune, w.Message})
	}
	return r
}

func execSup(in json.RawMessage) (interface{}, error) {
	var c supCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	o := &supObs{Nodes: []supNode{}, Raw: []supFull{}, Got: []supFull{}, Left: []supFind{}}
	f, err := parseAs(c.Typ, "p/FILE", []byte(c.Src))
	if err != nil {
		o.Err = err.Error()
		return o, nil
	}
	for _, e := range allNodes(f) {
		cm := e.Comment()
		n := supNode{C: append(append(supComs("B", cm.Before), supComs("S", cm.Suffix)...), supComs("A", cm.After)...)}
		if len(n.C) == 0 {
			continue
		}
		s, t := e.Span()
		n.S, n.E = s.Line, t.Line
		n.Self, n.Text = textTree(c.Src, e)
		o.Nodes = append(o.Nodes, n)
	}
	o.Got = fullFinds(warn.FileWarnings(f, c.Cats, nil, warn.ModeWarn, nil))
	plain, err := parseAs(c.Typ, "p/FILE", []byte(neutral.Replace(c.Src)))
	if err != nil {
		return nil, err
	}
	o.Raw = fullFinds(warn.FileWarnings(plain, warn.AllWarnings, nil, warn.ModeWarn, nil))
	warn.FixWarnings(f, c.Fix, false, nil)
	out := build.FormatWithoutRewriting(f)
	fixed, err := parseAs(c.Typ, "p/FILE", []byte(neutral.Replace(string(out))))
	if err != nil {
		o.Bad = err.Error()
		return o, nil
	}
	for _, w := range warn.FileWarnings(fixed, c.Fix, nil, warn.ModeWarn, nil) {
		o.Left = append(o.Left, supFind{w.Category, w.Start.Line})
	}
	return o, nil
}

var supCats = []string{"integer-division", "print", "no-effect", "load", "unused-variable", "string-iteration", "dict-concatenation", "return-value", "unreachable", "uninitialized", "list-append", "constant-glob", "name-conventions", "function-docstring", "depset-iteration", "unsorted-dict-items", "module-docstring", "confusing-name", "redefined-variable"}

// trigger is a statement with a finding.
func (g *lintGen) trigger(fn bool) *Node {
	num := func() *Node { return mk("num", string(rune('1'+g.r.Intn(9)))) }
	div := func() *Node { return mk("bin", "/", num(), num()) }
	call := func(f string, a ...*Node) *Node { return mk("call", "", append([]*Node{mk("id", f)}, a...)...) }
	switch g.r.Intn(11) {
	case 0, 1:
		return mk("asg", "=", mk("id", g.v()), div())
	case 2, 3:
		return call("print", div(), g.expr(1))
	case 4:
		return mk("id", g.v())
	case 5:
		return mk("asg", "+=", mk("id", g.v()), mk("list", "", g.expr(0)))
	case 6:
		return mk("asg", "=", mk("id", g.v()), mk("bin", "+", mk("dict", "", mk("kv", "", mk("str", "b"), div()), mk("kv", "", mk("str", "a"), num())), mk("dict", "")))
	case 7:
		return call("glob", mk("list", "", mk("str", "a")))
	case 8:
		return mk("asg", "=", mk("id", "CamelCase"), mk("comp", "[", mk("id", "l"), mk("forc", "", mk("id", "l"), call("depset", mk("list", "", num())))))
	case 9:
		return call("f", mk("list", "", div(), div(), call("print", div())), mk("asg", "=", mk("id", "k"), div()))
	}
	return g.stmt(1, fn, false)
}

func genSup(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		g := &lintGen{r: r, vars: []string{"x", "y", "z"}, names: true, nocb: true}
		typ := []string{".bzl", ".bzl", "default", "BUILD"}[r.Intn(4)]
		t := mk("file", typ)
		for j := r.Intn(3); j > 0; j-- {
			t.K = append(t.K, g.load())
		}
		for j := 1 + r.Intn(3); j > 0; j-- {
			switch r.Intn(3) {
			case 0:
				t.K = append(t.K, g.trigger(false))
			case 1:
				t.K = append(t.K, g.def(2))
			default:
				b := mk("block", "")
				for k := 1 + r.Intn(3); k > 0; k-- {
					s := g.trigger(true)
					if r.Intn(3) == 0 {
						s = mk("if", "", mk("bin", "/", mk("num", "6"), mk("num", "3")), mk("block", "", s, g.trigger(true)), mk("block", ""))
					}
					if r.Intn(4) == 0 {
						s = mk("for", "", mk("id", "i"), mk("str", "abc"), mk("block", "", s))
					}
					b.K = append(b.K, s)
				}
				t.K = append(t.K, mk("def", "f", mk("params", ""), mk("none", ""), b))
			}
		}
		lay := int64(0)
		if r.Intn(2) == 0 {
			lay = -1 - r.Int63n(1<<30)
		}
		src := renderFile(t, lay)
		f0, err := parseAs(typ, "p/FILE", []byte(src))
		if err != nil {
			continue
		}
		t0, _ := json.Marshal(fileTree(f0, projOpts{}))
		c := supCase{Typ: typ, Exp: []supFind{}, Rest: []supFind{}, Cats: []string{}, Fix: []string{}}
		for k := 1 + r.Intn(4); k > 0; k-- {
			lines := strings.Split(src, "\n")
			p := r.Intn(len(lines))
			cat := supCats[r.Intn(len(supCats))]
			text := "# buildifier: disable=" + cat
			switch r.Intn(12) {
			case 0:
				text = "# buildozer: disable=" + cat
			case 1:
				text = "# some text, buildifier: disable=" + cat + " because"
			case 2:
				text = "# BUILDIFIER: disable=" + strings.ToUpper(cat)
			case 3:
				text = "# buildifier: disable=" + cat + []string{"-2", "s", "_x"}[r.Intn(3)]
			case 4:
				text = "# disable=" + cat
			case 5:
				text = "# buildifier: disable=" + cat + " buildifier: disable=" + supCats[r.Intn(len(supCats))]
			}
			if r.Intn(2) == 0 {
				if lines[p] == "" || strings.Contains(lines[p], "#") {
					continue
				}
				lines[p] += "  " + text
			} else {
				ind := lines[p][:len(lines[p])-len(strings.TrimLeft(lines[p], " "))]
				ins := []string{ind + text}
				if r.Intn(6) == 0 {
					ins = append(ins, ind+"# other")
				}
				if r.Intn(8) == 0 {
					ins = append(ins, "")
				}
				lines = append(lines[:p:p], append(ins, lines[p:]...)...)
			}
			s2 := strings.Join(lines, "\n")
			f1, err := parseAs(typ, "p/FILE", []byte(s2))
			if err != nil {
				continue
			}
			f1.Stmt = noBlocks(f1.Stmt)
			if t1, _ := json.Marshal(fileTree(f1, projOpts{})); string(t1) != string(t0) {
				continue
			}
			src = s2
		}
		c.Src = src
		for _, x := range supCats {
			if r.Intn(4) > 0 {
				c.Cats = append(c.Cats, x)
			}
		}
		c.Fix = append(c.Fix, [][]string{{"integer-division"}, {"load"}, {"unsorted-dict-items"}, {"depset-iteration"}}[r.Intn(4)]...)
		emit(c)
	}
}

// noBlocks leaves out comment blocks.
func noBlocks(q []build.Expr) []build.Expr {
	var r []build.Expr
	for _, s := range q {
		if _, ok := s.(*build.CommentBlock); !ok {
			r = append(r, s)
		}
	}
	return r
}

func init() { props["C21"] = &Prop{Gen: genSup, Exec: execSup} }
