package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/bazelbuild/buildtools/build"
)

// Going through trees and the rule view (C30).

type wkOp struct {
	Op   string `json:"op"`
	I    int    `json:"i"`
	Key  string `json:"key"`
	Kind string `json:"kind"`
	Val  *Node  `json:"val"`
}

type wkCase struct {
	How   string `json:"how"` // walk, rule
	API   string `json:"api"`
	Path  string `json:"path"`
	Tree  *Node  `json:"tree"`
	Lay   int64  `json:"lay"`
	Stops []int  `json:"stops"`
	Errs  []int  `json:"errs"`
	Repl  []int  `json:"repl"`
	Ops   []wkOp `json:"ops"`
}

type wkVisit struct {
	T  string `json:"t"`
	V  string `json:"v"`
	Up []int  `json:"up"`
}

type wkObs struct {
	Before  *Node     `json:"before"`
	Visits  []wkVisit `json:"visits"`
	Spans   [][2]int  `json:"spans"`
	After   *Node     `json:"after"`
	Copies  []string  `json:"copies"`
	Results []*Node   `json:"results"`
}

func wkOther(n string) build.Expr {
	id := func(s string) *build.Ident { return &build.Ident{Name: s} }
	str := func(s string) *build.StringExpr { return &build.StringExpr{Value: s} }
	switch n {
	case "id":
		return id("R")
	case "str":
		return str("R")
	case "kv":
		return &build.KeyValueExpr{Key: str("K"), Value: id("V")}
	case "forc":
		return &build.ForClause{Vars: id("A"), X: id("B")}
	case "ifc":
		return &build.IfClause{Cond: id("C")}
	}
	return &build.CallExpr{X: id("f"), List: []build.Expr{str("a"), &build.AssignExpr{LHS: id("b"), Op: "=", RHS: id("c")}}}
}

var wkParens = projOpts{parens: true}

func wkHas(q []int, i int) bool {
	for _, x := range q {
		if x == i {
			return true
		}
	}
	return false
}

func execWalk(in json.RawMessage) (interface{}, error) {
	var c wkCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	f, err := parseAs(c.Tree.V, c.Path, []byte(renderFile(c.Tree, c.Lay)))
	if err != nil {
		return nil, err
	}
	o := wkObs{Before: fileTree(f, wkParens), Visits: []wkVisit{}, Spans: [][2]int{}, Copies: []string{}, Results: []*Node{}}
	if c.How == "rule" {
		for _, op := range c.Ops {
			o.Results = append(o.Results, wkDo(f, op))
		}
		o.After = fileTree(f, wkParens)
		return o, nil
	}
	// where a node has been visited
	at := map[build.Expr]int{f: 0}
	n := 0
	note := func(x build.Expr, stk []build.Expr) int {
		n++
		p := proj0(x, wkParens)
		v := wkVisit{p.T, p.V, []int{}}
		for _, s := range stk {
			i, ok := at[s]
			if !ok {
				i = -1
			}
			v.Up = append(v.Up, i)
		}
		at[x] = n
		o.Visits = append(o.Visits, v)
		if c.API == "Walk" {
			start, end := x.Span()
			o.Spans = append(o.Spans, [2]int{start.Byte, end.Byte})
			y := x.Copy()
			if y == x || !reflect.DeepEqual(x, y) {
				o.Copies = append(o.Copies, fmt.Sprintf("%T", x))
			}
		}
		return n
	}
	edit := func(x build.Expr, stk []build.Expr) build.Expr {
		i := note(x, stk)
		if wkHas(c.Repl, i) {
			p := proj0(x, wkParens)
			r := wkOther(p.T)
			at[r] = i
			return r
		}
		return nil
	}
	stop := func(x build.Expr, stk []build.Expr) error {
		i := note(x, stk)
		if wkHas(c.Stops, i) {
			return &build.StopTraversalError{}
		}
		if wkHas(c.Errs, i) {
			return errors.New("other")
		}
		return nil
	}
	var root build.Expr = f
	switch c.API {
	case "Walk":
		build.Walk(f, func(x build.Expr, stk []build.Expr) { note(x, stk) })
	case "WalkPointers":
		build.WalkPointers(f, func(x *build.Expr, stk []build.Expr) { note(*x, stk) })
	case "WalkInterruptable":
		build.WalkInterruptable(f, stop)
	case "WalkStatements":
		build.WalkStatements(f, stop)
	case "WalkOnce":
		build.WalkOnce(f, func(x *build.Expr) { note(*x, nil) })
	case "Edit":
		root = build.Edit(f, edit)
	case "EditChildren":
		build.EditChildren(f, edit)
	}
	o.After = proj(root, wkParens)
	return o, nil
}

func wkDo(f *build.File, op wkOp) *Node {
	q := func(vs ...string) *Node {
		n := mk("q", "")
		for _, v := range vs {
			n.K = append(n.K, mk("str", v))
		}
		return n
	}
	switch op.Op {
	case "rules":
		n := mk("q", "")
		for _, r := range f.Rules(op.Key) {
			n.K = append(n.K, proj(r.Call, wkParens))
		}
		return n
	case "named":
		if r := f.RuleNamed(op.Key); r != nil {
			return proj(r.Call, wkParens)
		}
		return mk("none", "")
	case "delrules":
		return mk("num", fmt.Sprint(f.DelRules(op.Kind, op.Key)))
	}
	if op.I < 1 || op.I > len(f.Stmt) {
		return mk("none", "")
	}
	call, ok := f.Stmt[op.I-1].(*build.CallExpr)
	if !ok {
		return mk("none", "")
	}
	r := f.Rule(call)
	none := mk("none", "")
	switch op.Op {
	case "kind":
		return mk("str", r.Kind())
	case "setkind":
		r.SetKind(op.Kind)
		return none
	case "name":
		return q(r.Name(), r.ExplicitName())
	case "keys":
		return q(r.AttrKeys()...)
	case "get":
		return proj(r.Attr(op.Key), wkParens)
	case "str":
		return mk("str", r.AttrString(op.Key))
	case "lit":
		return mk("str", r.AttrLiteral(op.Key))
	case "strs":
		s := r.AttrStrings(op.Key)
		if s == nil {
			return none
		}
		n := q(s...)
		n.T = "list"
		return n
	case "set":
		r.SetAttr(op.Key, wkExpr(op.Val))
		return none
	case "del":
		return proj(r.DelAttr(op.Key), wkParens)
	}
	panic("op " + op.Op)
}

// wkExpr builds a value of the kinds the generator uses.
func wkExpr(n *Node) build.Expr {
	switch n.T {
	case "str":
		return &build.StringExpr{Value: n.V}
	case "id":
		return &build.Ident{Name: n.V}
	case "num":
		return &build.LiteralExpr{Token: n.V}
	case "list":
		l := &build.ListExpr{}
		for _, k := range n.K {
			l.List = append(l.List, wkExpr(k))
		}
		return l
	}
	panic("val " + n.T)
}

type wkGen struct{ *gen }

func (g wkGen) wkCase() wkCase {
	g.o.typ = g.pick("BUILD", ".bzl", ".bzl", "default", "MODULE.bazel", "WORKSPACE")
	c := wkCase{How: "walk", Path: g.pick("x/", "x/y/", "", "a.b/") + tbNames[g.o.typ], Lay: g.r.Int63n(1 << 30), Stops: []int{}, Errs: []int{}, Repl: []int{}, Ops: []wkOp{}}
	c.Tree = g.file()
	if len(c.Tree.K) > 6 {
		c.Tree.K = c.Tree.K[:6]
	}
	if g.p(3) {
		c.How = "rule"
		c.Lay = -c.Lay
		key := func() string {
			return g.pick("name", "deps", "srcs", "zeta", "size", genAttrs[g.r.Intn(len(genAttrs))])
		}
		base := "x"
		for i := g.r.Intn(4); i > 0; i-- {
			r := mk("call", "", mk("id", g.pick("cc_library", "package", "r")))
			if g.p(2) {
				r.K[0] = mk("dot", "rule", mk("id", "native"))
			}
			for j := g.r.Intn(4); j > 0; j-- {
				r.K = append(r.K, mk("asg", "=", mk("id", key()), mk("str", g.pick("n", "x", "y", base, ""))))
			}
			at := g.r.Intn(len(c.Tree.K) + 1)
			c.Tree.K = append(c.Tree.K[:at], append([]*Node{r}, c.Tree.K[at:]...)...)
		}
		if c.Tree.V == "default" || c.Tree.V == ".bzl" || g.p(4) {
			c.Tree.K = append(c.Tree.K, mk("asg", "=", mk("id", "v"), mk("list", "", mk("call", "", mk("id", "r"), mk("asg", "=", mk("id", "name"), mk("str", "in"))), mk("call", "", mk("id", "r"), mk("call", "", mk("id", "r"))))))
		}
		for i := 1 + g.r.Intn(8); i > 0; i-- {
			op := wkOp{Op: g.pick("rules", "named", "delrules", "kind", "setkind", "name", "name", "keys", "get", "str", "lit", "strs", "set", "set", "set", "del", "del"), I: 1 + g.r.Intn(len(c.Tree.K)+1), Key: key(), Val: mk("none", "")}
			for k := 0; k < 4; k++ {
				if j := op.I - 1; j < len(c.Tree.K) && c.Tree.K[j].T == "call" {
					break
				}
				op.I = 1 + g.r.Intn(len(c.Tree.K)+1)
			}
			switch op.Op {
			case "rules":
				op.Key = g.pick("", "", "r", "cc_library", "native.rule", "package", "load", "genrule")
			case "named", "delrules":
				op.Key = g.pick("n", "x", "y", "in", "", "n", "x")
				op.Kind = g.pick("", "", "r", "cc_library", "native.rule", "package")
			case "setkind":
				op.Kind = g.pick("r", "a.b", "a.b.c", "package")
			case "set":
				op.Val = []*Node{mk("str", g.pick("n", "x", "y")), mk("id", "X"), mk("num", "7"), mk("list", "", mk("str", "a"), mk("str", "b")), mk("list", ""), mk("list", "", mk("id", "a"))}[g.r.Intn(6)]
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
	c.API = g.pick("Walk", "WalkPointers", "WalkInterruptable", "WalkInterruptable", "WalkStatements", "WalkOnce", "Edit", "Edit", "Edit", "EditChildren")
	some := func(d int) []int {
		q := []int{}
		for i := 1; i < 400; i++ {
			if g.r.Intn(d) == 0 {
				q = append(q, i)
			}
		}
		return q
	}
	switch c.API {
	case "WalkInterruptable":
		c.Stops, c.Errs = some(8), some(8)
	case "WalkStatements":
		c.Stops, c.Errs = some(4), some(4)
	case "Edit", "EditChildren":
		d := 4 + g.r.Intn(20)
		for _, i := range some(d) {
			if i > 1 || g.p(4) {
				c.Repl = append(c.Repl, i)
			}
		}
	}
	return c
}

func init() {
	props["C30"] = &Prop{Gen: func(r *rand.Rand, n int, emit func(interface{})) {
		for i := 0; i < n; i++ {
			emit(wkGen{&gen{r: r, o: genOpts{loads: true}}}.wkCase())
		}
	}, Exec: execWalk}
}
