package main

import (
	"fmt"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

// Node is the abstract syntax tree shared with the specifications:
// t = kind, v = value, k = children, c = attached comments ("B..." before, "S..." suffix, "A..." after, "E..." before the closing bracket).
type Node struct {
	T string   `json:"t"`
	V string   `json:"v"`
	K []*Node  `json:"k"`
	C []string `json:"c"`
}

func mk(t, v string, k ...*Node) *Node {
	if k == nil {
		k = []*Node{}
	}
	return &Node{T: t, V: v, K: k, C: []string{}}
}

type projOpts struct {
	comments bool // record comments
	parens   bool // keep parentheses nodes
}

func commentTexts(pre string, cs []build.Comment) []string {
	var r []string
	for _, c := range cs {
		r = append(r, pre+strings.TrimSpace(c.Token))
	}
	return r
}

func proj(e build.Expr, o projOpts) *Node {
	if e == nil {
		return mk("none", "")
	}
	n := proj0(e, o)
	if o.comments {
		c := e.Comment()
		var l []string
		l = append(l, commentTexts("B", c.Before)...)
		l = append(l, commentTexts("S", c.Suffix)...)
		l = append(l, commentTexts("A", c.After)...)
		if p, ok := e.(*build.ParenExpr); ok && !o.parens {
			l = append(l, commentTexts("E", p.End.Before)...)
			n.C = append(append([]string{}, l...), n.C...)
			return n
		}
		n.C = append(n.C, l...)
	}
	if n.C == nil {
		n.C = []string{}
	}
	return n
}

func projs(es []build.Expr, o projOpts) []*Node {
	r := []*Node{}
	for _, e := range es {
		r = append(r, proj(e, o))
	}
	return r
}

func endc(n *Node, end *build.End, o projOpts) *Node {
	if o.comments {
		n.C = append(n.C, commentTexts("E", end.Before)...)
	}
	return n
}

func proj0(e build.Expr, o projOpts) *Node {
	switch e := e.(type) {
	case *build.File:
		return mk("file", e.Type.String(), projs(e.Stmt, o)...)
	case *build.CommentBlock:
		return mk("comment", "")
	case *build.Ident:
		return mk("id", e.Name)
	case *build.LiteralExpr:
		return mk("num", e.Token)
	case *build.StringExpr:
		return mk("str", e.Value)
	case *build.TypedIdent:
		return mk("typed", "", proj(e.Ident, o), proj(e.Type, o))
	case *build.BranchStmt:
		return mk("branch", e.Token)
	case *build.DotExpr:
		return mk("dot", e.Name, proj(e.X, o))
	case *build.IndexExpr:
		return mk("index", "", proj(e.X, o), proj(e.Y, o))
	case *build.SliceExpr:
		v := "1"
		if e.SecondColon.Byte != 0 {
			v = "2"
		}
		return mk("slice", v, proj(e.X, o), proj(e.From, o), proj(e.To, o), proj(e.Step, o))
	case *build.KeyValueExpr:
		return mk("kv", "", proj(e.Key, o), proj(e.Value, o))
	case *build.ParenExpr:
		if o.parens {
			return endc(mk("paren", "", proj(e.X, o)), &e.End, o)
		}
		return proj(e.X, o)
	case *build.UnaryExpr:
		if e.X == nil {
			return mk("un", e.Op)
		}
		return mk("un", e.Op, proj(e.X, o))
	case *build.BinaryExpr:
		return mk("bin", e.Op, proj(e.X, o), proj(e.Y, o))
	case *build.AssignExpr:
		return mk("asg", e.Op, proj(e.LHS, o), proj(e.RHS, o))
	case *build.CallExpr:
		return endc(mk("call", "", append([]*Node{proj(e.X, o)}, projs(e.List, o)...)...), &e.End, o)
	case *build.ListExpr:
		return endc(mk("list", "", projs(e.List, o)...), &e.End, o)
	case *build.SetExpr:
		return endc(mk("set", "", projs(e.List, o)...), &e.End, o)
	case *build.TupleExpr:
		return endc(mk("tuple", "", projs(e.List, o)...), &e.End, o)
	case *build.DictExpr:
		n := mk("dict", "")
		for _, kv := range e.List {
			n.K = append(n.K, proj(kv, o))
		}
		return endc(n, &e.End, o)
	case *build.Comprehension:
		v := "["
		if e.Curly {
			v = "{"
		}
		return endc(mk("comp", v, append([]*Node{proj(e.Body, o)}, projs(e.Clauses, o)...)...), &e.End, o)
	case *build.ForClause:
		return mk("forc", "", proj(e.Vars, o), proj(e.X, o))
	case *build.IfClause:
		return mk("ifc", "", proj(e.Cond, o))
	case *build.ConditionalExpr:
		return mk("cond", "", proj(e.Then, o), proj(e.Test, o), proj(e.Else, o))
	case *build.LambdaExpr:
		return mk("lambda", "", mk("params", "", projs(e.Params, o)...), mk("block", "", projs(e.Body, o)...))
	case *build.LoadStmt:
		n := mk("load", e.Module.Value)
		for i := range e.From {
			s := mk("sym", e.To[i].Name, mk("id", e.From[i].Name))
			if o.comments {
				for _, id := range []*build.Ident{e.To[i], e.From[i]} {
					s.C = append(s.C, commentTexts("B", id.Before)...)
					s.C = append(s.C, commentTexts("S", id.Suffix)...)
					s.C = append(s.C, commentTexts("A", id.After)...)
				}
			}
			n.K = append(n.K, s)
		}
		if o.comments {
			n.C = append(n.C, commentTexts("m", e.Module.Before)...)
			n.C = append(n.C, commentTexts("n", e.Module.Suffix)...)
			n.C = append(n.C, commentTexts("E", e.Rparen.Before)...)
		}
		return n
	case *build.DefStmt:
		n := mk("def", e.Name, mk("params", "", projs(e.Params, o)...), proj(e.Type, o), mk("block", "", projs(e.Body, o)...))
		return n
	case *build.ReturnStmt:
		if e.Result == nil {
			return mk("return", "")
		}
		return mk("return", "", proj(e.Result, o))
	case *build.ForStmt:
		return mk("for", "", proj(e.Vars, o), proj(e.X, o), mk("block", "", projs(e.Body, o)...))
	case *build.IfStmt:
		n := mk("if", "", proj(e.Cond, o), mk("block", "", projs(e.True, o)...), mk("block", "", projs(e.False, o)...))
		if o.comments {
			c := e.ElsePos.Comment()
			n.K[2].C = append(n.K[2].C, commentTexts("B", c.Before)...)
			n.K[2].C = append(n.K[2].C, commentTexts("S", c.Suffix)...)
			n.K[2].C = append(n.K[2].C, commentTexts("A", c.After)...)
		}
		return n
	}
	panic(fmt.Sprintf("proj: unexpected node %T", e))
}

// fileTree is the projection of a file: its statements, with the file-level comments added as c of the file node.
func fileTree(f *build.File, o projOpts) *Node {
	n := proj0(f, o)
	if o.comments {
		n.C = append(n.C, commentTexts("B", f.Before)...)
		n.C = append(n.C, commentTexts("S", f.Suffix)...)
		n.C = append(n.C, commentTexts("A", f.After)...)
	}
	return n
}
