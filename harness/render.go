package main

import (
	"math/rand"
	"strings"
)

// The renderer writes an abstract tree as Starlark source.  It is independent of the printer under test.

var binPrec = map[string]int{"or": 3, "and": 4, "in": 6, "not in": 6, "<": 6, ">": 6, "==": 6, "!=": 6, "<=": 6, ">=": 6,
	"|": 7, "^": 8, "&": 9, "<<": 10, ">>": 10, "+": 11, "-": 11, "*": 12, "/": 12, "//": 12, "%": 12}

const (
	pAssign = 0
	pTuple  = 0
	pLambda = 1
	pCond   = 2
	pNot    = 5
	pUnary  = 13
	pPost   = 14
	pAtom   = 15
)

func nodePrec(n *Node) int {
	switch n.T {
	case "bin":
		return binPrec[n.V]
	case "un":
		if n.V == "not" {
			return pNot
		}
		return pUnary
	case "cond":
		return pCond
	case "lambda":
		return pLambda
	case "asg":
		return pAssign
	case "call", "dot", "index", "slice":
		return pPost
	}
	return pAtom
}

type rend struct {
	b      strings.Builder
	r      *rand.Rand // nil: plain layout
	depth  int        // bracket nesting
	multi  int        // 0 never break lines in brackets unless needed, 1 random, 2 always
	parens bool       // redundant parentheses around atoms
	build  bool       // the formatter removes redundant parentheses
	susp   []string   // suffix comments waiting for the end of the line
}

func quoteStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"':
			b.WriteString("\\\"")
		case '\\':
			b.WriteString("\\\\")
		case '\n':
			b.WriteString("\\n")
		case '\t':
			b.WriteString("\\t")
		case '\r':
			b.WriteString("\\r")
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// quote writes a literal of the given value, in a random style when the layout is random.
func (w *rend) quote(v string) string {
	if w.r == nil || strings.ContainsAny(v, "\n\t\r") || w.r.Intn(3) > 0 {
		return quoteStr(v)
	}
	esc := func(q byte) string {
		var b strings.Builder
		for i := 0; i < len(v); i++ {
			if v[i] == q || v[i] == '\\' {
				b.WriteByte('\\')
			}
			b.WriteByte(v[i])
		}
		return b.String()
	}
	switch w.r.Intn(4) {
	case 0:
		return "'" + esc('\'') + "'"
	case 1:
		return "\"\"\"" + esc('"') + "\"\"\""
	case 2:
		return "'''" + esc('\'') + "'''"
	}
	if strings.ContainsAny(v, "\"'\\") {
		return quoteStr(v)
	}
	return "r\"" + v + "\""
}

func (w *rend) flushSuffix() {
	for _, c := range w.susp {
		w.b.WriteString("  " + c)
		// only one suffix comment fits on a line
		break
	}
	w.susp = nil
}

func (w *rend) nl(ind int) {
	w.flushSuffix()
	w.b.WriteString("\n" + strings.Repeat(" ", ind))
}

func (w *rend) sp() string {
	if w.r != nil && w.r.Intn(6) == 0 {
		return strings.Repeat(" ", w.r.Intn(3))
	}
	return " "
}

// opt is optional white space.
func (w *rend) opt() string {
	if w.r != nil && w.r.Intn(8) == 0 {
		return " "
	}
	return ""
}

func hasC(n *Node) bool {
	if n == nil {
		return false
	}
	if len(n.C) > 0 {
		return true
	}
	for _, k := range n.K {
		if hasC(k) {
			return true
		}
	}
	return false
}

func (w *rend) before(n *Node, ind int) {
	for _, c := range n.C {
		if c[0] == 'B' {
			w.b.WriteString(c[1:])
			w.nl(ind)
		}
	}
}

func (w *rend) suffix(n *Node) {
	for _, c := range n.C {
		if c[0] == 'S' {
			w.susp = append(w.susp, c[1:])
		}
	}
}

// seq renders a bracketed sequence.
func (w *rend) seq(open, close string, n *Node, items []*Node, ind int, f func(*Node, int), trailing bool, noTrailing bool) {
	w.b.WriteString(open)
	w.depth++
	need := false
	for _, c := range n.C {
		if c[0] == 'E' {
			need = true
		}
	}
	for _, it := range items {
		if hasC(it) {
			need = true
		}
	}
	brk := need
	if !brk && w.r != nil && len(items) > 0 {
		brk = w.multi == 2 || (w.multi == 1 && w.r.Intn(3) == 0)
	}
	if !brk {
		w.b.WriteString(w.opt())
		for i, it := range items {
			if i > 0 {
				w.b.WriteString("," + w.sp())
			}
			f(it, ind)
		}
		if len(items) > 0 && (trailing || (!noTrailing && w.r != nil && w.r.Intn(5) == 0)) {
			w.b.WriteString(",")
		}
		w.b.WriteString(w.opt())
	} else {
		for i, it := range items {
			w.nl(ind + 4)
			w.before(it, ind+4)
			f(it, ind+4)
			if i+1 < len(items) || (!noTrailing && (w.r == nil || w.r.Intn(2) == 0)) || trailing {
				w.b.WriteString(",")
			}
			w.suffix(it)
		}
		for _, c := range n.C {
			if c[0] == 'E' {
				w.nl(ind + 4)
				w.b.WriteString(c[1:])
			}
		}
		w.nl(ind)
	}
	w.depth--
	w.b.WriteString(close)
}

func (w *rend) sub(n *Node, min, ind int) {
	if nodePrec(n) < min || n.T == "asg" || (n.T == "tuple" && n.V == "bare") {
		w.b.WriteString("(")
		w.depth++
		w.ex(n, ind)
		w.depth--
		w.b.WriteString(")")
		return
	}
	w.ex(n, ind)
}

func isStarred(n *Node) bool { return n.T == "un" && (n.V == "*" || n.V == "**") }

// ex renders an expression.
func (w *rend) ex(n *Node, ind int) {
	if w.r != nil && w.parens && len(n.C) == 0 && (n.T == "id" || n.T == "num" || (n.T == "str" && w.build)) && w.r.Intn(25) == 0 {
		w.b.WriteString("(")
		w.parens = false
		w.ex(n, ind)
		w.parens = true
		w.b.WriteString(")")
		return
	}
	switch n.T {
	case "id", "num":
		w.b.WriteString(n.V)
	case "none":
	case "raw":
		w.b.WriteString(n.V)
	case "str":
		w.b.WriteString(w.quote(n.V))
	case "paren":
		w.b.WriteString("(")
		w.depth++
		w.ex(n.K[0], ind)
		w.depth--
		w.b.WriteString(")")
	case "list":
		w.seq("[", "]", n, n.K, ind, func(x *Node, i int) { w.sub(x, pLambda, i) }, false, false)
	case "set":
		w.seq("{", "}", n, n.K, ind, func(x *Node, i int) { w.sub(x, pLambda, i) }, false, false)
	case "tuple":
		w.seq("(", ")", n, n.K, ind, func(x *Node, i int) { w.sub(x, pLambda, i) }, len(n.K) == 1, len(n.K) == 0)
	case "dict":
		w.seq("{", "}", n, n.K, ind, func(x *Node, i int) {
			w.sub(x.K[0], pLambda, i)
			w.b.WriteString(":" + w.sp())
			w.sub(x.K[1], pLambda, i)
		}, false, false)
	case "call":
		w.sub(n.K[0], pPost, ind)
		last := n.K[len(n.K)-1]
		noTrail := len(n.K) == 1 || isStarred(last)
		w.seq("(", ")", n, n.K[1:], ind, func(x *Node, i int) { w.arg(x, i) }, false, noTrail)
	case "dot":
		if n.K[0].T == "num" {
			w.b.WriteString("(" + n.K[0].V + ")")
		} else {
			w.sub(n.K[0], pPost, ind)
		}
		w.b.WriteString("." + n.V)
	case "index":
		w.sub(n.K[0], pPost, ind)
		w.b.WriteString("[")
		w.depth++
		w.sub(n.K[1], pLambda, ind)
		w.depth--
		w.b.WriteString("]")
	case "slice":
		w.sub(n.K[0], pPost, ind)
		w.b.WriteString("[")
		w.depth++
		if n.K[1].T != "none" {
			w.sub(n.K[1], pLambda, ind)
		}
		w.b.WriteString(":")
		if n.K[2].T != "none" {
			w.sub(n.K[2], pLambda, ind)
		}
		if n.V == "2" {
			w.b.WriteString(":")
			if n.K[3].T != "none" {
				w.sub(n.K[3], pLambda, ind)
			}
		}
		w.depth--
		w.b.WriteString("]")
	case "un":
		w.b.WriteString(n.V)
		if len(n.K) == 0 {
			return
		}
		if n.V == "not" {
			w.b.WriteString(" ")
			if n.K[0].T == "un" && n.K[0].V != "not" {
				w.sub(n.K[0], pUnary, ind)
			} else {
				w.sub(n.K[0], pNot, ind)
			}
		} else if n.V == "*" || n.V == "**" {
			w.sub(n.K[0], pLambda, ind)
		} else {
			w.sub(n.K[0], pPost, ind)
		}
	case "bin":
		p := binPrec[n.V]
		w.sub(n.K[0], p, ind)
		w.b.WriteString(" " + n.V)
		if w.depth > 0 && w.r != nil && w.multi > 0 && w.r.Intn(8) == 0 {
			w.nl(ind + 4)
		} else {
			w.b.WriteString(" ")
		}
		w.sub(n.K[1], p+1, ind)
	case "cond":
		w.sub(n.K[0], 3, ind)
		w.b.WriteString(" if ")
		w.sub(n.K[1], 3, ind)
		w.b.WriteString(" else ")
		w.sub(n.K[2], pCond, ind)
	case "lambda":
		w.b.WriteString("lambda")
		for i, p := range n.K[0].K {
			if i > 0 {
				w.b.WriteString(",")
			}
			w.b.WriteString(" ")
			w.param(p, ind)
		}
		w.b.WriteString(": ")
		w.sub(n.K[1].K[0], pLambda, ind)
	case "comp":
		cl := "]"
		if n.V == "{" {
			cl = "}"
		}
		w.b.WriteString(n.V)
		w.depth++
		sep := func() { w.b.WriteString(" ") }
		if w.r != nil && w.multi > 0 && w.r.Intn(3) == 0 {
			sep = func() { w.nl(ind + 4) }
			w.nl(ind + 4)
		}
		b := n.K[0]
		if b.T == "kv" {
			w.sub(b.K[0], pLambda, ind)
			w.b.WriteString(": ")
			w.sub(b.K[1], pLambda, ind)
		} else {
			w.sub(b, pLambda, ind)
		}
		for _, c := range n.K[1:] {
			sep()
			if c.T == "forc" {
				w.b.WriteString("for ")
				w.vars(c.K[0], ind)
				w.b.WriteString(" in ")
				w.sub(c.K[1], 3, ind)
			} else {
				w.b.WriteString("if ")
				w.sub(c.K[0], 3, ind)
			}
		}
		w.depth--
		w.b.WriteString(cl)
	case "kv":
		w.sub(n.K[0], pLambda, ind)
		w.b.WriteString(": ")
		w.sub(n.K[1], pLambda, ind)
	case "asg":
		w.bare(n.K[0], func(x *Node) { w.stmtExpr(x, ind) })
		w.b.WriteString(" " + n.V + " ")
		w.stmtExpr(n.K[1], ind)
	default:
		panic("render: " + n.T)
	}
}

// vars renders loop variables: a bare tuple is written without parentheses.
func (w *rend) vars(n *Node, ind int) {
	if n.T == "tuple" && len(n.K) > 1 {
		for i, k := range n.K {
			if i > 0 {
				w.b.WriteString(", ")
			}
			w.sub(k, pPost, ind)
		}
		return
	}
	w.sub(n, pPost, ind)
}

func (w *rend) arg(x *Node, i int) {
	if x.T == "asg" {
		w.bare(x.K[0], func(x *Node) { w.ex(x, i) })
		if w.r != nil && w.r.Intn(4) == 0 {
			w.b.WriteString("=")
		} else {
			w.b.WriteString(" = ")
		}
		w.sub(x.K[1], pLambda, i)
		// comments of the value stand on its line
		w.suffix(x.K[1])
		return
	}
	w.sub(x, pLambda, i)
}

// bare renders without redundant parentheses.
func (w *rend) bare(n *Node, f func(*Node)) {
	p := w.parens
	w.parens = false
	f(n)
	w.parens = p
}

func (w *rend) param(p *Node, ind int) {
	switch p.T {
	case "id":
		w.b.WriteString(p.V)
		return
	case "un":
		w.b.WriteString(p.V)
		if len(p.K) > 0 {
			w.param(p.K[0], ind)
		}
		return
	case "asg":
		w.param(p.K[0], ind)
		w.b.WriteString(" = ")
		w.sub(p.K[1], pLambda, ind)
	case "typed":
		w.param(p.K[0], ind)
		w.b.WriteString(": ")
		w.sub(p.K[1], pLambda, ind)
	default:
		w.ex(p, ind)
	}
}

func (w *rend) stmtExpr(n *Node, ind int) {
	if n.T == "tuple" && n.V == "bare" && len(n.K) > 1 {
		for i, k := range n.K {
			if i > 0 {
				w.b.WriteString(", ")
			}
			w.sub(k, pLambda, ind)
		}
		return
	}
	w.sub(n, pLambda, ind)
}

func (w *rend) block(stmts []*Node, ind int) {
	for _, s := range stmts {
		w.stmt(s, ind)
	}
}

func (w *rend) lineEnd() {
	w.flushSuffix()
	w.b.WriteString("\n")
}

// stmt renders a statement, with its comments.
func (w *rend) stmt(n *Node, ind int) {
	pad := strings.Repeat(" ", ind)
	for _, c := range n.C {
		if c[0] == 'B' {
			w.b.WriteString(pad + c[1:] + "\n")
		}
	}
	if n.T == "comment" {
		for _, c := range n.C {
			if c[0] == 'A' {
				w.b.WriteString(pad + c[1:] + "\n")
			}
		}
		w.b.WriteString("\n")
		return
	}
	w.b.WriteString(pad)
	switch n.T {
	case "branch":
		w.b.WriteString(n.V)
		w.suffix(n)
		w.lineEnd()
	case "return":
		w.b.WriteString("return")
		if len(n.K) > 0 {
			w.b.WriteString(" ")
			w.stmtExpr(n.K[0], ind)
		}
		w.suffix(n)
		w.lineEnd()
	case "load":
		w.b.WriteString("load")
		items := []*Node{mk("str", n.V)}
		for _, s := range n.K {
			var a *Node
			if s.K[0].V == s.V {
				a = mk("str", s.V)
			} else {
				a = mk("asg", "=", mk("id", s.V), mk("str", s.K[0].V))
			}
			a.C = s.C
			items = append(items, a)
		}
		w.bare(n, func(n *Node) { w.seq("(", ")", n, items, ind, func(x *Node, i int) { w.arg(x, i) }, false, false) })
		w.suffix(n)
		w.lineEnd()
	case "def":
		w.b.WriteString("def " + n.V + "(")
		w.depth++
		multi := false
		for _, p := range n.K[0].K {
			multi = multi || len(p.C) > 0
		}
		for i, p := range n.K[0].K {
			if multi {
				w.b.WriteString("\n")
				for _, c := range p.C {
					if c[0] == 'B' {
						w.b.WriteString(pad + "        " + c[1:] + "\n")
					}
				}
				w.b.WriteString(pad + "        ")
				w.param(p, ind)
				w.b.WriteString(",")
				for _, c := range p.C {
					if c[0] == 'S' {
						w.b.WriteString("  " + c[1:])
					}
				}
				continue
			}
			if i > 0 {
				w.b.WriteString(", ")
			}
			w.param(p, ind)
		}
		if multi {
			w.b.WriteString("\n" + pad)
		}
		w.depth--
		w.b.WriteString(")")
		if n.K[1].T != "none" {
			w.b.WriteString(" -> ")
			w.sub(n.K[1], pLambda, ind)
		}
		w.b.WriteString(":")
		w.suffix(n)
		w.lineEnd()
		w.block(n.K[2].K, ind+4)
	case "for":
		w.b.WriteString("for ")
		w.vars(n.K[0], ind)
		w.b.WriteString(" in ")
		w.stmtExpr(n.K[1], ind)
		w.b.WriteString(":")
		w.suffix(n)
		w.lineEnd()
		w.block(n.K[2].K, ind+4)
	case "if":
		w.b.WriteString("if ")
		w.sub(n.K[0], pLambda, ind)
		w.b.WriteString(":")
		w.suffix(n)
		w.lineEnd()
		w.block(n.K[1].K, ind+4)
		els := n.K[2]
		if len(els.K) == 1 && els.K[0].T == "if" && len(els.K[0].C) == 0 && len(els.C) == 0 && (w.r == nil || w.r.Intn(4) > 0) {
			w.b.WriteString(pad + "el")
			s := w.b.Len()
			w.stmt(els.K[0], ind)
			// drop the padding the nested statement wrote
			str := w.b.String()
			w.b.Reset()
			w.b.WriteString(str[:s] + str[s+ind:])
		} else if len(els.K) > 0 {
			w.b.WriteString(pad + "else:")
			for _, c := range els.C {
				if c[0] == 'S' {
					w.susp = append(w.susp, c[1:])
				}
			}
			w.lineEnd()
			w.block(els.K, ind+4)
		}
	case "asg":
		w.ex(n, ind)
		w.suffix(n)
		w.lineEnd()
	case "str":
		w.b.WriteString(w.quote(n.V))
		w.suffix(n)
		w.lineEnd()
	default:
		w.stmtExpr(n, ind)
		w.suffix(n)
		w.lineEnd()
	}
	for _, c := range n.C {
		if c[0] == 'A' {
			w.b.WriteString(pad + c[1:] + "\n")
		}
	}
}

// renderFile writes a file tree; lay selects the layout (0 = plain).
func renderFile(f *Node, lay int64) string {
	w := &rend{}
	noParens := lay < 0
	if noParens {
		lay = -lay
	}
	if lay != 0 {
		w.r = rand.New(rand.NewSource(lay))
		w.build = f.V == "BUILD" || f.V == "WORKSPACE" || f.V == "MODULE.bazel"
		w.multi = w.r.Intn(3)
		w.parens = w.r.Intn(3) == 0 && !noParens
	}
	for _, c := range f.C {
		if c[0] == 'B' {
			w.b.WriteString(c[1:] + "\n")
		}
	}
	for i, s := range f.K {
		if i > 0 && (w.r == nil || s.T == "comment" || w.r.Intn(3) > 0) {
			w.b.WriteString("\n")
		}
		w.stmt(s, 0)
	}
	first := true
	for _, c := range f.C {
		if c[0] == 'A' {
			if first {
				w.b.WriteString("\n")
				first = false
			}
			w.b.WriteString(c[1:] + "\n")
		}
	}
	return w.b.String()
}
