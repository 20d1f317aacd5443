package main

import (
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

// The grammar: tokens and lines.

type tok struct {
	T string `json:"t"`
	V string `json:"v"`
}

type gline struct {
	Ind  int   `json:"ind"`
	Ts   []tok `json:"ts"`
	Com  bool  `json:"com"`  // a comment (behind the tokens, or alone)
	Tail bool  `json:"tail"` // spaces at the end
}

type gramCase struct {
	Ts    []tok   `json:"ts"` // one line of tokens with "nl" at the end; or
	Lines []gline `json:"lines"`
	Ws    int64   `json:"ws"`  // seed of the white space; 0: plain
	Eof   int     `json:"eof"` // 1: no final newline; 2: no final newline but spaces
}

type gramObs struct {
	Src   string  `json:"src"`
	Acc   bool    `json:"acc"`
	Err   string  `json:"err"`
	Epos  bool    `json:"epos"`
	Tree  []*Node `json:"tree"`
	Err2  string  `json:"err2"`
	Tree2 []*Node `json:"tree2"` // printed and parsed again
	Err3  string  `json:"err3"`
}

func isWord(s string) bool {
	c := s[0]
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// writeToks writes the tokens of one logical line.
func writeToks(ts []tok, r *rand.Rand) string {
	var b strings.Builder
	depth := 0
	prev := tok{}
	for i, t := range ts {
		if t.T == "nl" {
			continue
		}
		s := t.V
		if t.T == "str" {
			s = "\"" + t.V + "\""
			if r != nil && r.Intn(3) == 0 {
				s = []string{"'" + t.V + "'", "\"\"\"" + t.V + "\"\"\"", "r'" + t.V + "'"}[r.Intn(3)]
			}
		}
		if i > 0 {
			// may the tokens stand next to each other?
			free := false
			p := prev.V
			switch {
			case prev.T == "str":
				free = t.T == "op" && !isWord(t.V)
			case t.T == "str":
				free = prev.T == "op" && !isWord(p)
			case isWord(p) || prev.T == "num":
				free = !isWord(s) && t.T == "op" && !(prev.T == "num" && s[0] == '.')
			default: // punctuation before
				free = isWord(s) && !(p == "." && t.T == "num") && t.T != "num" || t.T == "num" && s[0] != '.' && p != "." || strings.Contains("()[]{},:;", p) || t.T == "op" && strings.Contains("()[]{},:;", s)
			}
			sp := " "
			if free && (r == nil && false || r != nil && r.Intn(2) == 0) {
				sp = ""
			} else if r != nil {
				sp = []string{" ", " ", "  ", "\t"}[r.Intn(4)]
			}
			if r != nil && r.Intn(8) == 0 {
				if depth > 0 {
					sp += []string{"\n", "\n   ", "  # c )\n ", "\n\n", "\n# x\n", "\\\n"}[r.Intn(6)]
				} else {
					sp = " \\\n" + []string{"", " ", "     "}[r.Intn(3)]
				}
			}
			b.WriteString(sp)
		}
		if t.T == "op" {
			switch t.V {
			case "(", "[", "{":
				depth++
			case ")", "]", "}":
				depth--
			}
		}
		b.WriteString(s)
		prev = t
	}
	return b.String()
}

func gramSource(c gramCase) string {
	var r *rand.Rand
	if c.Ws != 0 {
		r = rand.New(rand.NewSource(c.Ws))
	}
	if len(c.Lines) == 0 {
		return writeToks(c.Ts, r) + "\n"
	}
	var b strings.Builder
	for i, l := range c.Lines {
		b.WriteString(strings.Repeat(" ", l.Ind))
		b.WriteString(writeToks(l.Ts, r))
		if l.Com {
			if len(l.Ts) > 0 {
				b.WriteString("  ")
			}
			b.WriteString("# c")
		}
		if l.Tail {
			b.WriteString("  ")
		}
		if i < len(c.Lines)-1 || c.Eof == 0 {
			b.WriteString("\n")
		}
	}
	if c.Eof == 2 {
		b.WriteString("\n   ")
	}
	return b.String()
}

// noComments drops comment blocks.
func noComments(n *Node) *Node {
	k := []*Node{}
	for _, x := range n.K {
		if x.T != "comment" {
			k = append(k, noComments(x))
		}
	}
	n.K = k
	return n
}

func execGram(in json.RawMessage) (interface{}, error) {
	var c gramCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	o := gramObs{Src: gramSource(c), Tree: []*Node{}, Tree2: []*Node{}}
	f, err := build.ParseBzl("x.bzl", []byte(o.Src))
	// the kind of file makes no difference to the parser
	f2, err2 := build.ParseBuild("BUILD", []byte(o.Src))
	if (err == nil) != (err2 == nil) {
		o.Err3 = "BUILD and .bzl files are parsed differently"
	}
	if err != nil {
		o.Err = err.Error()
		if pe, ok := err.(build.ParseError); ok {
			o.Epos = pe.Pos.Line >= 1 && pe.Pos.Line <= strings.Count(o.Src, "\n")+2 && pe.Pos.LineRune >= 1 && pe.Pos.Byte >= 0 && pe.Pos.Byte <= len(o.Src)+2
		}
		return o, nil
	}
	o.Acc = true
	o.Tree = noComments(proj0(f, projOpts{})).K
	var text []byte
	if c.Ws%2 == 0 {
		text = build.FormatWithoutRewriting(f)
	} else {
		text = build.FormatWithoutRewriting(f2)
	}
	g, err := build.ParseBzl("x.bzl", text)
	if err != nil {
		o.Err2 = err.Error() + "\n" + string(text)
		return o, nil
	}
	o.Tree2 = noComments(proj0(g, projOpts{})).K
	return o, nil
}

type tgen struct {
	r  *rand.Rand
	ts []tok
}

func (g *tgen) p(n int) bool { return g.r.Intn(n) == 0 }
func (g *tgen) op(s ...string) {
	for _, x := range s {
		g.ts = append(g.ts, tok{"op", x})
	}
}
func (g *tgen) id() {
	g.ts = append(g.ts, tok{"id", []string{"a", "b", "foo", "_x", "r", "e1", "isx", "Not"}[g.r.Intn(8)]})
}
func (g *tgen) str() {
	g.ts = append(g.ts, tok{"str", []string{"s", "", "#", "(", "a b"}[g.r.Intn(5)]})
}
func (g *tgen) num() {
	g.ts = append(g.ts, tok{"num", []string{"0", "1", "42", "0x1e", "0xE", "0o17", "1.5", "1e3", "1E-3", "2.", "0.5e+3", "12e+4", ".5"}[g.r.Intn(13)]})
}

var binOps = []string{"or", "and", "==", "!=", "<", ">", "<=", ">=", "in", "not in", "|", "^", "&", "<<", ">>", "+", "-", "*", "/", "//", "%"}

func (g *tgen) seq(d, max int, f func(int)) {
	for i := g.r.Intn(max + 1); i > 0; i-- {
		f(d)
		if i > 1 || g.p(4) {
			g.op(",")
		}
	}
}

func (g *tgen) test(d int) {
	if d <= 0 {
		switch g.r.Intn(6) {
		case 0:
			g.str()
		case 1:
			g.num()
		default:
			g.id()
		}
		return
	}
	if g.p(9) {
		g.op("(")
		g.test(d - 1)
		g.op(")")
		return
	}
	switch x := g.r.Intn(30); {
	case x < 10:
		g.test(d - 1)
		o := binOps[g.r.Intn(len(binOps))]
		if o == "not in" {
			g.op("not", "in")
		} else {
			g.op(o)
		}
		g.test(d - 1)
	case x < 13:
		g.op([]string{"-", "+", "~", "not"}[g.r.Intn(4)])
		g.test(d - 1)
	case x < 15:
		g.test(d - 1)
		g.op("if")
		g.test(d - 1)
		g.op("else")
		g.test(d - 1)
	case x < 16:
		g.op("lambda")
		g.params(d-1, false)
		g.op(":")
		g.test(d - 1)
	case x < 18:
		g.primary(d)
		g.op(".")
		g.id()
	case x < 21:
		g.primary(d)
		g.op("(")
		g.seq(d-1, 3, g.arg)
		g.op(")")
	case x < 22:
		g.primary(d)
		g.op("[")
		g.expr(d - 1)
		g.op("]")
	case x < 23:
		g.primary(d)
		g.op("[")
		if g.p(2) {
			g.test(d - 1)
		}
		g.op(":")
		if g.p(2) {
			g.test(d - 1)
		}
		if g.p(2) {
			g.op(":")
			if g.p(2) {
				g.test(d - 1)
			}
		}
		g.op("]")
	case x < 25:
		b := [][2]string{{"[", "]"}, {"(", ")"}, {"{", "}"}}[g.r.Intn(3)]
		g.op(b[0])
		g.seq(d-1, 3, g.test)
		g.op(b[1])
	case x < 26:
		g.op("{")
		g.seq(d-1, 2, g.entry)
		g.op("}")
	case x < 28:
		b := [][2]string{{"[", "]"}, {"{", "}"}}[g.r.Intn(2)]
		g.op(b[0])
		if b[0] == "[" {
			g.test(d - 1)
		} else {
			g.entry(d - 1)
		}
		g.op("for")
		g.vars(d - 1)
		g.op("in")
		g.test(d - 1)
		for g.p(3) {
			if g.p(2) {
				g.op("if")
				g.test(d - 1)
			} else {
				g.op("for")
				g.vars(d - 1)
				g.op("in")
				g.test(d - 1)
			}
		}
		g.op(b[1])
	default:
		g.test(0)
	}
}

func (g *tgen) primary(d int) {
	if g.p(3) && d > 0 {
		g.op("(")
		g.test(d - 1)
		g.op(")")
		return
	}
	g.id()
}

func (g *tgen) entry(d int) {
	g.test(d)
	g.op(":")
	g.test(d)
}

func (g *tgen) arg(d int) {
	switch g.r.Intn(6) {
	case 0, 1:
		g.id()
		g.op("=")
	case 2:
		g.op([]string{"*", "**"}[g.r.Intn(2)])
	}
	g.test(d)
}

func (g *tgen) params(d int, ty bool) {
	g.seq(d, 3, func(d int) {
		typ := func() {
			if ty && g.p(4) {
				g.op(":")
				g.test(d - 1)
			}
		}
		switch g.r.Intn(7) {
		case 0:
			g.op("*")
			if g.p(2) {
				g.id()
				typ()
			}
		case 1:
			g.op("**")
			g.id()
			typ()
		case 2, 3:
			g.id()
			typ()
			g.op("=")
			g.test(d)
		default:
			g.id()
			typ()
		}
	})
}

func (g *tgen) vars(d int) {
	g.primary(0)
	for g.p(3) {
		g.op(",")
		g.primary(0)
	}
}

func (g *tgen) expr(d int) {
	g.test(d)
	for g.p(5) {
		g.op(",")
		g.test(d - 1)
	}
}

func (g *tgen) small(d int) {
	switch x := g.r.Intn(14); {
	case x < 1:
		g.op([]string{"pass", "break", "continue"}[g.r.Intn(3)])
	case x < 2:
		g.op("return")
		if g.p(2) {
			g.expr(d)
		}
	case x < 3:
		g.op("load", "(")
		g.str()
		for g.p(2) || g.ts[len(g.ts)-2].V == "load" || g.ts[len(g.ts)-1].T == "str" && g.ts[len(g.ts)-2].V == "(" {
			g.op(",")
			if g.p(3) {
				g.id()
				g.op("=")
			}
			g.str()
		}
		if g.p(4) {
			g.op(",")
		}
		g.op(")")
	case x < 8:
		g.expr(1)
		g.op([]string{"=", "=", "+=", "-=", "*=", "/=", "//=", "%=", "&=", "|=", "^=", "<<=", ">>="}[g.r.Intn(13)])
		g.expr(d)
	default:
		g.expr(d)
	}
}

func (g *tgen) smalls(d int) {
	g.small(d)
	for g.p(6) {
		g.op(";")
		g.small(d - 1)
	}
	if g.p(12) {
		g.op(";")
	}
}

func (g *tgen) header(d int, k string) {
	switch k {
	case "def":
		g.op("def")
		g.id()
		g.op("(")
		g.params(d, true)
		g.op(")")
		if g.p(5) {
			g.op("->")
			g.test(1)
		}
	case "for":
		g.op("for")
		g.vars(d)
		g.op("in")
		g.expr(d)
	case "else":
		g.op("else")
	default:
		g.op(k)
		g.expr(d)
	}
	g.op(":")
}

// mutate changes some tokens.
func (g *tgen) mutate() {
	for n := 1 + g.r.Intn(2); n > 0 && len(g.ts) > 0; n-- {
		i := g.r.Intn(len(g.ts))
		junk := tok{"op", []string{"(", ")", "[", "]", "{", "}", ",", ":", "=", "+", "-", "*", "**", "not", "in", "if", "else", "for", "lambda", ".", "==", "and", ";", "return", "pass", "def", "load", "->", "~", "+="}[g.r.Intn(30)]}
		if g.p(4) {
			junk = tok{"id", "z"}
		} else if g.p(8) {
			junk = tok{"str", "j"}
		}
		switch g.r.Intn(4) {
		case 0:
			g.ts = append(g.ts[:i:i], g.ts[i+1:]...)
		case 1:
			g.ts = append(g.ts[:i:i], append([]tok{junk}, g.ts[i:]...)...)
		case 2:
			g.ts[i] = junk
		default:
			j := g.r.Intn(len(g.ts))
			g.ts[i], g.ts[j] = g.ts[j], g.ts[i]
		}
	}
}

func genGram(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		g := &tgen{r: r}
		d := 1 + r.Intn(4)
		if g.p(8) {
			g.header(d, []string{"def", "for", "if"}[r.Intn(3)])
		}
		g.smalls(d)
		if g.p(3) {
			g.mutate()
		}
		if len(g.ts) > 60 || len(g.ts) == 0 {
			continue
		}
		emit(gramCase{Ts: append(g.ts, tok{"nl", ""}), Lines: []gline{}, Ws: r.Int63n(1<<30) * int64(r.Intn(4)) / 3})
	}
}

// genLines makes files that are mostly well indented.
func genLines(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		var ls []gline
		line := func(ind int, f func(g *tgen)) {
			g := &tgen{r: r}
			f(g)
			ls = append(ls, gline{Ind: ind, Ts: g.ts, Com: g.p(8), Tail: g.p(8)})
		}
		noise := func() {
			for r.Intn(5) == 0 {
				ls = append(ls, gline{Ind: r.Intn(9), Ts: []tok{}, Com: r.Intn(2) == 0})
			}
		}
		var block func(ind, d int)
		suite := func(ind, d int, k string) {
			if r.Intn(5) == 0 {
				line(ind, func(g *tgen) { g.header(1, k); g.smalls(1) })
				return
			}
			line(ind, func(g *tgen) { g.header(1, k) })
			block(ind+1+r.Intn(4), d-1)
		}
		block = func(ind, d int) {
			for j := 1 + r.Intn(3); j > 0; j-- {
				noise()
				if d <= 0 || r.Intn(2) == 0 {
					line(ind, func(g *tgen) { g.smalls(1) })
					continue
				}
				switch r.Intn(3) {
				case 0:
					suite(ind, d, "def")
				case 1:
					suite(ind, d, "for")
				default:
					suite(ind, d, "if")
					for r.Intn(3) == 0 {
						noise()
						suite(ind, d, "elif")
					}
					if r.Intn(2) == 0 {
						noise()
						suite(ind, d, "else")
					}
				}
			}
		}
		block(0, 1+r.Intn(3))
		noise()
		for r.Intn(2) == 0 && len(ls) > 0 { // disturb
			j := r.Intn(len(ls))
			switch r.Intn(3) {
			case 0:
				ls[j].Ind = r.Intn(8)
			case 1:
				ls = append(ls[:j:j], ls[j+1:]...)
			default:
				k := r.Intn(len(ls))
				ls[j], ls[k] = ls[k], ls[j]
			}
		}
		if len(ls) == 0 || len(ls) > 30 {
			continue
		}
		emit(gramCase{Ts: []tok{}, Lines: ls, Ws: r.Int63n(1<<30) * int64(r.Intn(3)) / 2, Eof: r.Intn(5) / 2})
	}
}

func init() {
	props["C11"] = &Prop{Gen: genGram, Exec: execGram}
	props["C12"] = &Prop{Gen: genLines, Exec: execGram}
}
