package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Random source trees, shared by the formatter properties.

type genOpts struct {
	typ      string // file type as build.FileType.String()
	dirs     bool   // directive comments (keep sorted, do not sort, leave-alone, disable=...)
	comments bool   // ordinary comments on statements, arguments and list elements
	loads    bool
	strs     bool // strings with special characters
	uniq     bool // no two equal strings
	lineDirs bool // directives only on lines of their own
}

type gen struct {
	r  *rand.Rand
	o  genOpts
	nc int // comment counter
	nu int // unique counter
}

func (g *gen) p(n int) bool { return g.r.Intn(n) == 0 }
func (g *gen) pick(s ...string) string {
	return s[g.r.Intn(len(s))]
}

var genAttrs = []string{"name", "srcs", "deps", "hdrs", "visibility", "tags", "data", "size", "testonly", "copts", "args", "out", "outs", "exports", "runtime_deps", "includes", "plugins", "tool", "tools", "src", "cmd", "foo", "alwayslink", "timeout", "implementation", "module_name", "version", "include", "exclude", "configs", "zeta"}

func (g *gen) label() string {
	if g.o.uniq {
		g.nu++
		return g.label0() + fmt.Sprint("u", g.nu)
	}
	return g.label0()
}

func (g *gen) label0() string {
	return g.pick("a", "b", "c", "B", "a.b", "a-b", "a_b", "a1", "a10", "a2", "ab", ":a", ":b", ":c", ":a.b", "//x:y", "//x:z", "//x/y:y", "//x/y", "//x/y:z", "//x", "//x:x", "//:z", "//x:x/y", "//x/y:x/y", "@r//x:x", "@r//:r", "@r//:q", "@r", "@r//x", "@r-1//x:x", "@@r//:r", "//visibility:public", "//x.y:z", "//x-y:z", "//z.bzl:z.bzl", "x/y.cc", "x.cc", "x_y.cc", "", "z:z", "A:a")
}

func (g *gen) strVal() string {
	if g.o.strs && g.p(4) {
		return g.pick("it's", "say \"hi\"", "a\nb", "tab\t.", "back\\slash", "", "#no comment", "'''", "\\n", "é", "%s {x}", "a\\", "\"", "'\"")
	}
	return g.label()
}

func (g *gen) num() *Node {
	return mk("num", g.pick("0", "1", "42", "0x1F", "0o17", "017", "007", "1.5", ".5", "1.", "1.0e5", "1.0E+05", "2.5e-3", "1e5", "0.0e0", "1.5e+0", "1.0e+010", "0b1", "0X1f", "00"))
}

func (g *gen) id() *Node {
	return mk("id", g.pick("x", "y", "z", "foo", "bar", "glob", "native", "ctx", "True", "None", "_priv", "select"))
}

func (g *gen) labelStr() *Node { return mk("str", g.label()) }

func (g *gen) sufDir() string {
	if g.o.lineDirs {
		return "S# note"
	}
	return "S# keep sorted"
}

// listOf is a list of strings mixed with a few other things.
func (g *gen) listOf() *Node {
	if g.o.dirs && g.p(12) {
		return g.chunkedList()
	}
	n := g.r.Intn(6)
	l := mk("list", "")
	for i := 0; i < n; i++ {
		var e *Node
		switch g.r.Intn(14) {
		case 0:
			e = mk("bin", "+", mk("str", g.pick("//x", "//x/y", "//x y")), mk("str", g.pick(":a", ":y", "/b", " b")))
		case 1:
			e = g.id()
		case 2:
			e = mk("bin", "+", g.labelStr(), g.id())
		default:
			e = g.labelStr()
		}
		l.K = append(l.K, e)
	}
	if g.o.dirs && n > 0 && g.p(6) {
		l.K[0].C = append(l.K[0].C, g.pick("B# keep sorted", "B# do not sort", "B# Keep sorted.", "B# DO NOT SORT, please", "S# do not sort", "S# keep sorted"))
		if c := l.K[0].C; g.o.lineDirs && c[0][0] == 'S' {
			c[0] = "B" + c[0][1:]
		}
	}
	if g.o.dirs && n > 1 && g.p(6) {
		l.K[1+g.r.Intn(n-1)].C = append(l.K[1].C[:0:0], g.pick("B# note", "S# note", "B# do not sort", g.sufDir(), "B# buildifier: leave-alone"))
		if g.o.lineDirs && l.K[1].C != nil {
			for _, k := range l.K {
				if len(k.C) > 0 && k.C[0] == "B# buildifier: leave-alone" {
					k.C = []string{"B# note"}
				}
			}
		}
	}
	return l
}

// chunkedList is a list marked "keep sorted" with comments between its chunks.
func (g *gen) chunkedList() *Node {
	l := mk("list", "")
	n := 2 + g.r.Intn(6)
	for i := 0; i < n; i++ {
		e := mk("str", g.pick("a", "b", "c", "//x:y", ":a"))
		if g.p(12) {
			e = g.id()
		}
		if i == 0 && !g.p(4) {
			e.C = append(e.C, g.pick("B# keep sorted", "B# keep sorted", "B# Keep Sorted, please", "B# keep  sorted"))
		} else if g.p(4) {
			e.C = append(e.C, g.pick("B# note", "B#", "B# do not sort", "B#no space", "B## section"))
			if g.p(3) {
				e.C = append(e.C, g.pick("B# more", "B#"))
			}
		}
		l.K = append(l.K, e)
	}
	return l
}

func (g *gen) selectOf() *Node {
	d := mk("dict", "")
	for i := 0; i <= g.r.Intn(3); i++ {
		kv := mk("kv", "", mk("str", g.pick(":cfg", "//c:a", "//c:b", "//conditions:default", "//c:c")+fmt.Sprint(i)), g.attrVal(1))
		if g.o.dirs && g.p(10) {
			kv.C = append(kv.C, g.pick("B# keep sorted", "B# do not sort"))
		}
		d.K = append(d.K, kv)
	}
	return mk("call", "", mk("id", g.pick("select", "select", "select", "my_select")), d)
}

func (g *gen) attrVal(depth int) *Node {
	switch x := g.r.Intn(20); {
	case x < 8 || depth > 2:
		return g.listOf()
	case x < 10:
		return g.selectOf()
	case x < 13:
		return mk("bin", "+", g.attrVal(depth+1), g.attrVal(depth+1))
	case x < 15:
		return g.labelStr()
	case x < 16:
		return mk("bin", "+", mk("bin", "+", mk("str", "//x"), mk("str", "/y")), mk("str", g.pick(":z", ":y", ":z w")))
	case x < 17:
		return mk("call", "", mk("id", "glob"), g.listOf())
	case x < 18:
		return mk("call", "", mk("id", "glob"), mk("asg", "=", mk("id", "include"), g.listOf()), mk("asg", "=", mk("id", "exclude"), g.listOf()))
	default:
		return g.expr(2)
	}
}

func (g *gen) rule() *Node {
	var f *Node
	switch g.r.Intn(8) {
	case 0:
		f = mk("dot", g.pick("cc_library", "rule"), mk("id", "native"))
	case 1:
		f = mk("id", g.pick("genrule", "cc_embed_data", "package_group", "bazel_dep", "module", "archive_override"))
	default:
		f = mk("id", g.pick("cc_library", "cc_binary", "java_library", "py_test", "filegroup", "my_rule"))
	}
	c := mk("call", "", f)
	n := 1 + g.r.Intn(5)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		a := genAttrs[g.r.Intn(len(genAttrs))]
		if seen[a] {
			continue
		}
		seen[a] = true
		v := g.attrVal(0)
		as := mk("asg", "=", mk("id", a), v)
		if g.o.dirs && g.p(10) {
			as.C = append(as.C, g.pick("B# keep sorted", "B# do not sort", "B# buildifier: leave-alone", "B# note"))
		}
		c.K = append(c.K, as)
	}
	if g.p(8) {
		c.K = append(c.K, mk("un", g.pick("*", "**"), g.id()))
	}
	if g.p(8) {
		c.K = append(c.K[:1:1], append([]*Node{g.labelStr()}, c.K[1:]...)...)
	}
	if g.p(10) && len(c.K) > 2 {
		// positional argument after named ones
		i := 1 + g.r.Intn(len(c.K)-1)
		rest := append([]*Node{}, c.K[i:]...)
		c.K = append(append(c.K[:i:i], g.id()), rest...)
	}
	if g.o.dirs && g.p(10) {
		c.C = append(c.C, g.pick("B# buildifier: leave-alone", "B# note", "B# do not sort", "B# keep sorted"))
	}
	return c
}

func (g *gen) exprs(d, max int) []*Node {
	r := []*Node{}
	for i := g.r.Intn(max + 1); i > 0; i-- {
		r = append(r, g.expr(d))
	}
	return r
}

func (g *gen) expr(d int) *Node {
	if d <= 0 {
		switch g.r.Intn(4) {
		case 0:
			return mk("str", g.strVal())
		case 1:
			return g.num()
		default:
			return g.id()
		}
	}
	d--
	switch g.r.Intn(17) {
	case 0:
		return mk("list", "", g.exprs(d, 3)...)
	case 1:
		return mk("tuple", "", g.exprs(d, 3)...)
	case 2:
		n := mk("dict", "")
		for i := g.r.Intn(3); i > 0; i-- {
			n.K = append(n.K, mk("kv", "", g.expr(d), g.expr(d)))
		}
		return n
	case 3, 4:
		return g.callExpr(d)
	case 5:
		return mk("dot", g.pick("a", "b", "attr"), g.expr(d))
	case 6:
		return mk("index", "", g.expr(d), g.expr(d))
	case 7:
		n := mk("slice", g.pick("1", "2"), g.expr(d), mk("none", ""), mk("none", ""), mk("none", ""))
		for i := 1; i < 4; i++ {
			if g.p(2) && (i < 3 || n.V == "2") {
				n.K[i] = g.expr(d)
			}
		}
		return n
	case 8, 9, 10:
		return mk("bin", g.pick("+", "-", "*", "/", "//", "%", "|", "&", "^", "<<", ">>", "and", "or", "==", "!=", "<", ">", "<=", ">=", "in", "not in", "+", "+"), g.expr(d), g.expr(d))
	case 11:
		return mk("un", g.pick("-", "+", "~", "not"), g.expr(d))
	case 12:
		return mk("cond", "", g.expr(d), g.expr(d), g.expr(d))
	case 13:
		ps := mk("params", "")
		for i := g.r.Intn(3); i > 0; i-- {
			ps.K = append(ps.K, g.id())
		}
		return mk("lambda", "", ps, mk("block", "", g.expr(d)))
	case 14:
		n := mk("comp", g.pick("[", "{"), nil)
		if n.V == "{" {
			n.K[0] = mk("kv", "", g.expr(d), g.expr(d))
		} else {
			n.K[0] = g.expr(d)
		}
		n.K = append(n.K, mk("forc", "", g.loopVars(), g.expr(d)))
		for i := g.r.Intn(3); i > 0; i-- {
			if g.p(2) {
				n.K = append(n.K, mk("ifc", "", g.expr(d)))
			} else {
				n.K = append(n.K, mk("forc", "", g.loopVars(), g.expr(d)))
			}
		}
		return n
	case 15:
		if es := g.exprs(d, 3); len(es) > 0 {
			return mk("set", "", es...)
		}
	}
	return g.listOf()
}

func (g *gen) loopVars() *Node {
	if g.p(2) {
		return g.id()
	}
	return mk("tuple", "", g.id(), g.id())
}

func (g *gen) callExpr(d int) *Node {
	c := mk("call", "", g.id())
	if g.p(3) {
		c.K[0] = mk("dot", g.pick("append", "format", "rule"), g.expr(d))
	}
	seen := map[string]bool{}
	for i := g.r.Intn(4); i > 0; i-- {
		switch g.r.Intn(6) {
		case 0, 1:
			a := genAttrs[g.r.Intn(len(genAttrs))]
			if !seen[a] {
				seen[a] = true
				c.K = append(c.K, mk("asg", "=", mk("id", a), g.expr(d)))
			}
		case 2:
			c.K = append(c.K, mk("un", g.pick("*", "**"), g.expr(d)))
		default:
			c.K = append(c.K, g.expr(d))
		}
	}
	return c
}

func (g *gen) load() *Node {
	l := mk("load", g.pick(":a.bzl", ":b.bzl", "b.bzl", "//x:a.bzl", "//x:b.bzl", "//x/y:a.bzl", "//X:a.bzl", "//x-y:a.bzl", "//:a.bzl", "@r//x:a.bzl", "@r//:a.bzl", "@q//x:a.bzl", "@r//y:a.bzl", "//a/b:c.bzl", "//a-b:c.bzl", "//x:B.bzl", "@@r//x:a.bzl", "//X/y:a.bzl", "//x/Y:a.bzl", "//x/y:A.bzl", "@r//X:a.bzl", "@R//x:a.bzl", "//x/y/z:a.bzl", ":A.bzl", "x/a.bzl", "X/a.bzl"))
	for i := 0; i <= g.r.Intn(4); i++ {
		g.nu++
		s := fmt.Sprintf("%s%d", g.pick("s", "S", "_s", "aa", "zz"), g.nu)
		from := s
		if g.p(3) {
			from = g.pick("q", "r", "a") + s
		}
		l.K = append(l.K, mk("sym", s, mk("id", from)))
	}
	if g.o.dirs && g.p(8) {
		l.C = append(l.C, g.pick("B# buildifier: disable=same-origin-load", "B# note", "S# buildifier: disable=same-origin-load", "B# buildifier: disable=load"))
	}
	return l
}

func (g *gen) block(d int, fn, loop bool) *Node {
	b := mk("block", "")
	for i := 0; i <= g.r.Intn(3); i++ {
		b.K = append(b.K, g.stmt(d, fn, loop))
	}
	return b
}

func (g *gen) bareTuple() *Node {
	t := mk("tuple", "bare", g.expr(1), g.expr(1))
	if g.p(2) {
		t.K = append(t.K, g.expr(1))
	}
	return t
}

func (g *gen) rhs() *Node {
	if g.p(6) {
		return g.bareTuple()
	}
	return g.expr(3)
}

func (g *gen) stmt(d int, fn, loop bool) *Node {
	build := g.o.typ == "BUILD" || g.o.typ == "WORKSPACE" || g.o.typ == "MODULE.bazel"
	if build && g.p(2) {
		return g.rule()
	}
	if d > 0 {
		switch g.r.Intn(8) {
		case 0, 1:
			if !fn || g.p(3) {
				return g.def(d)
			}
			return mk("for", "", g.loopVars(), g.rhs(), g.block(d-1, fn, true))
		case 2:
			return mk("for", "", g.loopVars(), g.expr(2), g.block(d-1, fn, true))
		case 3, 4:
			n := mk("if", "", g.expr(2), g.block(d-1, fn, loop), mk("block", ""))
			if g.p(2) {
				n.K[2] = g.block(d-1, fn, loop)
			}
			return n
		}
	}
	switch g.r.Intn(10) {
	case 0:
		if fn {
			if g.p(3) {
				return mk("return", "")
			}
			return mk("return", "", g.rhs())
		}
	case 1:
		if loop {
			return mk("branch", g.pick("break", "continue"))
		}
	case 2:
		if fn {
			return mk("branch", "pass")
		}
	case 3:
		return g.rule()
	case 4:
		return mk("asg", g.pick("+=", "-=", "*=", "/=", "//=", "%=", "|="), g.id(), g.rhs())
	case 5:
		return mk("asg", "=", mk("tuple", "bare", g.id(), g.id()), g.rhs())
	case 6:
		return g.callExpr(2)
	}
	a := mk("asg", "=", g.id(), g.rhs())
	if g.p(2) {
		a.K[1] = g.attrVal(0)
	}
	if g.o.dirs && g.p(8) {
		a.C = append(a.C, g.pick("B# keep sorted", "B# do not sort", "B# buildifier: leave-alone"))
	}
	return a
}

func stripC(n *Node) {
	n.C = []string{}
	for _, k := range n.K {
		stripC(k)
	}
}

func (g *gen) def(d int) *Node {
	ps := mk("params", "")
	for i := g.r.Intn(4); i > 0; i-- {
		p := g.id()
		if g.p(4) {
			p = mk("typed", "", p, g.expr(1))
		}
		if g.p(3) {
			p = mk("asg", "=", p, g.expr(1))
		}
		ps.K = append(ps.K, p)
	}
	if g.p(4) {
		if g.p(2) {
			ps.K = append(ps.K, mk("un", "*", mk("id", "args")))
		} else {
			ps.K = append(ps.K, mk("un", "*"), mk("id", "kwonly"))
		}
	}
	if g.p(4) {
		ps.K = append(ps.K, mk("un", "**", mk("id", "kwargs")))
	}
	ret := mk("none", "")
	if g.p(6) {
		ret = g.expr(1)
	}
	b := g.block(d-1, true, false)
	if g.p(4) {
		b.K = append([]*Node{mk("str", "Docstring.")}, b.K...)
	}
	// comments inside a def line have no stable place
	stripC(ps)
	stripC(ret)
	return mk("def", g.pick("f", "g", "_impl"), ps, ret, b)
}

func (g *gen) file() *Node {
	f := mk("file", g.o.typ)
	n := 1 + g.r.Intn(5)
	if g.p(5) {
		f.K = append(f.K, mk("str", "Module docstring."))
	}
	if g.o.typ == "WORKSPACE" && g.p(2) {
		f.K = append(f.K, mk("call", "", mk("id", "workspace"), mk("asg", "=", mk("id", "name"), mk("str", "w"))))
	}
	for i := 0; i < n; i++ {
		if g.o.loads && g.p(2) {
			f.K = append(f.K, g.load())
			continue
		}
		if g.o.typ == "MODULE.bazel" && g.p(3) {
			c := mk("call", "", mk("id", "use_repo"), mk("id", "ext"))
			for j := g.r.Intn(5); j > 0; j-- {
				c.K = append(c.K, mk("str", g.pick("a", "b", "c", "a.b", "a-b", "a_b", "z")))
			}
			for j, m := range []string{"zz", "kk"} {
				if g.p(3) {
					c.K = append(c.K, mk("asg", "=", mk("id", m), mk("str", fmt.Sprint("v", j))))
				}
			}
			if g.o.dirs && len(c.K) > 2 && g.p(5) {
				c.K[1+g.r.Intn(2)].C = []string{"B# do not sort"}
			}
			f.K = append(f.K, c)
			continue
		}
		f.K = append(f.K, g.stmt(2, false, false))
	}
	if g.o.dirs && g.p(10) {
		i := g.r.Intn(len(f.K))
		f.K[i].C = append(f.K[i].C, g.pick("B# buildifier: disable=load-on-top", "B# buildifier: disable=out-of-order-load"))
	}
	return f
}

func (g *gen) cm() string {
	g.nc++
	return fmt.Sprintf("#c%d.", g.nc)
}

// decorate puts comments on statements, arguments, elements, entries and closing brackets.
func (g *gen) decorate(n *Node, item, stmt bool) {
	if item && g.p(6) {
		n.C = append(n.C, "B"+g.cm())
		if g.p(4) {
			n.C = append(n.C, "B"+g.cm())
		}
	}
	simple := true
	switch n.T {
	case "def", "for", "if":
		simple = false
	}
	if item && simple && n.T != "comment" && g.p(6) && !hasKind(n, 'S') {
		n.C = append(n.C, "S"+g.cm())
	}
	switch n.T {
	case "file", "block":
		for i, k := range n.K {
			// The first statement of a block may not be preceded by a comment of its own in "else" branches etc.
			g.decorate(k, true, true)
			_ = i
		}
		if n.T == "file" {
			if g.p(4) {
				n.C = append(n.C, "A"+g.cm())
			}
			var out []*Node
			for _, k := range n.K {
				if g.p(8) {
					b := mk("comment", "")
					b.C = append(b.C, "A"+g.cm())
					out = append(out, b)
				}
				out = append(out, k)
			}
			n.K = out
		}
	case "list", "tuple", "set", "dict":
		if n.T == "tuple" && n.V == "bare" {
			return
		}
		for _, k := range n.K {
			g.decorate(k, true, false)
		}
		if len(n.K) > 0 && g.p(12) {
			n.C = append(n.C, "E"+g.cm())
		}
	case "call":
		for _, k := range n.K[1:] {
			g.decorate(k, true, false)
		}
		if len(n.K) > 1 && g.p(12) {
			n.C = append(n.C, "E"+g.cm())
		}
	case "load":
		for _, k := range n.K {
			g.decorate(k, true, false)
		}
		if g.p(12) {
			n.C = append(n.C, "E"+g.cm())
		}
	case "asg", "kv":
		g.decorate(n.K[1], false, false)
	case "bin":
		for _, k := range n.K {
			g.decorate(k, false, false)
		}
	case "def":
		g.decorate(n.K[2], false, false)
	case "for":
		g.decorate(n.K[2], false, false)
	case "if":
		g.decorate(n.K[1], false, false)
		g.decorate(n.K[2], false, false)
	}
}

func hasKind(n *Node, c byte) bool {
	for _, x := range n.C {
		if x[0] == c {
			return true
		}
	}
	return false
}

func genFile(r *rand.Rand, o genOpts) *Node {
	g := &gen{r: r, o: o}
	f := g.file()
	if o.comments {
		g.decorate(f, false, false)
	}
	return f
}

// mutateSrc inserts comments, line breaks and blank lines at places where the language allows them.
func (g *gen) mutateSrc(src string, n int) string {
	for ; n > 0; n-- {
		type gap struct {
			pos  int
			kind int // 0 inside brackets, 1 end of a line, 2 start of a line
		}
		var gaps []gap
		depth := 0
		for i := 0; i < len(src); {
			c := src[i]
			switch {
			case c == '#':
				for i < len(src) && src[i] != '\n' {
					i++
				}
				continue
			case c == '"' || c == '\'':
				raw := i > 0 && src[i-1] == 'r'
				q := src[i : i+1]
				if strings.HasPrefix(src[i:], strings.Repeat(q, 3)) {
					q = strings.Repeat(q, 3)
				}
				i += len(q)
				for i < len(src) && !strings.HasPrefix(src[i:], q) {
					if src[i] == '\\' && !raw {
						i++
					}
					i++
				}
				i += len(q)
				continue
			case c == '(' || c == '[' || c == '{':
				depth++
				i++
				gaps = append(gaps, gap{i, 0})
				continue
			case c == ')' || c == ']' || c == '}':
				gaps = append(gaps, gap{i, 0})
				depth--
			case c == ',' || c == ' ' || c == ':' || c == '=':
				if depth > 0 && c == ' ' {
					gaps = append(gaps, gap{i, 0})
				} else if depth > 0 && c == ',' {
					gaps = append(gaps, gap{i, 0}, gap{i + 1, 0})
				}
			case c == '\n' && depth > 0:
				gaps = append(gaps, gap{i, 0})
			case c == '\n':
				gaps = append(gaps, gap{i, 1})
				if depth == 0 {
					gaps = append(gaps, gap{i + 1, 2})
				} else {
					gaps = append(gaps, gap{i, 0})
				}
			}
			i++
		}
		if len(gaps) == 0 {
			return src
		}
		x := gaps[g.r.Intn(len(gaps))]
		ins := ""
		switch x.kind {
		case 0:
			// comments elsewhere than in front of or behind a whole item have no place in the normal form
			ins = g.pick("\n", "\n", "\n    ", "\n\n")
		case 1:
			ins = g.pick("  "+g.cm(), "\n\n", "  "+g.cm())
		case 2:
			ins = strings.Repeat(" ", 4*g.r.Intn(3)) + g.pick(g.cm()+"\n", "\n\n", g.cm()+"\n\n", g.cm()+"\n"+g.cm()+"\n")
		}
		if x.kind == 1 && x.pos > 0 {
			// only one comment per line
			// and none behind the header of a block
			ls := strings.LastIndexByte(src[:x.pos], '\n') + 1
			if strings.Contains(src[ls:x.pos], "#") || strings.HasSuffix(src[:x.pos], ":") && strings.Contains(ins, "#") {
				continue
			}
		}
		src = src[:x.pos] + ins + src[x.pos:]
	}
	return src
}
