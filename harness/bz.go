package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
)

// Buildozer runs.

type bzRe struct {
	K string `json:"k"`
	A string `json:"a"`
	B string `json:"b"`
}

type bzCmd struct {
	C  string   `json:"c"`
	A  []string `json:"a"`
	Re bzRe     `json:"re"`
	T  []string `json:"t"`
}

type bzStep struct {
	Cmds    []bzCmd  `json:"cmds"`
	Targets []string `json:"targets"`
	Spell   []int    `json:"spell"` // how the targets' labels are written
	Keep    bool     `json:"keep"`
	Eol     bool     `json:"eol"`
	Types   []string `json:"types"`
	NoShort bool     `json:"noshort"` // -shorten_labels=false
	KeepCom bool     `json:"keepcom"` // -delete_with_comments=false
	Vars    bool     `json:"vars"`    // -edit-variables
}

type bzCase struct {
	Tree  *Node    `json:"tree"`
	Lay   int64    `json:"lay"`
	Pkg   string   `json:"pkg"`
	Dir   string   `json:"dir"`   // name of the directory
	Fname string   `json:"fname"` // name of the file
	Steps []bzStep `json:"steps"`
}

type bzStepObs struct {
	Code  int      `json:"code"`
	Err   string   `json:"err"` // parse error of the resulting file
	Same  bool     `json:"same"`
	Tree  *Node    `json:"tree"`
	Spans [][4]int `json:"spans"` // before the step, of every outermost call: first and last line of the called expression, lines of the brackets
	Src   string   `json:"src"`
	Out   string   `json:"out"`
	OutT  *Node    `json:"outtree"` // what was printed, read as a file
	Errs  string   `json:"errs"`
}

type bzObs struct {
	Src   string      `json:"src"`
	Path  string      `json:"path"`
	Tree  *Node       `json:"tree"`
	Steps []bzStepObs `json:"steps"`
}

func escArg(s string) string {
	return strings.ReplaceAll(s, " ", "\\ ")
}

func cmdText(c bzCmd) string {
	args := append([]string{}, c.A...)
	if c.C == "substitute" || c.C == "substitute_load" {
		q := regexp.QuoteMeta
		re, t := "", c.T[0]
		switch c.Re.K {
		case "in":
			re = q(c.Re.A)
		case "pre":
			re = "^" + q(c.Re.A)
		case "suf":
			re = q(c.Re.A) + "$"
		case "cap":
			re, t = "^"+q(c.Re.A)+"(.*)"+q(c.Re.B)+"$", c.T[0]+"${1}"+c.T[2]
		}
		args = append(args, re, t)
	}
	r := c.C
	for _, a := range args {
		r += " " + escArg(a)
	}
	return r
}

// closing finds the bracket that closes the one at src[i], skipping strings and comments.
func closing(src []byte, i int) int {
	depth := 0
	for ; i < len(src); i++ {
		switch c := src[i]; c {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
			if depth == 0 {
				return i
			}
		case '#':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case '"', '\'':
			q := string(c)
			if bytes.HasPrefix(src[i:], []byte(q+q+q)) {
				q = q + q + q
			}
			i += len(q)
			for i < len(src) && !bytes.HasPrefix(src[i:], []byte(q)) {
				if src[i] == '\\' {
					i++
				}
				i++
			}
			i += len(q) - 1
		}
	}
	return len(src) - 1
}

func callLines(f *build.File, src []byte) [][4]int {
	line := func(i int) int { return 1 + bytes.Count(src[:i], []byte("\n")) }
	spans := [][4]int{}
	for _, s := range f.Stmt {
		build.Walk(s, func(x build.Expr, stk []build.Expr) {
			c, ok := x.(*build.CallExpr)
			if !ok {
				return
			}
			for _, p := range stk {
				if _, ok := p.(*build.CallExpr); ok {
					return
				}
			}
			st, en := c.X.Span()
			open := en.Byte + bytes.IndexByte(src[en.Byte:], '(')
			spans = append(spans, [4]int{line(st.Byte), line(en.Byte), line(open), line(closing(src, open))})
		})
	}
	return spans
}

func bzSetup(c *bzCase) (ws, file string, src string) {
	tmp, err := os.MkdirTemp("", "bz")
	if err != nil {
		die("%v", err)
	}
	ws = filepath.Join(tmp, "ws")
	d := filepath.Join(ws, filepath.FromSlash(c.Pkg))
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(ws, "WORKSPACE"), nil, 0o644)
	fname := c.Fname
	if fname == "" {
		fname = "BUILD"
	}
	file = filepath.Join(d, fname)
	if c.Pkg == "-" {
		file = filepath.Join(ws, "stdin")
	}
	src = renderFile(c.Tree, c.Lay)
	if err := os.WriteFile(file, []byte(src), 0o644); err != nil {
		die("%v", err)
	}
	return
}

func bzLabel(c *bzCase, t string, spell int) string {
	fname := c.Fname
	if fname == "" {
		fname = "BUILD"
	}
	switch {
	case c.Pkg == "-" && spell == 1:
		return "//-:" + t
	case c.Pkg == "-":
		return "-:" + t
	case spell == 1 && c.Pkg != "" && t == last(c.Pkg):
		return "//" + c.Pkg
	case spell == 2 && c.Pkg != "":
		return "//" + c.Pkg + "/" + fname + ":" + t
	case spell == 3 && c.Pkg != "" && t == "__pkg__":
		return "//" + c.Pkg + "/" + fname
	}
	if c.Fname == "WORKSPACE" || c.Fname == "MODULE.bazel" {
		return "//" + filepath.ToSlash(filepath.Join(c.Pkg, c.Fname)) + ":" + t
	}
	return "//" + c.Pkg + ":" + t
}

func execBz(in json.RawMessage) (interface{}, error) {
	var c bzCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	ws, file, src := bzSetup(&c)
	defer os.RemoveAll(filepath.Dir(ws))
	o := bzObs{Src: src, Steps: []bzStepObs{}}
	f, err := build.Parse(file, []byte(src))
	if err != nil {
		return nil, fmt.Errorf("initial file: %v\n%s", err, src)
	}
	if f.Type == build.TypeDefault {
		f.Type = build.TypeBuild
	}
	po := projOpts{comments: true}
	o.Tree = fileTree(f, po)
	o.Path = strings.TrimPrefix(file, filepath.Dir(ws))
	if c.Pkg == "-" {
		o.Path = "-"
		os.Remove(file)
	}
	prev := []byte(src)
	for _, st := range c.Steps {
		var so bzStepObs
		so.Spans = callLines(f, prev)
		opts := edit.NewOpts()
		opts.RootDir = ws
		opts.KeepGoing = st.Keep
		opts.PreferEOLComments = st.Eol
		opts.FilterRuleTypes = st.Types
		opts.NumIO = 1
		var out, eb bytes.Buffer
		opts.OutWriter, opts.ErrWriter = &out, &eb
		args := []string{}
		for _, cm := range st.Cmds {
			args = append(args, cmdText(cm))
		}
		for i, t := range st.Targets {
			sp := 0
			if i < len(st.Spell) {
				sp = st.Spell[i]
			}
			args = append(args, bzLabel(&c, t, sp))
		}
		edit.ShortenLabelsFlag, edit.DeleteWithComments, opts.EditVariables = !st.NoShort, !st.KeepCom, st.Vars
		var stdin *os.File
		if c.Pkg == "-" { // the file comes on standard input and leaves on standard output
			r, w, _ := os.Pipe()
			stdin, os.Stdin = os.Stdin, r
			go func() { w.Write(prev); w.Close() }()
		}
		so.Code = edit.Buildozer(opts, args)
		edit.ShortenLabelsFlag, edit.DeleteWithComments = true, true
		now, err := os.ReadFile(file)
		if c.Pkg == "-" {
			os.Stdin.Close()
			os.Stdin = stdin
			if err == nil {
				return nil, fmt.Errorf("a file was written")
			}
			now = prev
			if out.Len() > 0 && !bzReads(st.Cmds) {
				now = append([]byte{}, out.Bytes()...)
				out.Reset()
			}
		} else if err != nil {
			now = []byte{}
		}
		so.Same = bytes.Equal(prev, now)
		prev = now
		so.Src, so.Out = string(now), strings.ReplaceAll(out.String(), filepath.Dir(ws), "")
		so.OutT = mk("none", "")
		if g, err := build.ParseBuild("BUILD", out.Bytes()); err == nil && out.Len() > 0 {
			so.OutT = fileTree(g, po)
		}
		so.Errs = strings.ReplaceAll(eb.String(), filepath.Dir(ws), "")
		so.Tree = mk("none", "")
		f, err = build.Parse(file, now)
		if err != nil {
			so.Err = err.Error()
			o.Steps = append(o.Steps, so)
			for len(o.Steps) < len(c.Steps) {
				o.Steps = append(o.Steps, so)
			}
			return o, nil
		}
		if f.Type == build.TypeDefault {
			f.Type = build.TypeBuild
		}
		so.Tree = fileTree(f, po)
		o.Steps = append(o.Steps, so)
	}
	return o, nil
}

// bzReads reports whether there are only commands that print.
func bzReads(cs []bzCmd) bool {
	for _, c := range cs {
		if c.C != "print" && c.C != "print_comment" {
			return false
		}
	}
	return true
}

// ---- generation ----

type bzGen struct {
	r        *rand.Rand
	pkg      string
	names    []string
	lines    []int
	comments bool
	cvals    [][2]string // attributes and values with comments
	nc       int
}

func (g *bzGen) p(n int) bool            { return g.r.Intn(n) == 0 }
func (g *bzGen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

func last(p string) string { return p[strings.LastIndex(p, "/")+1:] }

// val is a label or string, often one of a few targets in different spellings.
func (g *bzGen) val() string {
	switch g.r.Intn(6) {
	case 0, 1, 2:
		t := g.pick("a", "b", "c")
		return g.pick(t, ":"+t, "//"+g.pkg+":"+t, ":"+t, "@r//"+g.pkg+":"+t)
	case 3:
		return g.pick("//x:y", "//x", "//x:x", "//x:z", "//x/y", "//x/y:y")
	case 4:
		if g.pkg == "" {
			return g.pick("//:z", ":z", "d")
		}
		return g.pick("//"+g.pkg, ":"+last(g.pkg), "//"+g.pkg+":"+last(g.pkg), last(g.pkg))
	}
	return g.pick("x.cc", "-O2", "$(location :a)", "e f", "@r//x:y", "@r", "@r//:r", "//visibility:public", "d", "Z", "a.b", "a-b")
}

func (g *bzGen) list() *Node {
	l := mk("list", "")
	seen := map[string]bool{}
	for i := g.r.Intn(4); i > 0; i-- {
		v := g.val()
		if seen[v] && !g.p(4) {
			continue
		}
		seen[v] = true
		e := mk("str", v)
		if g.p(25) {
			e = mk("id", g.pick("X", "Y"))
		}
		l.K = append(l.K, g.com(e, 5, "BS"))
	}
	if g.comments && len(l.K) > 0 && g.p(10) {
		g.nc++
		l.C = append(l.C, fmt.Sprintf("E# c%d.", g.nc))
	}
	return l
}

// com attaches a numbered comment with probability 1/n.
func (g *bzGen) com(e *Node, n int, kinds string) *Node {
	if g.comments && g.p(n) {
		g.nc++
		e.C = append(e.C, fmt.Sprintf("%c# c%d.", kinds[g.r.Intn(len(kinds))], g.nc))
		if e.C[0][0] == 'B' && g.p(4) {
			g.nc++
			e.C = append(e.C, fmt.Sprintf("B# c%d.", g.nc))
		}
		if e.C[0][0] == 'B' && strings.Contains(kinds, "S") && g.p(3) {
			g.nc++
			e.C = append(e.C, fmt.Sprintf("S# c%d.", g.nc))
		}
	}
	return e
}

func (g *bzGen) sel() *Node {
	d := mk("dict", "")
	n := 1 + g.r.Intn(3)
	var share []string
	for i := g.r.Intn(3); i > 0; i-- {
		share = append(share, g.val())
	}
	for i := 0; i < n; i++ {
		l := g.list()
		for _, s := range share {
			if g.p(5) {
				continue
			}
			l.K = append(l.K, mk("str", s))
		}
		var v *Node = l
		if g.p(30) {
			v = mk("id", g.pick("X", "None"))
		}
		d.K = append(d.K, g.com(mk("kv", "", mk("str", []string{":k0", "//c:k1", "//conditions:default"}[i]), v), 8, "B"))
	}
	s := mk("call", "", mk("id", "select"), d)
	if g.p(15) {
		s.K = append(s.K, mk("asg", "=", mk("id", "no_match_error"), mk("str", "none")))
	}
	return s
}

func (g *bzGen) listVal() *Node {
	one := func() *Node {
		switch x := g.r.Intn(20); {
		case x < 10:
			return g.list()
		case x < 18:
			return g.sel()
		case x < 19:
			return mk("id", "X")
		}
		return mk("call", "", mk("id", "glob"), mk("list", "", mk("str", "*.cc")))
	}
	if g.p(12) {
		return mk("id", g.pick("X", "Y"))
	}
	e := g.list()
	if g.p(2) {
		e = one()
	}
	for g.p(3) {
		e = mk("bin", "+", e, one())
	}
	return e
}

var bzListAttrs = []string{"deps", "srcs", "tags", "copts", "args", "data", "visibility", "plugins", "hdrs", "exports"}
var bzStrAttrs = []string{"size", "main", "cmd", "out", "actual"}
var bzOther = []string{"testonly", "linkstatic", "shard_count", "foo"}
var bzDicts = []string{"values", "manifest_values", "env"}

func (g *bzGen) str() string {
	return g.pick("small", "large", ":a", "//x:y", "a", "echo hi", "//"+g.pkg+":a", "True", "small", "large", " x", "x ", "")
}

func (g *bzGen) dict() *Node {
	d := mk("dict", "")
	for _, k := range []string{"k1", "k2", "k3"} {
		if !g.p(3) {
			continue
		}
		v := mk("str", g.pick("v1", "v2", ":a", "//"+g.pkg+":a"))
		switch g.r.Intn(5) {
		case 0:
			v = g.list()
		case 1:
			v = mk("id", g.pick("v1", "True"))
		}
		key := mk("str", k)
		if g.p(12) {
			key = mk("id", "KEY")
		}
		d.K = append(d.K, g.com(mk("kv", "", key, v), 5, "B"))
	}
	if len(d.K) > 0 && g.p(6) { // a key that is there already
		i := g.r.Intn(len(d.K) + 1)
		kv := mk("kv", "", mk("str", g.pick("k1", "k2", "k3")), mk("str", g.pick("v1", "v3")))
		d.K = append(d.K[:i:i], append([]*Node{kv}, d.K[i:]...)...)
	}
	return d
}

func (g *bzGen) attrVal(a string) *Node {
	switch {
	case has(bzListAttrs, a):
		return g.listVal()
	case has(bzStrAttrs, a):
		if g.p(6) {
			return mk("id", "CONST")
		}
		return mk("str", g.str())
	case has(bzDicts, a):
		if g.p(8) {
			return mk("id", "CONST")
		}
		return g.dict()
	}
	switch g.r.Intn(4) {
	case 0:
		return mk("num", g.pick("1", "0", "42"))
	case 1:
		return mk("str", g.str())
	}
	return mk("id", g.pick("True", "False", "CONST"))
}

func has(q []string, s string) bool {
	for _, x := range q {
		if x == s {
			return true
		}
	}
	return false
}

type bzMix struct {
	attrs  []string // attributes to work on
	cmds   func(g *bzGen, m *bzMix) bzCmd
	multi  bool // several commands per step
	target func(g *bzGen) string
	com    bool
	stmts  bool // other statements and loads too
	types  bool // restrict the kinds of rules
}

func (g *bzGen) rule(name string, attrs []string) *Node {
	c := mk("call", "", mk("id", g.pick("cc_library", "cc_library", "java_binary", "genrule", "py_test", "my_rule", "cc_library_x", "library")))
	if g.p(12) {
		c.K[0] = mk("dot", g.pick("binary", "test"), mk("id", "native"))
	}
	if name != "" {
		c.K = append(c.K, g.com(mk("asg", "=", mk("id", "name"), mk("str", name)), 8, "BS"))
	}
	seen := map[string]bool{}
	for i := g.r.Intn(5); i > 0; i-- {
		a := attrs[g.r.Intn(len(attrs))]
		if seen[a] {
			continue
		}
		seen[a] = true
		v := g.attrVal(a)
		kinds := "B"
		if v.T == "str" || v.T == "id" || v.T == "num" {
			kinds = "BS"
		}
		c.K = append(c.K, g.com(mk("asg", "=", mk("id", a), v), 5, kinds))
	}
	if g.p(15) {
		c.K = append(c.K, mk("un", "**", mk("id", "kwargs")))
	}
	return g.com(c, 4, "B")
}

func bare(n *Node) *Node {
	n.C = []string{}
	return n
}

func (g *bzGen) load() *Node {
	l := mk("load", g.pick("//x:a.bzl", "//x:b.bzl", ":c.bzl", "@r//x:a.bzl"))
	seen := map[string]bool{}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		s := g.pick("s1", "s2", "s3", "s4", "s5")
		t := s
		if g.p(4) {
			t = g.pick("s1", "s2", "t1")
		}
		if seen[t] {
			continue
		}
		seen[t] = true
		l.K = append(l.K, mk("sym", t, mk("id", s)))
	}
	return l
}

func (g *bzGen) file(m *bzMix) *Node {
	f := mk("file", "BUILD")
	g.names = []string{}
	if m.stmts {
		if g.p(6) {
			f.K = append(f.K, mk("str", "Doc."))
		}
		for g.p(2) {
			f.K = append(f.K, g.com(g.load(), 5, "B"))
		}
		if g.p(5) {
			f.K = append(f.K, mk("call", "", mk("id", "package"), mk("asg", "=", mk("id", "default_visibility"), mk("list", "", mk("str", "//visibility:public")))))
		}
	}
	used := map[string]bool{}
	n := 1 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		name := g.pick("r1", "r2", "r3", "all", last(g.pkg), "a/b")
		if !m.stmts {
			name = g.pick("r1", "r2", "r3")
		}
		if used[name] || name == "" {
			continue
		}
		used[name] = true
		g.names = append(g.names, name)
		if !m.stmts && g.p(6) {
			v := g.list()
			if !g.comments {
				v = g.listVal()
			}
			f.K = append(f.K, mk("asg", "=", mk("id", g.pick("X", "Y")), v))
		}
		if m.stmts && g.p(8) {
			name = ""
		}
		f.K = append(f.K, g.rule(name, m.attrs))
		if m.stmts && g.p(3) {
			switch g.r.Intn(6) {
			case 0:
				f.K = append(f.K, mk("asg", "=", mk("id", g.pick("X", "Y")), g.list()))
			case 1:
				f.K = append(f.K, mk("call", "", mk("id", "exports_files"), mk("list", "", mk("str", g.pick("f.txt", "r1")), mk("str", "g.txt"))))
			case 2:
				f.K = append(f.K, mk("comp", "[", bare(g.rule(g.pick("c1", "r2"), m.attrs)), mk("forc", "", mk("id", "i"), mk("list", ""))))
			case 3:
				f.K = append(f.K, mk("asg", "=", mk("id", "v"), bare(g.rule(g.pick("n1", "n2"), m.attrs))))
			case 4:
				f.K = append(f.K, g.load())
			case 5:
				f.K = append(f.K, mk("call", "", mk("id", "licenses"), mk("list", "", mk("str", "notice"))))
			}
		}
	}
	return f
}

func (g *bzGen) attr(m *bzMix) string { return m.attrs[g.r.Intn(len(m.attrs))] }

func (g *bzGen) vals(n int) []string {
	r := []string{}
	for i := 1 + g.r.Intn(n); i > 0; i-- {
		v := g.val()
		if g.p(15) {
			v = "\"" + v + "\""
		}
		r = append(r, v)
	}
	return r
}

func (g *bzGen) re() (bzRe, []string) {
	t := []string{g.pick("new", "//x:n", ":n", "z"), "", ""}
	switch g.r.Intn(4) {
	case 0:
		return bzRe{"in", g.pick("a", ":", "x", "/", "."), ""}, t
	case 1:
		return bzRe{"pre", g.pick(":", "//x", "//", "a", "@r"), ""}, t
	case 2:
		return bzRe{"suf", g.pick("a", ":y", "b", ".cc"), ""}, t
	}
	return bzRe{"cap", g.pick("//", ":", "", "//x"), g.pick(":a", "a", "", ":y")}, []string{g.pick("", "//n/", ":"), "", g.pick("", "_new", ":z")}
}

func listCmds(g *bzGen, m *bzMix) bzCmd {
	c := bzCmd{T: []string{"", "", ""}}
	pat := g.attr(m)
	if g.p(10) {
		pat = "*"
	}
	switch g.r.Intn(10) {
	case 0, 1, 2:
		c.C, c.A = "add", append([]string{g.attr(m)}, g.vals(2)...)
	case 3, 4, 5:
		c.C, c.A = "remove", append([]string{pat}, g.vals(2)...)
	case 6, 7:
		c.C, c.A = "move", append([]string{g.attr(m), g.attr(m)}, g.vals(2)...)
		if g.p(4) {
			c.A = append(c.A[:2:2], "*")
		}
	case 8:
		c.C, c.A = "replace", []string{pat, g.val(), g.val()}
	case 9:
		c.C, c.A = "substitute", []string{pat}
		c.Re, c.T = g.re()
	}
	return c
}

func scalarCmds(g *bzGen, m *bzMix) bzCmd {
	c := bzCmd{T: []string{"", "", ""}}
	a := g.attr(m)
	key := func() string { return g.pick("k1", "k2", "k3", "k4") }
	val := func() string { return g.pick("v1", "v2", ":a", "//"+g.pkg+":a", "w x") }
	kvs := func() []string {
		r := []string{}
		for i := 1 + g.r.Intn(2); i > 0; i-- {
			r = append(r, key()+":"+val())
		}
		if g.p(20) {
			r = append([]string{"nocolon"}, r...)
		}
		return r
	}
	sets := func() []string {
		switch g.r.Intn(6) {
		case 0:
			return []string{}
		case 1:
			return g.vals(2)
		case 2:
			return []string{g.pick("1", "True", "CONST", "glob([\"*.cc\"])")}
		}
		return []string{g.str()}
	}
	setArgs := func(a string) []string {
		if has(bzListAttrs, a) || has(bzStrAttrs, a) || g.p(12) {
			return sets()
		}
		return []string{g.pick("1", "True", "CONST", "x_1", "42", "\"q s\"")}
	}
	setAttr := func() string {
		if g.p(10) {
			return g.pick("name", "kind")
		}
		return a
	}
	d := a
	if !has(bzDicts, d) && !g.p(5) {
		d = g.pick(bzDicts...)
	}
	switch g.r.Intn(13) {
	case 0, 1:
		c.C, c.A = "set", []string{setAttr()}
		c.A = append(c.A, setArgs(c.A[0])...)
		if c.A[0] == "kind" {
			c.A = []string{"kind", g.pick("cc_test", "native.cc_test", "x.y.z")}
		} else if c.A[0] == "name" {
			c.A = []string{"name", g.pick("r1", "r4", "//x:y")}
		}
	case 2:
		c.C, c.A = "set_if_absent", []string{setAttr()}
		c.A = append(c.A, setArgs(c.A[0])...)
		if c.A[0] == "kind" || c.A[0] == "name" {
			c.A = []string{c.A[0], "q"}
		}
	case 3:
		c.C, c.A = "remove_if_equal", []string{a, g.pick(g.str(), "CONST", "True")}
	case 4:
		c.C, c.A = "rename", []string{a, g.attr(m)}
	case 5:
		c.C, c.A = "copy", []string{a, g.pick("r1", "r2", "r3", "nope")}
	case 6:
		c.C, c.A = "copy_no_overwrite", []string{a, g.pick("r1", "r2", "r3", "nope")}
	case 7:
		c.C, c.A = "dict_set", append([]string{d}, kvs()...)
	case 8:
		c.C, c.A = "dict_add", append([]string{d}, kvs()...)
	case 9:
		c.C, c.A = "dict_remove", []string{d, key()}
		if g.p(2) {
			c.A = append(c.A, key())
		}
	case 10:
		c.C, c.A = "dict_replace_if_equal", []string{d, key(), val(), val()}
	case 11:
		c.C, c.A = "dict_list_add", append([]string{d, key()}, g.vals(2)...)
	case 12:
		if g.p(3) {
			c.C, c.A = "remove", []string{a}
			if g.p(6) {
				c.A = []string{"*"}
			}
			break
		}
		c.C, c.A = "set_select", []string{a}
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			c.A = append(c.A, g.pick(":k0", "//c:k1", "//conditions:default"), g.val())
		}
		if g.p(20) {
			c.A = append(c.A, "odd")
		}
	}
	return c
}

func fileCmds(g *bzGen, m *bzMix) bzCmd {
	c := bzCmd{T: []string{"", "", ""}}
	syms := func() []string {
		q := []string{}
		used := map[string]bool{} // one command does not ask for two different things of the same name
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			s := g.pick("s1", "s2", "s3", "s4", "s5")
			t := s
			if g.p(3) {
				t = g.pick("s1", "s2", "t1", "t2")
				s = t + "=" + s
			}
			if used[t] {
				continue
			}
			used[t] = true
			q = append(q, s)
		}
		return q
	}
	mod := func() string { return g.pick("//x:a.bzl", "//x:b.bzl", ":c.bzl", "@r//x:a.bzl", "//n:n.bzl") }
	switch x := g.r.Intn(12); {
	case x < 3:
		c.C, c.A = "new", []string{g.pick("cc_library", "my_rule", "py_test"), g.pick("n1", "n2", "r1", "r2")}
		if g.p(2) {
			c.A = append(c.A, g.pick("before", "after"), g.pick("r1", "r2", "r3", "n1", "__pkg__", "nope", "all"))
			if g.p(15) {
				c.A[2] = "beside"
			}
		}
	case x < 5:
		c.C, c.A = "new_load", append([]string{mod()}, syms()...)
	case x < 8:
		c.C, c.A = "replace_load", append([]string{mod()}, syms()...)
	case x < 9:
		c.C = "substitute_load"
		c.A = []string{}
		switch g.r.Intn(4) {
		case 0:
			c.Re, c.T = bzRe{"in", g.pick("a", "x", ":"), ""}, []string{g.pick("n", "//x:"), "", ""}
		case 1:
			c.Re, c.T = bzRe{"pre", g.pick("//x", ":", "@r"), ""}, []string{g.pick("//n", "//x:"), "", ""}
		case 2:
			c.Re, c.T = bzRe{"suf", g.pick("a.bzl", ".bzl"), ""}, []string{g.pick("b.bzl", "_n.bzl"), "", ""}
		default:
			c.Re, c.T = bzRe{"cap", g.pick("//", ":", ""), g.pick(".bzl", "a.bzl", "")}, []string{g.pick("", "//n/"), "", g.pick("", "_new")}
		}
	case x < 11:
		c.C, c.A = "delete", []string{}
	default:
		c.C, c.A = "add", append([]string{"deps"}, g.vals(1)...)
	}
	return c
}

func fileTargets(g *bzGen) string {
	switch g.r.Intn(5) {
	case 0, 1:
		return "__pkg__"
	case 2:
		return g.pick("all", "%cc_library", "n1", "r1")
	}
	return g.name()
}

func commentCmds(g *bzGen, m *bzMix) bzCmd {
	c := bzCmd{T: []string{"", "", ""}, A: []string{}}
	g.nc++
	text := func() string {
		t := fmt.Sprintf("n%d", g.nc)
		switch g.r.Intn(6) {
		case 0:
			t += "\\nm"
		case 1:
			t += " words"
		}
		return t
	}
	a := g.attr(m)
	if g.p(8) {
		a = "name"
	}
	v := g.val()
	if len(g.cvals) > 0 && g.p(2) { // a value that has comments
		x := g.cvals[g.r.Intn(len(g.cvals))]
		a, v = x[0], x[1]
	}
	switch g.r.Intn(9) {
	case 0:
		c.C, c.A = "comment", []string{text()}
	case 1, 2:
		c.C, c.A = "comment", []string{a, text()}
	case 3, 4:
		c.C, c.A = "comment", []string{a, v, text()}
	case 5:
		c.C = "remove_comment"
	case 6:
		c.C, c.A = "remove_comment", []string{a}
	case 7:
		c.C, c.A = "remove_comment", []string{a, v}
	case 8:
		return listCmds(g, m)
	}
	return c
}

func anyCmds(g *bzGen, m *bzMix) bzCmd {
	switch g.r.Intn(5) {
	case 0, 1:
		return listCmds(g, m)
	case 2:
		return fileCmds(g, m)
	}
	return scalarCmds(g, m)
}

func printCmds(g *bzGen, m *bzMix) bzCmd {
	c := bzCmd{T: []string{"", "", ""}, A: []string{}}
	field := func() string {
		if g.p(2) {
			return g.pick("name", "kind", "label", "startline", "endline", "path", "attrs", "name", "kind")
		}
		return g.attr(m)
	}
	switch g.r.Intn(10) {
	case 0:
		c.C = "print_comment"
	case 1:
		c.C, c.A = "print_comment", []string{g.attr(m)}
	case 2:
		c.C, c.A = "print_comment", []string{g.attr(m), g.val()}
	case 3:
		c.C = "print"
	case 4:
		c.C, c.A = "print", []string{"rule"}
	case 5:
		return anyCmds(g, m)
	default:
		c.C = "print"
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			c.A = append(c.A, field())
		}
	}
	return c
}

// simpleCmds are commands whose effect shows which rules they were applied to.
func simpleCmds(g *bzGen, m *bzMix) bzCmd {
	c := bzCmd{T: []string{"", "", ""}}
	switch g.r.Intn(6) {
	case 0, 1:
		c.C, c.A = "set", []string{g.pick("foo", "bar"), g.pick("1", "2", "X")}
	case 2:
		c.C, c.A = "add", []string{g.pick("tags", "deps"), g.pick("t", "u", ":a")}
	case 3:
		c.C, c.A = "remove", []string{g.pick("tags", "deps", "foo")}
	case 4:
		c.C, c.A = "set", []string{"kind", g.pick("cc_library", "k2", "native.binary")}
	case 5:
		if g.p(2) {
			c.C, c.A = "delete", []string{}
		} else {
			c.C, c.A = "rename", []string{g.pick("foo", "tags"), g.pick("bar", "args")}
		}
	}
	return c
}

func anyTarget(g *bzGen) string {
	switch x := g.r.Intn(20); {
	case x < 6:
		return g.name()
	case x < 9:
		if len(g.lines) > 0 {
			return fmt.Sprintf("%%%d", g.lines[g.r.Intn(len(g.lines))]+[]int{0, 0, 0, 1, -1}[g.r.Intn(5)])
		}
		return fmt.Sprintf("%%%d", 1+g.r.Intn(20))
	case x < 11:
		return g.pick("all", "*")
	case x < 14:
		return "%" + g.pick("cc_library", "cc_library", "java_binary", "my_rule", "native.binary", "binary", "library", "cc_library_x", "cc", "package", "exports_files", "genrule", "nothing", "k2")
	case x < 15:
		return "__pkg__"
	case x < 16:
		return g.pick("f.txt", "g.txt")
	case x < 17 && g.pkg != "":
		return last(g.pkg)
	case x < 18:
		return g.pick("c1", "n1", "n2", "a/b")
	}
	return g.pick("r1", "r2", "r3")
}

func genBz(m bzMix) func(r *rand.Rand, n int, emit func(interface{})) {
	return func(r *rand.Rand, n int, emit func(interface{})) {
		for i := 0; i < n; i++ {
			g := &bzGen{r: r, pkg: []string{"p", "p", "p", "p/q", "p/q", "", "", "-"}[r.Intn(8)], comments: m.com}
			c := bzCase{Pkg: g.pkg, Dir: last(g.pkg), Fname: []string{"BUILD", "BUILD.bazel"}[r.Intn(2)], Lay: -r.Int63n(1 << 30)}
			if g.pkg == "" {
				c.Dir = "ws"
			} else if g.pkg == "-" {
				c.Dir = "."
			}
			mm := m
			// concentrate on a few attributes
			mm.attrs = nil
			for j := 0; j < 3; j++ {
				mm.attrs = append(mm.attrs, m.attrs[r.Intn(len(m.attrs))])
			}
			c.Tree = g.file(&mm)
			g.lines, g.cvals = nil, nil
			for _, st := range c.Tree.K {
				g.commented(st, "")
			}
			if m.types {
				src := []byte(renderFile(c.Tree, c.Lay))
				if f, err := build.Parse("BUILD", src); err == nil {
					sp := callLines(f, src)
					for _, x := range sp {
						g.lines = append(g.lines, x[0], x[1])
					}
				}
			}
			for j := 1 + r.Intn(4); j > 0; j-- {
				st := bzStep{Spell: []int{g.r.Intn(6), g.r.Intn(6)}, Keep: g.p(4), Eol: g.p(2), Types: []string{}, Targets: []string{}}
				for k := 1; k > 0; k-- {
					cmd := mm.cmds(g, &mm)
					if cmd.A == nil {
						cmd.A = []string{}
					}
					cmd.fit()
					st.Cmds = append(st.Cmds, cmd)
					if m.multi && g.p(3) {
						k++
					}
				}
				st.Targets = append(st.Targets, mm.target(g))
				if m.multi && g.p(4) {
					st.Targets = append(st.Targets, mm.target(g))
				}
				st.NoShort, st.KeepCom, st.Vars = g.p(10), g.p(8), g.p(5)
				if g.pkg == "-" && !bzReads(st.Cmds) { // what is printed and the file do not mix
					q := st.Cmds[:0]
					for _, cm := range st.Cmds {
						if cm.C != "print" && cm.C != "print_comment" {
							q = append(q, cm)
						}
					}
					st.Cmds = q
				}
				if m.types && g.p(4) {
					st.Types = append(st.Types, g.pick("cc_library", "cc_library", "java_binary", "my_rule", "package", "native.binary", "binary", "cc", "library", "cc_library_x"))
					if g.p(2) {
						st.Types = append(st.Types, g.pick("genrule", "py_test", "exports_files"))
					}
				}
				c.Steps = append(c.Steps, st)
			}
			emit(c)
		}
	}
}

func (g *bzGen) name() string {
	if len(g.names) == 0 || g.p(20) {
		return g.pick("r1", "nope")
	}
	return g.names[g.r.Intn(len(g.names))]
}

func someRule(g *bzGen) string {
	if g.p(6) {
		return g.pick("all", "*", "%cc_library")
	}
	return g.name()
}

func init() {
	props["C01"] = &Prop{Gen: genBz(bzMix{attrs: bzListAttrs, cmds: listCmds, multi: true, target: someRule}), Exec: execBz}
	props["C03"] = &Prop{Gen: genBz(bzMix{attrs: bzListAttrs, cmds: fileCmds, multi: true, stmts: true, target: fileTargets}), Exec: execBz}
	props["C04"] = &Prop{Gen: genBz(bzMix{attrs: []string{"deps", "tags", "foo", "size"}, cmds: simpleCmds, multi: true, stmts: true, types: true, target: anyTarget}), Exec: execBz}
	all := append(append(append(append([]string{}, bzListAttrs...), bzStrAttrs...), bzOther...), bzDicts...)
	props["C05"] = &Prop{Gen: genBz(bzMix{attrs: all, cmds: anyCmds, multi: true, stmts: true, com: true, target: fileTargets}), Exec: execBz}
	props["C08"] = &Prop{Gen: genBz(bzMix{attrs: all, cmds: commentCmds, multi: true, com: true, target: someRule}), Exec: execBz}
	props["C10"] = &Prop{Gen: genBz(bzMix{attrs: all, cmds: printCmds, multi: true, stmts: true, com: true, types: true, target: anyTarget}), Exec: execBz}
	props["C02"] = &Prop{Gen: genBz(bzMix{attrs: append(append(append(append([]string{}, bzListAttrs[:4]...), bzStrAttrs...), bzOther...), bzDicts...), cmds: scalarCmds, multi: true, target: someRule}), Exec: execBz}
}

// fit makes the arguments ones that a command line can spell.
func (cmd *bzCmd) fit() {
	for i, a := range cmd.A {
		if a == "" {
			cmd.A[i] = "small"
		} else if i > 0 && strings.HasPrefix(cmd.C, "set") && !has(bzStrAttrs, cmd.A[0]) && !has(bzListAttrs, cmd.A[0]) { // an expression
			cmd.A[i] = strings.TrimSpace(strings.ReplaceAll(a, "-b", ""))
		}
	}
}

// commented collects the strings with comments and the attributes they are in.
func (g *bzGen) commented(n *Node, attr string) {
	if n.T == "asg" && len(n.K) == 2 {
		attr = n.K[0].V
	}
	if n.T == "str" && len(n.C) > 0 && attr != "" && n.V != "" {
		g.cvals = append(g.cvals, [2]string{attr, n.V})
	}
	for _, x := range n.K {
		g.commented(x, attr)
	}
}
