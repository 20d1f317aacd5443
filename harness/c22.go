package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"sort"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
)

// Automatic fixes: the file before and after, and what the other modes do to it.

type fixCase struct {
	Typ  string   `json:"typ"`
	Tree *Node    `json:"tree"`
	Lay  int64    `json:"lay"`
	Cats []string `json:"cats"`
}

type fixObs struct {
	Src      string   `json:"src"`
	Err      string   `json:"err"`
	Tree     *Node    `json:"tree"`
	Fixed    *Node    `json:"fixed"`
	Cats     []string `json:"cats"` // in the order of their names
	Text     string   `json:"text"` // the fixed file
	Bad      string   `json:"bad"`
	WarnSame bool     `json:"warnsame"` // looking for warnings leaves the file alone
	SugSame  bool     `json:"sugsame"`
	Left     []string `json:"left"`
	Stable   bool     `json:"stable"`
	Noop     bool     `json:"noop"`
	SugBad   string   `json:"sugbad"`
}

func execFix(in json.RawMessage) (interface{}, error) {
	var c fixCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	o := &fixObs{Src: renderFile(c.Tree, c.Lay), Tree: mk("none", ""), Fixed: mk("none", ""), Left: []string{}, Cats: append([]string{}, c.Cats...)}
	sort.Strings(o.Cats)
	parse := func(b []byte) (*build.File, error) { return parseAs(c.Typ, "p/FILE", b) }
	f, err := parse([]byte(o.Src))
	if err != nil {
		o.Err = err.Error()
		return o, nil
	}
	opts := projOpts{comments: true}
	o.Tree = fileTree(f, opts)
	print := build.FormatWithoutRewriting
	before := print(f)
	format := func() []byte { g, _ := parse([]byte(o.Src)); return build.Format(g) }
	full := format()

	fw, _ := parse([]byte(o.Src))
	warn.FileWarnings(fw, c.Cats, nil, warn.ModeWarn, nil)
	o.WarnSame = bytes.Equal(before, print(fw)) && bytes.Equal(full, build.Format(fw))
	// suggestions are for formatted files
	fs, err := parse(full)
	if err != nil {
		o.SugBad = "the formatted file does not parse"
		return o, nil
	}
	ff, _ := parse(full)
	full2 := build.Format(ff)
	fu, _ := parse(full2)
	finds := warn.FileWarnings(fu, c.Cats, nil, warn.ModeWarn, nil)
	fs, _ = parse(full2)
	sug := warn.FileWarnings(fs, c.Cats, nil, warn.ModeSuggest, nil)
	o.SugSame = bytes.Equal(full2, build.Format(fs))

	ff, _ = parse([]byte(o.Src))
	warn.FixWarnings(ff, c.Cats, false, nil)
	text := print(ff)
	o.Text = string(text)
	o.Noop = bytes.Equal(before, text)
	f2, err := parse(text)
	if err != nil {
		o.Bad = err.Error()
		return o, nil
	}
	o.Fixed = fileTree(f2, opts)
	left := map[string]bool{}
	for _, w := range warn.FileWarnings(f2, c.Cats, nil, warn.ModeWarn, nil) {
		if w.AutoFixable {
			left[w.Category] = true
		}
	}
	for x := range left {
		o.Left = append(o.Left, x)
	}
	sort.Strings(o.Left)
	// fixing again
	f3, _ := parse(text)
	text3 := print(f3)
	f3, _ = parse(text)
	warn.FixWarnings(f3, c.Cats, false, nil)
	o.Stable = bytes.Equal(text3, print(f3))

	// suggestions
	key := func(ws []*warn.Finding) []string {
		q := []string{}
		for _, w := range ws {
			k := w.Category + "|" + w.Message
			if w.AutoFixable {
				k += "|fix"
			}
			q = append(q, k)
		}
		sort.Strings(q)
		return q
	}
	a, _ := json.Marshal(key(finds))
	b, _ := json.Marshal(key(sug))
	if string(a) != string(b) {
		o.SugBad = "findings differ from those of the warning mode"
	}
	n := 0
	for _, w := range sug {
		if (w.Replacement != nil) != w.AutoFixable {
			o.SugBad = "replacement of a finding that cannot be fixed, or none of one that can"
		}
		if w.Replacement == nil {
			continue
		}
		n++
		r := w.Replacement
		if r.Start < 0 || r.End < r.Start || r.End > len(full2) {
			o.SugBad = "range"
			continue
		}
		t := string(full2[:r.Start]) + r.Content + string(full2[r.End:])
		if _, err := parse([]byte(t)); err != nil {
			o.SugBad = "does not parse: " + w.Category
		}
		if len(sug) == 1 {
			ff, _ := parse(full2)
			warn.FixWarnings(ff, []string{w.Category}, false, nil)
			if string(build.Format(ff)) != t {
				o.SugBad = "is not what the fix does"
			}
		}
	}
	return o, nil
}

var fixLoadCats = []string{"git-repository", "http-archive", "native-android", "native-cc-binary", "native-cc-library", "native-cc-objc-library", "native-cc-toolchain", "native-cc-fdo-profile", "native-cc-common",
	"native-cc-debug-package-info", "native-cc-info", "native-cc-shared-library-info", "native-java-binary", "native-java-library", "native-java-package-config", "native-java-runtime", "native-java-common", "native-java-info",
	"native-proto", "native-java-proto", "native-cc-proto", "native-proto-lang-toolchain", "native-proto-info", "native-proto-common", "native-py", "native-sh-binary", "native-sh-library", "native-sh-test"}
var fixCats = []string{"integer-division", "attr-cfg", "attr-non-empty", "attr-single-file", "ctx-actions", "ctx-args", "package-name", "repository-name", "output-group", "native-build",
	"keyword-positional-params", "depset-iteration", "list-append", "unsorted-dict-items", "package-on-top", "skylark-docstring", "skylark-comment"}
var fixRules = map[string][]string{"git-repository": {"git_repository", "new_git_repository"}, "http-archive": {"http_archive"}, "native-android": {"aar_import", "android_binary", "android_device"},
	"native-cc-binary": {"cc_binary"}, "native-cc-library": {"cc_library"}, "native-cc-objc-library": {"objc_library"}, "native-cc-toolchain": {"cc_toolchain"}, "native-cc-fdo-profile": {"fdo_profile"},
	"native-java-binary": {"java_binary"}, "native-java-library": {"java_library"}, "native-java-package-config": {"java_package_configuration"}, "native-java-runtime": {"java_runtime"},
	"native-proto": {"proto_library"}, "native-java-proto": {"java_proto_library"}, "native-cc-proto": {"cc_proto_library"}, "native-proto-lang-toolchain": {"proto_lang_toolchain"},
	"native-py": {"py_library", "py_binary", "py_test", "py_runtime"}, "native-sh-binary": {"sh_binary"}, "native-sh-library": {"sh_library"}, "native-sh-test": {"sh_test"}}
var fixSyms = map[string]string{"native-cc-common": "cc_common", "native-cc-debug-package-info": "DebugPackageInfo", "native-cc-info": "CcInfo", "native-cc-shared-library-info": "CcSharedLibraryInfo",
	"native-java-common": "java_common", "native-java-info": "JavaInfo", "native-proto-info": "ProtoInfo", "native-proto-common": "proto_common"}

type repGen struct {
	r      *rand.Rand
	cats   []string
	vars   []string // variables and parameters in scope
	nvar   int
	args   []string
	deps   []string
	marks  bool
	bzl    bool
	loaded map[string]bool
}

func (g *repGen) n(k int) int             { return g.r.Intn(k) }
func (g *repGen) p(k int) bool            { return g.r.Intn(k) == 0 }
func (g *repGen) pick(q ...string) string { return q[g.r.Intn(len(q))] }
func (g *repGen) id(s string) *Node       { return mk("id", s) }
func (g *repGen) call(f *Node, a ...*Node) *Node {
	return mk("call", "", append([]*Node{f}, a...)...)
}
func (g *repGen) dot(x *Node, names ...string) *Node {
	for _, s := range names {
		x = mk("dot", s, x)
	}
	return x
}
func (g *repGen) kw(name string, x *Node) *Node { return mk("asg", "=", g.id(name), x) }
func (g *repGen) v() *Node {
	if len(g.vars) == 0 || g.p(4) {
		return g.id(g.pick("foo", "bar"))
	}
	return g.id(g.vars[g.n(len(g.vars))])
}
func (g *repGen) str() *Node {
	return mk("str", g.pick("a", "b", "_c", "d.txt", ":t", "//conditions:default", "Skylark", "c", "x y"))
}
func (g *repGen) atom() *Node {
	switch g.n(6) {
	case 0, 1:
		return mk("num", g.pick("2", "8", "10", "0x1F", "0o17", "5.0", "3"))
	case 2:
		return g.str()
	case 3:
		return g.id(g.pick("True", "False", "None"))
	}
	return g.v()
}

// expr is an expression, with the shapes the chosen categories look for more often.
func (g *repGen) expr(d int) *Node {
	if d <= 0 {
		return g.atom()
	}
	if g.n(3) > 0 {
		return g.hot(g.cats[g.n(len(g.cats))], d)
	}
	e := func() *Node { return g.expr(d - 1) }
	switch g.n(12) {
	case 0:
		return mk("bin", g.pick("+", "-", "*", "%", "==", "<", "and", "or", "in", "//", "|"), e(), e())
	case 1:
		return mk("un", g.pick("not", "-", "not"), e())
	case 2:
		return g.call(g.id(g.pick("foo", "len", "sorted", "list")), e())
	case 3:
		return mk("list", "", e(), e())
	case 4:
		return g.dict(d)
	case 5:
		return mk("cond", "", e(), e(), e())
	case 6:
		return mk("index", "", g.v(), e())
	case 7:
		x := g.fresh("c")
		return mk("comp", "[", e(), mk("forc", "", g.id(x), e()))
	case 8:
		return mk("lambda", "", mk("params", "", g.id(g.fresh("l"))), mk("block", "", e()))
	case 9:
		return g.call(g.id("bar"), g.kw(g.pick("k", "x", "deps"), e()))
	}
	return g.hot(g.cats[g.n(len(g.cats))], d)
}
func (g *repGen) fresh(s string) string {
	g.nvar++
	return s + string(rune('a'+g.nvar%26)) + string(rune('a'+g.nvar/26%26))
}
func (g *repGen) dict(d int) *Node {
	n := mk("dict", "")
	for i := g.n(5); i > 0; i-- {
		k := g.str()
		if g.p(6) {
			k = g.v()
		}
		kv := mk("kv", "", k, g.expr(d-1))
		if g.marks && g.p(6) {
			kv.C = append(kv.C, g.com())
		}
		n.K = append(n.K, kv)
	}
	return n
}
func (g *repGen) com() string {
	return g.pick("B", "S") + "# " + g.pick("note", "Skylark is SKYLARK", "skylark", "see docs/skylark.md", "http://x/skylark/y skylark", "skylarkX Skylark", "skylark/", "skylark x/", "buildifier: disable=print", "@unused", "mention of Skylark.")
}
func (g *repGen) depset(d int) *Node {
	if len(g.deps) > 0 && g.p(3) {
		return g.id(g.deps[g.n(len(g.deps))])
	}
	x := g.call(g.id("depset"), g.expr(d-1))
	switch g.n(6) {
	case 0:
		return mk("bin", g.pick("+", "|"), x, g.v())
	case 1:
		return g.call(g.id("depset"))
	}
	return x
}
func (g *repGen) attr(d int) *Node {
	n := g.call(g.dot(g.id("attr"), g.pick("label", "label_list", "string")))
	for _, k := range g.r.Perm(6)[:1+g.n(4)] {
		switch k {
		case 0:
			n.K = append(n.K, g.kw("cfg", []*Node{mk("str", "data"), mk("str", "host"), mk("str", "exec"), g.v()}[g.n(4)]))
		case 1:
			n.K = append(n.K, g.kw("non_empty", []*Node{g.id("True"), g.id("False"), g.v(), mk("un", "not", g.v()), mk("bin", g.pick("or", "and", "==", "+", "in"), g.v(), g.v()), g.expr(d - 1), mk("cond", "", g.v(), g.v(), g.v())}[g.n(7)]))
		case 2:
			n.K = append(n.K, g.kw("single_file", []*Node{g.id("True"), g.id("False"), g.v()}[g.n(3)]))
		case 3:
			n.K = append(n.K, g.kw("allow_files", []*Node{g.id("True"), mk("list", "", g.str()), g.expr(d - 1)}[g.n(3)]))
		case 4:
			n.K = append(n.K, g.kw("mandatory", g.expr(d-1)))
		default:
			n.K = append(n.K, g.kw("doc", mk("str", "doc")))
		}
	}
	return n
}

// hot is an expression a category is about.
func (g *repGen) hot(cat string, d int) *Node {
	e := func() *Node { return g.expr(d - 1) }
	switch cat {
	case "integer-division":
		return mk("bin", g.pick("/", "/", "/", "+", "%"), e(), e())
	case "attr-cfg", "attr-non-empty", "attr-single-file":
		return g.attr(d)
	case "ctx-actions":
		n := g.call(g.dot(g.id("ctx"), g.pick("new_file", "new_file", "experimental_new_directory", "file_action", "action", "empty_action", "template_action", "other")))
		for i := g.n(4); i > 0; i-- {
			n.K = append(n.K, e())
		}
		for i := g.n(3); i > 0; i-- {
			n.K = append(n.K, g.kw([]string{"command", "executable", "output"}[i], e()))
		}
		return n
	case "ctx-args":
		x := g.call(g.dot(g.id("ctx"), "actions", "args"))
		if len(g.args) > 0 && g.n(4) > 0 {
			x = g.id(g.args[g.n(len(g.args))])
		} else if g.p(3) {
			x = g.v()
		}
		n := g.call(g.dot(x, g.pick("add", "add", "add", "add_all")), e())
		for _, k := range g.r.Perm(4)[:g.n(4)] {
			n.K = append(n.K, g.kw([]string{"before_each", "join_with", "map_fn", "format"}[k], e()))
		}
		return n
	case "package-name":
		return g.id("PACKAGE_NAME")
	case "repository-name":
		return g.id("REPOSITORY_NAME")
	case "output-group":
		x := g.dot(g.id(g.pick("ctx", "ctx", "ctx", "foo")), g.pick("attr", "attr", "attr", "file"), "dep", "output_group")
		if g.p(3) {
			x = g.dot(x, "files")
		}
		return x
	case "native-build":
		x := g.dot(g.id("native"), g.pick("cc_library", "glob", "package_name", "foo"))
		if g.p(6) {
			x = g.dot(x, "y")
		}
		return g.call(x, g.kw("name", e()))
	case "keyword-positional-params":
		f := g.pick("all", "len", "str", "hasattr", "getattr", "getattr", "select", "foo", "dict")
		x := g.id(f)
		if g.p(8) {
			x = g.dot(g.id("native"), f)
		}
		n := g.call(x)
		names := map[string][]string{"all": {"elements"}, "hasattr": {"x", "name"}, "getattr": {"x", "name", "default"}}[f]
		if names == nil {
			names = []string{"x"}
		}
		for i, s := range names {
			if g.p(12) {
				break
			}
			if g.p(6) {
				s = names[g.n(len(names))]
			}
			if i < 3 && g.n(3) > 0 {
				n.K = append(n.K, g.kw(s, e()))
			} else {
				n.K = append(n.K, e())
			}
		}
		if g.p(8) {
			n.K = append(n.K, mk("un", "**", g.v()))
		}
		return n
	case "depset-iteration":
		x := g.depset(d)
		switch g.n(6) {
		case 0:
			return mk("bin", g.pick("in", "not in"), g.v(), x)
		case 1:
			return mk("comp", "[", g.v(), mk("forc", "", g.id(g.fresh("c")), x))
		case 2:
			return g.call(g.id("zip"), x, e(), g.depset(d-1))
		}
		return g.call(g.id(g.pick("all", "any", "depset", "len", "sorted", "max", "list", "list", "tuple", "foo")), x)
	case "unsorted-dict-items":
		return g.dict(d)
	}
	if r, ok := fixRules[cat]; ok {
		x := g.id(g.pick(r...))
		if g.p(2) {
			x = g.dot(g.id("native"), x.V)
		}
		return g.call(x, g.kw("name", e()))
	}
	if s, ok := fixSyms[cat]; ok {
		switch g.n(4) {
		case 0:
			return g.dot(g.id(s), "x")
		case 1:
			return mk("index", "", g.v(), g.id(s))
		case 2:
			return g.call(g.id("struct"), g.kw(g.pick(s, "k"), g.id(s)))
		}
		return g.id(s)
	}
	return g.atom()
}

func (g *repGen) decor(n *Node) *Node {
	if !g.marks {
		return n
	}
	if g.p(6) {
		c := g.com()
		if n.T == "def" && len(n.K[0].K) == 0 {
			c = "B" + c[1:] // see the known finding about the comments of such headers
		}
		n.C = append(n.C, c)
	}
	if g.p(12) && len(n.C) == 0 && n.T != "def" {
		cat := g.cats[g.n(len(g.cats))]
		if fixRules[cat] == nil && fixSyms[cat] == "" && cat != "package-on-top" && cat != "skylark-comment" && cat != "skylark-docstring" {
			n.C = append(n.C, "B# buildifier: disable="+cat)
		}
	}
	return n
}
func (g *repGen) stmt(d int, fn bool) *Node { return g.decor(g.stmt0(d, fn)) }
func (g *repGen) stmt0(d int, fn bool) *Node {
	k := g.n(12)
	if g.bzl && fn && k < 3 && d > 0 {
		switch k {
		case 0:
			return mk("if", "", g.expr(1), g.block(d-1), mk("block", ""))
		case 1:
			x := g.expr(1)
			if g.p(2) {
				x = g.depset(1)
			}
			v := g.fresh("i")
			n := mk("for", "", g.id(v), x, mk("block", ""))
			n.K[2] = g.block(d - 1)
			return n
		}
		return mk("return", "", g.expr(2))
	}
	switch k {
	case 3, 4:
		x := g.fresh("v")
		n := mk("asg", "=", g.id(x), g.expr(2))
		if g.p(3) {
			n.K[1] = mk("num", g.pick("8", "2", "5.0"))
		}
		if fn && g.p(4) {
			n.K[1] = g.call(g.dot(g.id("ctx"), "actions", "args"))
			g.args = append(g.args, x)
		} else if g.p(4) {
			n.K[1] = g.call(g.id("depset"), g.v())
			g.deps = append(g.deps, x)
		}
		g.vars = append(g.vars, x)
		return n
	case 5:
		t := mk("index", "", g.v(), g.v())
		if g.p(3) {
			t = mk("dot", "x", g.v())
		}
		n := mk("asg", g.pick("+=", "+=", "/=", "/=", "-="), t, g.expr(1))
		if n.V == "+=" && g.n(3) > 0 {
			n.K[1] = mk("list", "", g.expr(1))
			if g.p(4) {
				n.K[1].K = append(n.K[1].K, g.expr(1))
			}
		}
		return n
	}
	return g.hotStmt()
}
func (g *repGen) hotStmt() *Node {
	cat := g.cats[g.n(len(g.cats))]
	switch cat {
	case "package-on-top":
		switch g.n(4) {
		case 0, 1:
			return g.call(g.id("package"), g.kw("default_visibility", mk("list", "", g.str())))
		case 2:
			return g.call(g.id(g.pick("licenses", "package_group")), mk("list", "", g.str()))
		}
		return g.call(g.id("foo"), g.kw("name", g.str()))
	}
	return g.hot(cat, 3)
}
func (g *repGen) block(d int) *Node {
	b := mk("block", "")
	nv, na, nd := len(g.vars), len(g.args), len(g.deps)
	for i := 1 + g.n(3); i > 0; i-- {
		if g.p(6) {
			// a variable that is augmented right away
			x := g.fresh("w")
			op := g.pick("+=", "/=")
			v, w := mk("num", g.pick("8", "5.0")), mk("num", g.pick("2", "2", "5.0"))
			if op == "+=" {
				v, w = mk("list", ""), mk("list", "", g.expr(1))
			}
			b.K = append(b.K, mk("asg", "=", g.id(x), v), mk("asg", op, g.id(x), w))
		}
		b.K = append(b.K, g.stmt(d, true))
	}
	g.vars, g.args, g.deps = g.vars[:nv], g.args[:na], g.deps[:nd]
	return b
}
func (g *repGen) doc() *Node {
	return mk("str", g.pick("Doc.", "A Skylark file", "skylark and Skylark and SKYLARK.", "see http://x/skylark/", "Skylark\n\nmore skylark text", "skylark/x skylark", "skylark x/y"))
}
func (g *repGen) def() *Node {
	ps := mk("params", "")
	nv, na, nd := len(g.vars), len(g.args), len(g.deps)
	if g.n(3) > 0 {
		ps.K = append(ps.K, g.id("ctx"))
	}
	hasCtx := len(ps.K) > 0
	var names []string
	for i := g.n(3); i > 0; i-- {
		x := g.fresh("p")
		p := g.id(x)
		if i == 1 && g.p(3) {
			// names of parameters are not used in defaults
			if hasCtx {
				p = mk("asg", "=", p, g.atom())
			} else {
				p = mk("asg", "=", p, g.expr(1))
			}
		}
		names = append(names, x)
		ps.K = append(ps.K, p)
	}
	g.vars = append(g.vars, names...)
	name := g.fresh("f")
	if g.p(8) {
		for _, c := range g.cats {
			if r, ok := fixRules[c]; ok {
				name = g.pick(r...)
			}
		}
	}
	if hasCtx && g.p(10) {
		for _, c := range g.cats {
			if r, ok := fixSyms[c]; ok {
				ps.K = append([]*Node{g.id(r)}, ps.K...)
				break
			}
		}
	}
	b := g.block(2)
	if g.p(3) {
		b.K = append([]*Node{g.doc()}, b.K...)
	}
	g.vars, g.args, g.deps = g.vars[:nv], g.args[:na], g.deps[:nd]
	return g.decor(mk("def", name, ps, mk("none", ""), b))
}
func (g *repGen) load() *Node {
	lab := g.pick("@rules_cc//cc:cc_library.bzl", "@rules_cc//cc/common:cc_info.bzl", "@rules_python//python:defs.bzl", ":x.bzl", "@rules_java//java:java_library.bzl", "@bazel_tools//tools/build_defs/repo:git.bzl", "@rules_shell//shell:sh_binary.bzl")
	n := mk("load", lab)
	for _, k := range g.r.Perm(8)[:1+g.n(2)] {
		s := []string{"a", "b", "cc_library", "CcInfo", "py_library", "java_library", "git_repository", "sh_binary"}[k]
		t := s
		if g.p(4) {
			t = "my_" + s
		}
		if g.loaded[t] {
			t = g.fresh("y")
		}
		g.loaded[t] = true
		n.K = append(n.K, mk("sym", t, g.id(s)))
	}
	return n
}
func (g *repGen) file(typ string) *Node {
	t := mk("file", typ)
	g.bzl = typ == ".bzl" || typ == "default"
	if g.p(3) {
		t.K = append(t.K, g.decor(g.doc()))
	}
	for i := g.n(3); i > 0 && g.p(2); i-- {
		t.K = append(t.K, g.decor(g.load()))
	}
	for i := 1 + g.n(3); i > 0; i-- {
		if g.bzl && g.n(3) > 0 {
			t.K = append(t.K, g.def())
		} else {
			t.K = append(t.K, g.stmt(0, false))
		}
	}
	return t
}

func genFixes(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		g := &repGen{r: r, loaded: map[string]bool{}, marks: r.Intn(2) == 0}
		for k := 1 + r.Intn(3); k > 0; k-- {
			q := fixCats
			if r.Intn(3) == 0 {
				q = fixLoadCats
			}
			g.cats = append(g.cats, q[r.Intn(len(q))])
		}
		g.cats = uniqStrs(g.cats)
		typ := []string{".bzl", ".bzl", ".bzl", "default", "BUILD", "BUILD", "WORKSPACE"}[r.Intn(7)]
		lay := int64(0)
		if r.Intn(2) == 0 {
			lay = -1 - r.Int63n(1<<30)
		}
		c := fixCase{Typ: typ, Tree: g.file(typ), Lay: lay, Cats: g.cats}
		if r.Intn(5) == 0 {
			c.Cats = uniqStrs(append(append(append([]string{}, g.cats...), fixCats...), fixLoadCats...))
		}
		r.Shuffle(len(c.Cats), func(i, j int) { c.Cats[i], c.Cats[j] = c.Cats[j], c.Cats[i] })
		emit(c)
	}
}

func init() { props["C22"] = &Prop{Gen: genFixes, Exec: execFix} }
