package main

import (
	"fmt"
	"math/rand"
)

// buildozer fix.

var allFixes = []string{"sortGlob", "splitOptions", "shortenLabels", "removeVisibility", "removeTestOnly", "genruleRenameDepsTools",
	"genruleFixHeuristicLabels", "sortExportsFiles", "varref", "mergeLiteralLists", "movePackageToTop", "usePlusEqual", "unusedLoads", "moveLicenses"}

type fixGen struct{ *bzGen }

func (g *fixGen) strs(n int, pick func() string) *Node {
	l := mk("list", "")
	for i := g.r.Intn(n + 1); i > 0; i-- {
		l.K = append(l.K, g.com(mk("str", pick()), 6, "BS"))
	}
	return l
}

func (g *fixGen) glob() *Node {
	c := mk("call", "", mk("id", "glob"), g.strs(4, func() string { return g.pick("b.cc", "a.cc", "*.h", "z/**", "a.cc") }))
	if g.p(4) {
		c.K = append(c.K, mk("asg", "=", mk("id", "exclude"), g.strs(2, func() string { return g.pick("y.cc", "x.cc") })))
	}
	return c
}

func (g *fixGen) sum(one func() *Node) *Node {
	e := one()
	for g.p(3) {
		e = mk("bin", "+", e, one())
	}
	return e
}

func (g *fixGen) label() string {
	return g.pick(":a", "a", "//"+g.pkg+":a", ":b", "//x:x", "//x", "//x:y", "//x/y:y", "@r//x:x", "a.txt", "tool.sh")
}

func (g *fixGen) opt() string {
	return g.pick("-O2", "-Da -Db", " -x  -y ", "-DX='a b'", "-DS=\"q r\"", "-I $(location :a)", "a b c", "$(locations a) -z", "-L$(X) -lm")
}

func (g *fixGen) cmd() *Node {
	s := ""
	for i := 1 + g.r.Intn(5); i > 0; i-- {
		s += g.pick("cp", "a", ":a", "//x:x", "tool.sh", "$(location :a)", "$(locations a)", "$(execpath :a)", "$@", "$(SRCS)", "a.txt", "location", "b") + g.pick(" ", " ", ">", "; ", "")
	}
	return mk("str", s)
}

func (g *fixGen) vis() *Node {
	return g.strs(2, func() string { return g.pick("//visibility:private", "//visibility:public", "//x:__pkg__") })
}

func (g *fixGen) val(a string) *Node {
	labels := func() *Node {
		switch x := g.r.Intn(12); {
		case x < 7:
			return g.strs(3, g.label)
		case x < 9:
			return g.sel()
		case x < 10:
			return mk("id", g.pick("X", "s1", "s2"))
		}
		return g.glob()
	}
	switch a {
	case "srcs", "deps", "tools", "data", "hdrs":
		return g.sum(labels)
	case "copts", "linkopts":
		return g.sum(func() *Node {
			if g.p(5) {
				return mk("id", g.pick("X", "s3"))
			}
			if g.p(6) {
				return g.sel()
			}
			return g.strs(3, g.opt)
		})
	case "visibility":
		return g.vis()
	case "testonly":
		return g.pickNode(mk("num", "1"), mk("num", "0"), mk("num", "1"), mk("num", "0"), mk("id", "True"), mk("id", "X"))
	case "cmd":
		if g.p(6) {
			return mk("bin", "+", g.cmd(), g.cmd())
		}
		return g.cmd()
	case "size", "foo":
		if g.p(3) {
			return mk("call", "", mk("id", "varref"), g.com(mk("str", g.pick("V", "W")), 6, "B"))
		}
		return mk("str", g.pick("small", "large"))
	}
	return mk("id", "True")
}

func (g *fixGen) pickNode(q ...*Node) *Node { return q[g.r.Intn(len(q))] }

func (g *fixGen) rule(name string) *Node {
	c := mk("call", "", mk("id", g.pick("cc_library", "genrule", "genrule", "cc_test", "test_suite", "s1", "s4")))
	if g.p(15) {
		c.K[0] = mk("dot", "f", mk("id", "s2"))
	}
	c.K = append(c.K, mk("asg", "=", mk("id", "name"), mk("str", name)))
	seen := map[string]bool{}
	for i := g.r.Intn(6); i > 0; i-- {
		a := g.pick("srcs", "deps", "tools", "data", "copts", "linkopts", "visibility", "testonly", "cmd", "size", "foo", "hdrs")
		if seen[a] {
			continue
		}
		seen[a] = true
		v := g.val(a)
		kinds := "B"
		if v.T == "str" || v.T == "num" || v.T == "id" {
			kinds = "BS"
		}
		c.K = append(c.K, g.com(mk("asg", "=", mk("id", a), v), 8, kinds))
	}
	return g.com(c, 5, "B")
}

func (g *fixGen) load() *Node {
	l := g.bzGen.load()
	if g.p(8) {
		l.C = append(l.C, "B# @unused")
	}
	return g.com(l, 5, "B")
}

func (g *fixGen) file() *Node {
	f := mk("file", "BUILD")
	pkgDone := g.p(3)
	pkg := func() {
		if pkgDone {
			return
		}
		pkgDone = true
		c := mk("call", "", mk("id", "package"))
		if !g.p(3) {
			c.K = append(c.K, mk("asg", "=", mk("id", "default_visibility"), g.vis()))
		}
		if g.p(3) {
			c.K = append(c.K, mk("asg", "=", mk("id", "default_testonly"), g.pickNode(mk("num", "1"), mk("num", "0"), mk("id", "True"))))
		}
		if g.p(8) {
			c.K = append(c.K, mk("asg", "=", mk("id", "licenses"), mk("list", "", mk("str", "old"))))
		}
		f.K = append(f.K, g.com(c, 4, "B"))
	}
	if g.p(8) {
		f.K = append(f.K, mk("str", "Doc."))
	}
	for g.p(2) {
		f.K = append(f.K, g.load())
	}
	if g.p(2) {
		pkg()
	}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		switch x := g.r.Intn(12); {
		case x < 6:
			n := fmt.Sprintf("r%d", len(f.K))
			g.names = append(g.names, n)
			f.K = append(f.K, g.rule(n))
		case x < 7:
			f.K = append(f.K, mk("call", "", mk("id", "exports_files"), g.strs(3, func() string { return g.pick("z.txt", "a.txt", "m.sh") })))
		case x < 8:
			f.K = append(f.K, g.com(mk("call", "", mk("id", "licenses"), mk("list", "", mk("str", g.pick("notice", "restricted")))), 4, "B"))
		case x < 10:
			v := g.pick("X", "Y")
			f.K = append(f.K, mk("asg", "=", mk("id", v), g.strs(2, g.label)))
			if g.p(2) {
				f.K = append(f.K, g.com(mk("call", "", mk("dot", g.pick("extend", "append"), mk("id", v)), g.pickNode(g.strs(2, g.label), mk("id", "s5"), mk("str", "q"))), 3, "B"))
			}
		case x < 11:
			f.K = append(f.K, g.load())
		default:
			f.K = append(f.K, mk("asg", "=", mk("id", "v"), bare(g.rule("n1"))))
		}
		if g.p(4) {
			pkg()
		}
	}
	return f
}

func genFix(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		g := &fixGen{&bzGen{r: r, pkg: []string{"p", "p/q", "javatests/p", ""}[r.Intn(4)], comments: r.Intn(2) == 0}}
		c := bzCase{Pkg: g.pkg, Dir: last(g.pkg), Fname: []string{"BUILD", "BUILD.bazel"}[r.Intn(2)], Lay: -r.Int63n(1 << 30)}
		if g.pkg == "" {
			c.Dir = "ws"
		}
		c.Tree = g.file()
		for j := 1 + r.Intn(3); j > 0; j-- {
			a := []string{}
			for g.p(2) {
				a = append(a, g.pick(allFixes...))
			}
			st := bzStep{Cmds: []bzCmd{{C: "fix", A: a, T: []string{"", "", ""}}}, Spell: []int{0}, Keep: g.p(4), Eol: true, Types: []string{}, Targets: []string{"__pkg__"}}
			switch g.r.Intn(5) {
			case 0:
				st.Targets[0] = g.pick("all", "*", "%genrule")
			case 1:
				st.Targets[0] = g.name()
			}
			c.Steps = append(c.Steps, st)
			if g.p(3) {
				c.Steps = append(c.Steps, st)
			}
		}
		emit(c)
	}
}

func init() { props["C31"] = &Prop{Gen: genFix, Exec: execBz} }
