package main

import "math/rand"

// Module extensions in MODULE.bazel.

type modGen struct {
	*bzGen
	proxies []string
	own     string
}

func (g *modGen) ext() string {
	return g.pick("//x:e.bzl", "//x:e.bzl", "@m//x:e.bzl", "@//x:e.bzl", "@r//:e.bzl", "@r//e:e", "@r//e", "//:e.bzl", "@m2//x:e.bzl")
}

func (g *modGen) repo() string { return g.pick("r1", "r2", "r3", "r4", "r5") }

func (g *modGen) file() *Node {
	f := mk("file", "MODULE.bazel")
	id := func(s string) *Node { return mk("id", s) }
	kw := func(k string, v *Node) *Node { return mk("asg", "=", id(k), v) }
	if !g.p(4) {
		m := mk("call", "", id("module"))
		if !g.p(6) {
			m.K = append(m.K, kw("name", mk("str", g.pick("m", "m2"))))
		}
		if g.p(4) {
			m.K = append(m.K, kw("repo_name", mk("str", g.pick("m", "m2"))))
		}
		if g.p(4) {
			m.K = append(m.K, kw("version", mk("str", "1")))
		}
		f.K = append(f.K, g.com(m, 5, "B"))
	}
	names := []string{"e1", "e2", "e3", "e4"}
	use := func(p string) {
		u := mk("call", "", id("use_repo"), id(p))
		seen := map[string]bool{}
		for i := 1 + g.r.Intn(4); i > 0; i-- {
			r := g.repo()
			if seen[r] && !g.p(20) {
				continue
			}
			seen[r] = true
			v := mk("str", r)
			if g.p(5) {
				v = kw(g.pick("k1", "k2", "k3")+r, v)
			}
			u.K = append(u.K, g.com(v, 6, "B"))
		}
		f.K = append(f.K, g.com(u, 6, "B"))
	}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		p := names[len(g.proxies)]
		g.proxies = append(g.proxies, p)
		c := mk("call", "", id("use_extension"), mk("str", g.ext()), mk("str", g.pick("e", "e", "f")))
		if g.p(3) {
			c.K = append(c.K, kw("dev_dependency", id(g.pick("True", "True", "False"))))
		}
		if g.p(6) {
			c.K = append(c.K, kw("isolate", id(g.pick("True", "True", "False"))))
		}
		f.K = append(f.K, g.com(mk("asg", "=", id(p), c), 6, "B"))
		for g.p(3) {
			q := g.proxies[g.r.Intn(len(g.proxies))]
			f.K = append(f.K, g.com(mk("call", "", mk("dot", g.pick("tag", "install"), id(q)), kw("name", mk("str", g.pick("t", "u")))), 6, "B"))
		}
		for g.p(2) {
			use(g.proxies[g.r.Intn(len(g.proxies))])
		}
		if g.p(5) {
			f.K = append(f.K, mk("call", "", id("bazel_dep"), kw("name", mk("str", g.pick("d1", "d2")))))
		}
	}
	if g.p(10) {
		use("other")
	}
	if g.p(8) {
		f.K = append(f.K, mk("call", "", id("use_repo")))
	}
	return f
}

func (g *modGen) cmd() bzCmd {
	c := bzCmd{C: g.pick("use_repo_add", "use_repo_add", "use_repo_remove"), T: []string{"", "", ""}}
	if g.p(12) {
		c.C, c.A = "format", []string{}
		return c
	}
	if g.p(12) {
		c.C, c.A = "set", []string{"foo", "1"}
		return c
	}
	switch g.r.Intn(5) {
	case 0, 1:
		p := g.proxies[g.r.Intn(len(g.proxies))]
		if g.p(12) {
			p = g.pick("dev", "nope", "other", "e4")
		}
		c.A = []string{p}
	case 2:
		c.A = []string{"dev", g.ext(), g.pick("e", "e", "f")}
	default:
		c.A = []string{g.ext(), g.pick("e", "e", "f")}
	}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		c.A = append(c.A, g.repo())
	}
	return c
}

func genMod(r *rand.Rand, n int, emit func(interface{})) {
	for i := 0; i < n; i++ {
		g := &modGen{bzGen: &bzGen{r: r, pkg: []string{"", "p"}[r.Intn(2)], comments: true}}
		c := bzCase{Pkg: g.pkg, Dir: "ws", Fname: "MODULE.bazel", Lay: -r.Int63n(1 << 30)}
		if g.pkg != "" {
			c.Dir = "p"
		}
		c.Tree = g.file()
		if g.p(40) {
			c.Fname, c.Tree.V = "BUILD", "BUILD"
		}
		for j := 1 + r.Intn(4); j > 0; j-- {
			st := bzStep{Spell: []int{0}, Keep: g.p(4), Eol: true, Types: []string{}, Targets: []string{g.pick("all", "all", "__pkg__", "%module", "%use_repo", "*")}}
			for k := 1; k > 0; k-- {
				st.Cmds = append(st.Cmds, g.cmd())
				if g.p(3) {
					k++
				}
			}
			c.Steps = append(c.Steps, st)
		}
		emit(c)
	}
}

func init() { props["C09"] = &Prop{Gen: genMod, Exec: execBz} }
