package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
)

// Tables of the user (C28).

type tbEnt struct {
	T string `json:"t"`
	K string `json:"k"`
	V int    `json:"v"`
}

type tbLoad struct {
	Merge bool    `json:"merge"`
	Bad   string  `json:"bad"` // "", "missing", "syntax", "type", "dir"
	Ents  []tbEnt `json:"ents"`
	Up    int     `json:"up"` // how many directories above
}

type tbCase struct {
	How   string   `json:"how"` // api, flags, config, buildozer
	Path  string   `json:"path"`
	Tree  *Node    `json:"tree"`
	Lay   int64    `json:"lay"`
	Loads []tbLoad `json:"loads"`
	Attr  string   `json:"attr"`
	Swap  bool     `json:"swap"`
}

type tbObs struct {
	Errs    []bool  `json:"errs"`
	Trees   []*Node `json:"trees"`
	Code    int     `json:"code"`
	Changed bool    `json:"changed"`
	Made    string  `json:"made"`
	Msg     string  `json:"msg"`
}

var tbFlags = map[string]bool{"StripLabelLeadingSlashes": true, "ShortenAbsoluteLabelsToRelative": true}

func (l tbLoad) write(path string) error {
	switch l.Bad {
	case "missing":
		return nil
	case "dir":
		return os.MkdirAll(path, 0o755)
	}
	doc := map[string]interface{}{}
	for _, e := range l.Ents {
		if tbFlags[e.T] {
			doc[e.T] = e.V == 1
			continue
		}
		m, _ := doc[e.T].(map[string]interface{})
		if m == nil {
			m = map[string]interface{}{}
			doc[e.T] = m
		}
		if e.T == "NamePriority" {
			m[e.K] = e.V
		} else {
			m[e.K] = e.V == 1
		}
	}
	if l.Bad == "type" {
		doc["SortableAllowlist"] = map[string]interface{}{"a.b": "yes"}
	}
	b, err := json.MarshalIndent(doc, "", "  ")
	if err != nil {
		return err
	}
	if l.Bad == "syntax" {
		b = b[:len(b)-1]
	}
	return os.WriteFile(path, b, 0o644)
}

func tbCopy(m map[string]bool) map[string]bool {
	if m == nil {
		return nil
	}
	r := map[string]bool{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// tbSave remembers the tables and returns a function that puts them back.
func tbSave() func() {
	save := []map[string]bool{tables.IsLabelArg, tables.LabelDenylist, tables.IsListArg, tables.IsSortableListArg, tables.SortableDenylist, tables.SortableAllowlist}
	var cp []map[string]bool
	for _, m := range save {
		cp = append(cp, tbCopy(m))
	}
	prio := map[string]int{}
	for k, v := range tables.NamePriority {
		prio[k] = v
	}
	strip, shorten := tables.StripLabelLeadingSlashes, tables.ShortenAbsoluteLabelsToRelative
	return func() {
		tables.OverrideTables(cp[0], cp[1], cp[2], cp[3], cp[4], cp[5], prio, strip, shorten)
	}
}

func execTables(in json.RawMessage) (interface{}, error) {
	var c tbCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "tb")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	o := tbObs{Errs: []bool{}, Trees: []*Node{}}
	src := renderFile(c.Tree, c.Lay)
	tree := func(b []byte) *Node {
		f, err := parseAs(c.Tree.V, c.Path, b)
		if err != nil {
			return mk("none", err.Error())
		}
		return fileTree(f, projOpts{comments: true})
	}
	if c.How == "api" {
		defer tbSave()()
		form := func() *Node {
			f, err := parseAs(c.Tree.V, c.Path, []byte(src))
			if err != nil {
				return mk("none", err.Error())
			}
			return tree(build.Format(f))
		}
		o.Trees = append(o.Trees, form())
		for i, l := range c.Loads {
			p := filepath.Join(tmp, fmt.Sprintf("t%d.json", i))
			if err := l.write(p); err != nil {
				return nil, err
			}
			err := tables.ParseAndUpdateJSONDefinitions(p, l.Merge)
			o.Errs = append(o.Errs, err != nil)
			o.Trees = append(o.Trees, form())
		}
		return o, nil
	}
	cwd := filepath.Join(tmp, "w", "a", "b")
	file := filepath.Join(cwd, c.Path)
	if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
		return nil, err
	}
	os.WriteFile(filepath.Join(cwd, "WORKSPACE"), nil, 0o644)
	if c.How == "buildozer" {
		src = "foo(name = \"n\")\n"
	}
	if err := os.WriteFile(file, []byte(src), 0o644); err != nil {
		return nil, err
	}
	var args []string
	conf := map[string]interface{}{}
	for i, l := range c.Loads {
		d := cwd
		for j := 0; j < l.Up; j++ {
			d = filepath.Dir(d)
		}
		n := fmt.Sprintf("t%d.json", i)
		if err := l.write(filepath.Join(d, n)); err != nil {
			return nil, err
		}
		k, f := "tables", "-tables="
		if l.Merge {
			k, f = "addTables", "-add_tables="
		}
		conf[k] = n
		if c.How == "buildozer" && l.Up > 0 {
			n = strings.Repeat("../", l.Up) + n
		}
		args = append(args, f+n)
	}
	if c.Swap && len(args) == 2 {
		args[0], args[1] = args[1], args[0]
	}
	prog := "buildifier"
	switch c.How {
	case "config":
		b, _ := json.Marshal(conf)
		os.WriteFile(filepath.Join(cwd, ".buildifier.json"), b, 0o644)
		args = []string{c.Path}
	case "flags":
		args = append(args, c.Path)
	case "buildozer":
		prog = "buildozer"
		args = append(args, "set "+c.Attr+" v", "//"+filepath.Dir(c.Path)+":n")
	}
	cmd := exec.Command(filepath.Join(os.Getenv("VH_BIN"), prog), args...)
	cmd.Dir = cwd
	cmd.Env = []string{"PATH=/usr/bin:/bin", "PWD=" + cwd, "HOME=" + tmp}
	out, err := cmd.CombinedOutput()
	o.Msg = strings.ReplaceAll(string(out), tmp, "")
	if e, ok := err.(*exec.ExitError); ok {
		o.Code = e.ExitCode()
	} else if err != nil {
		return nil, err
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	o.Changed = string(b) != src
	o.Trees = append(o.Trees, tree(b))
	if c.How == "buildozer" {
		o.Made = "none"
		f, err := build.ParseBuild(file, b)
		if err == nil {
			for _, r := range f.Rules("foo") {
				switch r.Attr(c.Attr).(type) {
				case nil:
				case *build.ListExpr:
					o.Made = "list"
				default:
					o.Made = "one"
				}
			}
		}
	}
	return o, nil
}

type tbGen struct{ *gen }

func (g tbGen) load(merge bool) tbLoad {
	l := tbLoad{Merge: merge, Ents: []tbEnt{}}
	if g.p(12) {
		l.Bad = g.pick("missing", "syntax", "type", "dir")
	}
	seen := map[string]bool{}
	add := func(t, k string, v int) {
		if !seen[t+" "+k] {
			seen[t+" "+k] = true
			l.Ents = append(l.Ents, tbEnt{t, k, v})
		}
	}
	attr := func() string { return genAttrs[g.r.Intn(len(genAttrs))] }
	ctx := func() string {
		return g.pick("cc_library", "genrule", "my_rule", "py_test", "native", "cc_embed_data", "package_group", "cc_binary", "filegroup", "module", "bazel_dep") + "." + attr()
	}
	yes := func() int {
		if g.p(4) {
			return 0
		}
		return 1
	}
	for i := g.r.Intn(14); i > 0; i-- {
		switch g.r.Intn(9) {
		case 0, 1:
			add("IsLabelArg", attr(), yes())
		case 2:
			add("LabelDenylist", ctx(), yes())
		case 3:
			add("IsListArg", attr(), yes())
		case 4, 5:
			add("IsSortableListArg", attr(), yes())
		case 6:
			add("SortableDenylist", ctx(), yes())
		case 7:
			add("SortableAllowlist", ctx(), yes())
		default:
			k := attr()
			if g.p(3) {
				k = ctx()
			}
			add("NamePriority", k, g.r.Intn(7)-3)
		}
	}
	if g.p(5) {
		add("StripLabelLeadingSlashes", "", yes())
	}
	if g.p(5) {
		add("ShortenAbsoluteLabelsToRelative", "", yes())
	}
	return l
}

var tbNames = map[string]string{"BUILD": "BUILD", ".bzl": "f.bzl", "MODULE.bazel": "MODULE.bazel", "WORKSPACE": "WORKSPACE", "default": "f.txt"}

func (g tbGen) tbCase() tbCase {
	g.o.typ = g.pick("BUILD", "BUILD", "BUILD", "BUILD", "MODULE.bazel", "WORKSPACE", ".bzl")
	c := tbCase{How: g.pick("api", "api", "flags", "config", "buildozer"), Lay: g.r.Int63n(1 << 30), Loads: []tbLoad{}}
	c.Tree = g.file()
	c.Path = g.pick("x/", "x/", "x/y/", "", "z/", "x-y/") + tbNames[g.o.typ]
	switch c.How {
	case "api":
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			c.Loads = append(c.Loads, g.load(!g.p(3)))
		}
	default:
		if c.How == "buildozer" {
			c.Tree = mk("file", "BUILD")
			c.Path = "x/BUILD"
			c.Attr = g.pick("deps", "srcs", "tags", "copts", "args", "visibility", "data", "outs", "foo", "zeta", "cmd", "size", "tool", "configs", "x")
			c.Swap = g.p(2)
		}
		k := g.r.Intn(3)
		if k != 1 {
			c.Loads = append(c.Loads, g.load(false))
		}
		if k != 0 {
			c.Loads = append(c.Loads, g.load(true))
		}
		for i := range c.Loads {
			if c.How == "buildozer" {
				for j := g.r.Intn(3); j > 0; j-- {
					e := tbEnt{g.pick("IsListArg", "IsListArg", "IsSortableListArg"), c.Attr, g.r.Intn(2)}
					ok := true
					for _, x := range c.Loads[i].Ents {
						ok = ok && (x.T != e.T || x.K != e.K)
					}
					if ok {
						c.Loads[i].Ents = append(c.Loads[i].Ents, e)
					}
				}
			}
			if g.p(3) {
				c.Loads[i].Up = 1 + g.r.Intn(2)
			}
		}
		c.Swap = g.p(2)
	}
	return c
}

func init() {
	props["C28"] = &Prop{Gen: func(r *rand.Rand, n int, emit func(interface{})) {
		for i := 0; i < n; i++ {
			emit(tbGen{&gen{r: r, o: genOpts{dirs: true}}}.tbCase())
		}
	}, Exec: execTables}
}
