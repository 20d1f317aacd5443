package main

import (
	"bytes"
	"encoding/json"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Whole runs of buildifier (C24, C25).

type bfFile struct {
	Path string   `json:"path"`
	Kind string   `json:"kind"` // file, dir
	Q    []string `json:"q"`
	RO   bool     `json:"ro"`
}

type bfKV struct {
	N string `json:"n"`
	V string `json:"v"`
	F int    `json:"f"` // how it is spelled
}

type bfCfg struct {
	Path   string `json:"path"`
	Set    []bfKV `json:"set"`
	Broken bool   `json:"broken"`
	How    string `json:"how"`
}

type bfEnv struct {
	Has    bool   `json:"has"`
	Config string `json:"config"`
	Diff   string `json:"diff"`
	Multi  string `json:"multi"`
}

type bfRun struct {
	Flags []bfKV   `json:"flags"`
	Args  []string `json:"args"`
	Stdin []string `json:"stdin"`
	Env   bfEnv    `json:"env"`
}

type bfCase struct {
	Files []bfFile `json:"files"`
	Cfgs  []bfCfg  `json:"cfgs"`
	Cwd   string   `json:"cwd"`
	Runs  []bfRun  `json:"runs"`
}

type bfWarn struct {
	Line int    `json:"line"`
	Cat  string `json:"cat"`
	Fix  bool   `json:"fix"`
}

type bfDiag struct {
	Name      string   `json:"name"`
	Formatted bool     `json:"formatted"`
	Valid     bool     `json:"valid"`
	Warnings  []bfWarn `json:"warnings"`
}

type bfFileObs struct {
	Text    string `json:"text"`
	Touched bool   `json:"touched"`
}

type bfRunObs struct {
	Code     int         `json:"code"`
	Out      string      `json:"out"`
	OutLines []string    `json:"outlines"`
	Err      []string    `json:"err"`
	JSONOK   bool        `json:"jsonok"`
	Indented bool        `json:"indented"`
	Success  bool        `json:"success"`
	Diags    []bfDiag    `json:"diags"`
	Files    []bfFileObs `json:"files"`
	Leftover string      `json:"leftover"`
}

var bfTexts = map[string]string{
	"a": "f(a = 1)", "b": "f(a=1)", "c": "f(a = 1 / 2)", "d": "f(a = 1 // 2)", "e": "f(a=1/2)", "p": "print(1)",
	"g": `f(a = {"b": 1, "a": 2})`, "h": `f(a = {"a": 2, "b": 1})`,
	"G": "f(a = {\n    \"b\": 1,\n    \"a\": 2,\n})", "H": "f(a = {\n    \"a\": 2,\n    \"b\": 1,\n})",
	"k00": bfLib(false, false), "k10": bfLib(true, false), "k01": bfLib(false, true), "k11": bfLib(true, true), "bad": "x = (",
}

func bfLib(s, z bool) string {
	l := func(n string, sorted bool) string {
		if sorted {
			return "    " + n + " = [\n        \"a\",\n        \"b\",\n    ],\n"
		}
		return "    " + n + " = [\n        \"b\",\n        \"a\",\n    ],\n"
	}
	return "foo_library(\n    name = \"x\",\n" + l("srcs", s) + l("zz", z) + ")"
}

func bfText(q []string) string {
	s := "\"\"\"Doc.\"\"\"\n"
	for _, id := range q {
		s += "\n" + bfTexts[id] + "\n"
	}
	return s
}

var bfKeys = map[string]string{"d": "diffMode", "r": "recursive", "v": "verbose", "diff_command": "diffCommand", "multi_diff": "multiDiff"}
var bfBools = map[string]bool{"d": true, "r": true, "v": true, "multi_diff": true, "help": true, "version": true}
var bfLists = map[string]bool{"warningsList": true, "allowsort": true, "buildifier_disable": true}

func (c bfCfg) text() string {
	switch c.How {
	case "syntax":
		return `{"mode": "check",`
	case "type":
		return `{"verbose": "yes"}`
	case "list":
		return `{"warningsList": "print"}`
	}
	m := map[string]interface{}{"unknownKey": 1}
	for _, kv := range c.Set {
		k := kv.N
		if x := bfKeys[k]; x != "" {
			k = x
		}
		switch {
		case bfBools[kv.N]:
			m[k] = kv.V == "true"
		case bfLists[kv.N]:
			l := []string{}
			if kv.V != "" {
				l = strings.Split(kv.V, "|")
			}
			m[k] = l
		default:
			m[k] = kv.V
		}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	return string(b)
}

func bfArgv(r bfRun) []string {
	var a []string
	for _, kv := range r.Flags {
		dash := "-"
		if kv.F%2 == 1 {
			dash = "--"
		}
		switch {
		case bfBools[kv.N] && kv.V == "true" && kv.F < 2:
			a = append(a, dash+kv.N)
		case !bfBools[kv.N] && kv.F >= 2:
			a = append(a, dash+kv.N, kv.V)
		default:
			a = append(a, dash+kv.N+"="+kv.V)
		}
	}
	return append(a, r.Args...)
}

const bfDiff = `#!/bin/bash
while [ $# -gt 0 ]; do
  if [ "$1" = : ]; then echo M; shift; continue; fi
  o=$1; n=$2; shift 2
  case "$o" in *buildifier-tmp-*) o=-;; esac
  echo "D $o"; cat "$n"
done
exit `

func lines(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return []string{}
	}
	return strings.Split(s, "\n")
}

func execBf(in json.RawMessage) (interface{}, error) {
	var c bfCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "bf")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	ws, bin, tdir := filepath.Join(tmp, "w"), filepath.Join(tmp, "bin"), filepath.Join(tmp, "t")
	for _, d := range []string{ws, bin, tdir, filepath.Join(ws, c.Cwd)} {
		os.MkdirAll(d, 0o755)
	}
	for i, n := range []string{"vd0", "vd1"} {
		os.WriteFile(filepath.Join(bin, n), []byte(bfDiff+string(rune('0'+i))+"\n"), 0o755)
	}
	unpriv := false
	init := []string{}
	known := map[string]bool{}
	for _, f := range c.Files {
		p := filepath.Join(ws, f.Path)
		known[f.Path] = true
		os.MkdirAll(filepath.Dir(p), 0o755)
		if f.Kind == "dir" {
			os.MkdirAll(p, 0o755)
			init = append(init, "")
			continue
		}
		unpriv = unpriv || f.RO
		os.WriteFile(p, []byte(bfText(f.Q)), 0o644)
		b, _ := os.ReadFile(p)
		init = append(init, string(b))
	}
	for _, cf := range c.Cfgs {
		p := filepath.Join(ws, cf.Path)
		known[cf.Path] = true
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(cf.text()), 0o644)
	}
	exe := filepath.Join(os.Getenv("VH_BIN"), "buildifier")
	if unpriv {
		// A user for whom read-only means read-only.
		b, err := os.ReadFile(exe)
		if err != nil {
			return nil, err
		}
		exe = filepath.Join(bin, "buildifier")
		os.WriteFile(exe, b, 0o755)
		for _, d := range []string{filepath.Dir(tmp), tmp, bin} {
			os.Chmod(d, 0o755)
		}
		os.Chmod(tdir, 0o777)
		filepath.WalkDir(ws, func(p string, d fs.DirEntry, err error) error {
			if err == nil {
				rel, _ := filepath.Rel(ws, p)
				mode := os.FileMode(0o666)
				if d.IsDir() {
					mode = 0o777
				}
				for _, f := range c.Files {
					if f.Path == rel && f.RO {
						mode = 0o444
					}
				}
				os.Chmod(p, mode)
			}
			return nil
		})
	}
	cwd := filepath.Join(ws, c.Cwd)
	old := time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
	res := []bfRunObs{}
	for _, r := range c.Runs {
		for _, f := range c.Files {
			os.Chtimes(filepath.Join(ws, f.Path), old, old)
		}
		cmd := exec.Command(exe, bfArgv(r)...)
		cmd.Dir = cwd
		cmd.Env = []string{"PATH=" + bin + ":/usr/local/bin:/usr/bin:/bin", "HOME=" + tmp, "TMPDIR=" + tdir, "PWD=" + cwd}
		if r.Env.Has {
			cmd.Env = append(cmd.Env, "BUILDIFIER_CONFIG="+r.Env.Config)
		}
		if r.Env.Diff != "" {
			cmd.Env = append(cmd.Env, "BUILDIFIER_DIFF="+r.Env.Diff)
		}
		if r.Env.Multi != "" {
			cmd.Env = append(cmd.Env, "BUILDIFIER_MULTIDIFF="+r.Env.Multi)
		}
		var ob, eb bytes.Buffer
		cmd.Stdin, cmd.Stdout, cmd.Stderr = strings.NewReader(bfText(r.Stdin)), &ob, &eb
		if unpriv {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		}
		if err := cmd.Run(); err != nil {
			if _, ok := err.(*exec.ExitError); !ok {
				return nil, err
			}
		}
		o := bfRunObs{Code: cmd.ProcessState.ExitCode(), Out: strings.ReplaceAll(ob.String(), tmp, ""), Diags: []bfDiag{}, Files: []bfFileObs{}}
		o.OutLines = lines(o.Out)
		o.Err = lines(strings.ReplaceAll(eb.String(), tmp, ""))
		var j struct {
			Success bool
			Files   []struct {
				Filename         string
				Formatted, Valid bool
				Warnings         []struct {
					Start       struct{ Line int }
					Category    string
					AutoFixable bool
				}
			}
		}
		if strings.HasPrefix(o.Out, "{") && json.Unmarshal(ob.Bytes(), &j) == nil {
			o.JSONOK, o.Success, o.Indented = true, j.Success, len(o.OutLines) > 1
			for _, f := range j.Files {
				d := bfDiag{Name: f.Filename, Formatted: f.Formatted, Valid: f.Valid, Warnings: []bfWarn{}}
				for _, w := range f.Warnings {
					d.Warnings = append(d.Warnings, bfWarn{w.Start.Line, w.Category, w.AutoFixable})
				}
				o.Diags = append(o.Diags, d)
			}
		}
		for _, f := range c.Files {
			fo := bfFileObs{}
			p := filepath.Join(ws, f.Path)
			if f.Kind == "file" {
				b, _ := os.ReadFile(p)
				fo.Text = string(b)
			}
			fi, err := os.Stat(p)
			fo.Touched = err != nil || !fi.ModTime().Equal(old)
			o.Files = append(o.Files, fo)
		}
		filepath.WalkDir(tmp, func(p string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				if rel, _ := filepath.Rel(ws, p); strings.HasPrefix(p, tdir) || (strings.HasPrefix(p, ws) && !known[rel]) {
					o.Leftover = strings.TrimPrefix(p, tmp)
				}
			}
			return nil
		})
		res = append(res, o)
	}
	return map[string]interface{}{"runs": res, "init": init}, nil
}

type bfGen struct{ r *rand.Rand }

func (g bfGen) p(n int) bool            { return g.r.Intn(n) == 0 }
func (g bfGen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

func (g bfGen) stmts() []string {
	q := []string{}
	if g.p(8) {
		return q
	}
	for i := g.r.Intn(4); i > 0; i-- {
		if g.p(2) {
			q = append(q, g.pick("a", "d", "H", "a"))
		} else {
			q = append(q, g.pick("b", "c", "e", "p", "g", "h", "G", "H"))
		}
	}
	if g.p(6) {
		q = append(q, g.pick("k00", "k10", "k01", "k11"))
	} else if g.p(10) {
		q = append(q, "bad")
	}
	return q
}

// in the order of a walk
var bfNames = []string{".git/config.bzl", "BUILD", "MODULE.bazel", "WORKSPACE", "a.bzl", "b.sky", "c.txt", "d.star", "sub/.git/x.bzl", "sub/BUILD.bazel", "sub/BUILD.txt", "sub/deep/lib.bzl", "sub/z.bzl"}

func (g bfGen) files(cwd string) []bfFile {
	var fs []bfFile
	for _, n := range bfNames {
		if !g.p(2) {
			continue
		}
		f := bfFile{Path: n, Kind: "file", Q: g.stmts()}
		if cwd != "" {
			f.Path = cwd + "/" + n
		}
		if g.p(15) && !strings.Contains(n, "/") {
			f.Kind, f.Q = "dir", []string{}
		}
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		f := bfFile{Path: "BUILD", Kind: "file", Q: g.stmts()}
		if cwd != "" {
			f.Path = cwd + "/BUILD"
		}
		fs = append(fs, f)
	}
	return fs
}

func (g bfGen) kv(n, v string) bfKV { return bfKV{N: n, V: v, F: g.r.Intn(4)} }

func (g bfGen) warnings() string {
	if g.p(6) {
		return g.pick("all", "default", "")
	}
	cats := []string{"print", "integer-division", "unsorted-dict-items", "load"}
	var q []string
	mod := g.p(2)
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		w := cats[g.r.Intn(len(cats))]
		if mod {
			w = g.pick("+", "-") + w
		}
		q = append(q, w)
	}
	if g.p(25) {
		q = append(q, g.pick("nope", "+nope", "-nope", "print", "-print", "", "all"))
	}
	return strings.Join(q, ",")
}

// args of a run: some files, in any order, without repetition
func (g bfGen) args(fs []bfFile, cwd string, rec bool) []string {
	var q []string
	strip := func(p string) string {
		if cwd != "" {
			return strings.TrimPrefix(p, cwd+"/")
		}
		return p
	}
	if rec && g.p(2) {
		q = append(q, g.pick(".", "sub", "sub", ".git"))
		for _, f := range fs {
			s := strip(f.Path)
			if q[0] == "sub" && !strings.HasPrefix(s, "sub/") && g.p(3) {
				q = append(q, s)
			}
		}
	} else {
		for _, f := range fs {
			if g.p(2) {
				q = append(q, strip(f.Path))
			}
		}
	}
	if g.p(8) {
		q = append(q, g.pick("gone.bzl", "gone/BUILD"))
	}
	g.r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
	if g.p(3) && len(q) > 1 {
		q = q[:1]
	}
	if len(q) == 0 && g.p(2) {
		q = append(q, strip(fs[0].Path))
	}
	if g.p(30) {
		q = []string{"-"}
	}
	if g.p(60) {
		q = append(q, "-")
	}
	if q == nil {
		q = []string{}
	}
	return q
}

func (g bfGen) run(fs []bfFile, cwd string) bfRun {
	r := bfRun{Flags: []bfKV{}, Stdin: g.stmts()}
	add := func(n, v string) { r.Flags = append(r.Flags, g.kv(n, v)) }
	mode := g.pick("", "fix", "check", "check", "diff", "print_if_changed")
	if mode == "diff" && g.p(2) {
		add("d", "true")
	} else if mode != "" {
		add("mode", mode)
	}
	lint := g.pick("", "off", "warn", "warn", "fix")
	if lint == "fix" && mode != "" && mode != "fix" && !g.p(10) {
		lint = "warn"
	}
	if lint != "" {
		add("lint", lint)
	}
	if mode == "check" && g.p(2) || g.p(40) {
		add("format", g.pick("json", "json", "text"))
	}
	if mode == "diff" || g.p(20) {
		if !g.p(4) {
			add("diff_command", g.pick("vd0", "vd1", "vd0", ":"))
		}
		if g.p(3) {
			add("multi_diff", "true")
		}
		if g.p(4) {
			r.Env.Diff = g.pick("vd0", "vd1")
			if g.p(2) {
				r.Env.Multi = g.pick("0", "1")
			}
		}
	}
	if g.p(3) {
		add("v", "true")
	}
	rec := g.p(4)
	if rec {
		add("r", "true")
	}
	if g.p(4) {
		add("warnings", g.warnings())
	}
	if g.p(6) {
		add("type", g.pick("build", "bzl", "workspace", "default", "module", "auto"))
	}
	if g.p(10) {
		add("path", g.pick("x/BUILD", "x/y.bzl", "WORKSPACE"))
	}
	if g.p(15) {
		add("allowsort", "foo_library.zz")
	}
	if g.p(15) {
		add("buildifier_disable", g.pick("listsort", "loadsort"))
	}
	if g.p(30) {
		add(g.pick("mode", "lint", "format", "type"), g.pick("bogus", "Fix", "fix "))
	}
	if g.p(60) {
		add("nosuchflag", "true")
	}
	g.r.Shuffle(len(r.Flags), func(i, j int) { r.Flags[i], r.Flags[j] = r.Flags[j], r.Flags[i] })
	r.Args = g.args(fs, cwd, rec)
	if len(r.Args) > 1 && (mode == "print_if_changed" || strings.Contains(strings.Join(bfArgv(r), " "), "path")) && !g.p(10) {
		r.Args = r.Args[:1]
	}
	return r
}

func init() {
	props["C24"] = &Prop{
		Gen: func(r *rand.Rand, n int, emit func(interface{})) {
			g := bfGen{r}
			for i := 0; i < n; i++ {
				c := bfCase{Files: g.files(""), Cfgs: []bfCfg{}}
				if g.p(10) {
					for j := range c.Files {
						c.Files[j].RO = c.Files[j].Kind == "file" && g.p(3)
					}
				}
				for j := 1 + r.Intn(3); j > 0; j-- {
					if len(c.Runs) > 0 && g.p(3) {
						c.Runs = append(c.Runs, c.Runs[len(c.Runs)-1])
						continue
					}
					c.Runs = append(c.Runs, g.run(c.Files, ""))
				}
				emit(c)
			}
		},
		Exec: execBf,
	}
	props["C25"] = &Prop{
		Gen: func(r *rand.Rand, n int, emit func(interface{})) {
			g := bfGen{r}
			for i := 0; i < n; i++ {
				emit(g.sources())
			}
		},
		Exec: execBf,
	}
}

// sources is a case about where settings come from.
func (g bfGen) sources() bfCase {
	c := bfCase{Cwd: g.pick("", "a", "a/b", "a/b")}
	for _, n := range []string{"BUILD", "MODULE.bazel", "lib.bzl"} {
		p := n
		if c.Cwd != "" {
			p = c.Cwd + "/" + n
		}
		if g.p(3) && n != "BUILD" {
			continue
		}
		q := []string{}
		for _, id := range []string{"b", "c", "p", "g", "k00"} {
			if g.p(2) {
				q = append(q, id)
			}
		}
		c.Files = append(c.Files, bfFile{Path: p, Kind: "file", Q: q})
	}
	set := func() []bfKV {
		q := []bfKV{}
		for _, kv := range g.options(true) {
			kv.F = 0
			q = append(q, kv)
		}
		return q
	}
	c.Cfgs = []bfCfg{}
	for _, p := range []string{".buildifier.json", "a/.buildifier.json", "a/b/.buildifier.json", "cfg.json", "a/cfg.json", "a/b/cfg.json", "a/b/other.json"} {
		if g.p(2) {
			continue
		}
		cf := bfCfg{Path: p, Set: set()}
		if g.p(25) {
			cf.Broken, cf.How = true, g.pick("syntax", "type", "list")
		}
		c.Cfgs = append(c.Cfgs, cf)
	}
	for j := 1 + g.r.Intn(2); j > 0; j-- {
		r := bfRun{Flags: []bfKV{}, Stdin: g.stmts(), Args: []string{}}
		r.Flags = append(r.Flags, g.options(false)...)
		if g.p(3) {
			r.Flags = append(r.Flags, g.kv("config", g.pick("cfg.json", "other.json", "off", "off", ".buildifier.json", "nowhere.json", "example", "")))
		}
		if g.p(3) {
			r.Env.Has = true
			r.Env.Config = g.pick("cfg.json", "other.json", "off", "", "nowhere.json", "cfg.json", "example")
		}
		if g.p(30) {
			r.Flags = append(r.Flags, g.kv(g.pick("help", "version"), g.pick("true", "true", "false")))
		}
		if g.p(6) {
			r.Env.Diff = g.pick("vd0", "vd1")
		}
		g.r.Shuffle(len(r.Flags), func(i, j int) { r.Flags[i], r.Flags[j] = r.Flags[j], r.Flags[i] })
		if !g.p(6) {
			for _, f := range c.Files {
				r.Args = append(r.Args, filepath.Base(f.Path))
			}
			if g.p(2) {
				r.Args = r.Args[:1]
			}
			if g.p(12) {
				r.Args = []string{"."}
			}
		}
		c.Runs = append(c.Runs, r)
	}
	sort.Slice(c.Files, func(i, j int) bool { return c.Files[i].Path < c.Files[j].Path })
	return c
}

func (g bfGen) options(cfg bool) []bfKV {
	q := []bfKV{}
	add := func(n, v string) { q = append(q, g.kv(n, v)) }
	b := func() string { return g.pick("true", "true", "false") }
	if g.p(2) {
		add("mode", g.pick("check", "check", "diff", "fix", "fix", "print_if_changed"))
	} else if g.p(8) {
		add("d", b())
	}
	if g.p(2) {
		add("lint", g.pick("warn", "warn", "off", "fix"))
	}
	if g.p(3) {
		add("warnings", g.warnings())
	}
	if g.p(6) {
		add("format", g.pick("json", "text", ""))
	}
	if g.p(4) {
		add("v", b())
	}
	if g.p(8) {
		add("r", b())
	}
	if g.p(4) {
		add("type", g.pick("build", "bzl", "auto", "default"))
	}
	if g.p(8) {
		add("path", g.pick("x/BUILD", "y.bzl", ""))
	}
	if g.p(4) {
		add("diff_command", g.pick("vd0", "vd1", "vd0"))
	}
	if g.p(6) {
		add("multi_diff", b())
	}
	if cfg {
		if g.p(4) {
			add("warningsList", g.pick("print", "all", "", "+unsorted-dict-items", "-print", "print|unsorted-dict-items", "+unsorted-dict-items|-print"))
		}
		if g.p(4) {
			add("allowsort", g.pick("foo_library.zz", "x.y|foo_library.zz", ""))
		}
		if g.p(6) {
			add("buildifier_disable", g.pick("listsort", "callsort|listsort", "label"))
		}
	} else {
		for i := g.r.Intn(3); i > 0 && g.p(2); i-- {
			add("allowsort", g.pick("foo_library.zz", "x.y"))
		}
		if g.p(8) {
			add("buildifier_disable", g.pick("listsort", "label"))
		}
	}
	return q
}
