package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/buildifier/utils"
	"github.com/bazelbuild/buildtools/wspace"
)

// Names and places of files (C27).

type plEnt struct {
	P  string `json:"p"`
	K  string `json:"k"`
	To string `json:"to"`
	X  bool   `json:"x"`
	L  string `json:"l"` // what it loads
	D  bool   `json:"d"` // whether it defines the deprecated function
}

type plRule struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	File string `json:"file"`
}

type plAsk struct {
	Op    string   `json:"op"`
	Cwd   string   `json:"cwd"`
	Args  []string `json:"args"`
	Rules []plRule `json:"rules"`
}

type plCase struct {
	Ents []plEnt `json:"ents"`
	Asks []plAsk `json:"asks"`
}

func plTypeName(t build.FileType) string {
	switch t {
	case build.TypeBuild:
		return "build"
	case build.TypeBzl:
		return "bzl"
	case build.TypeModule:
		return "module"
	case build.TypeWorkspace:
		return "workspace"
	case build.TypeDefault:
		return "default"
	}
	return fmt.Sprint(int(t))
}

func (e plEnt) text() string {
	s := ""
	if e.L != "" {
		s += fmt.Sprintf("load(%q, g = \"f\")\n", e.L)
	}
	if e.D {
		s += "\ndef f():\n    \"\"\"Do.\n\n    Deprecated:\n      do not\n    \"\"\"\n    pass\n"
	}
	return s
}

func execPlaces(in json.RawMessage) (interface{}, error) {
	var c plCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "pl")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	if tmp, err = filepath.EvalSymlinks(tmp); err != nil {
		return nil, err
	}
	back, err := os.Getwd()
	if err != nil {
		return nil, err
	}
	defer os.Chdir(back)
	top := filepath.Join(tmp, "w")
	os.Mkdir(top, 0o755)
	for _, e := range c.Ents {
		p := filepath.Join(top, e.P)
		switch e.K {
		case "dir":
			err = os.Mkdir(p, 0o755)
		case "link":
			err = os.Symlink(filepath.Join(top, e.To), p)
		default:
			mode := os.FileMode(0o644)
			if e.X {
				mode = 0o755
			}
			err = os.WriteFile(p, []byte(e.text()), mode)
		}
		if err != nil {
			return nil, err
		}
	}
	// from the top
	short := func(p string) string {
		if r, err := filepath.Rel(top, p); err == nil && p != "" {
			if r == "." {
				return ""
			}
			return r
		}
		return p
	}
	named := func(p string) string {
		if p == "" {
			return ""
		}
		if p == top {
			return "R"
		}
		return "R/" + strings.TrimPrefix(p, top+"/")
	}
	said := [][]string{}
	for _, a := range c.Asks {
		cwd := filepath.Join(top, a.Cwd)
		if err := os.Chdir(cwd); err != nil {
			return nil, err
		}
		args := []string{}
		for _, s := range a.Args {
			if strings.HasPrefix(s, "/") {
				s = top + s
			}
			args = append(args, s)
		}
		abs := func(s string) string {
			if s == "" || filepath.IsAbs(s) {
				return s
			}
			return filepath.Join(cwd, s)
		}
		ans := []string{}
		switch a.Op {
		case "type":
			for _, n := range a.Args {
				f, err := build.Parse(n, []byte("a = 1\n"))
				if err != nil {
					ans = append(ans, err.Error())
					continue
				}
				ans = append(ans, plTypeName(f.Type))
			}
		case "root":
			root, rest := wspace.FindWorkspaceRoot(abs(args[0]))
			ans = append(ans, named(root), rest)
		case "split":
			root, pkg, label := wspace.SplitFilePath(abs(args[0]))
			ans = append(ans, named(root), pkg, label)
		case "regular":
			if wspace.IsRegularFile(abs(args[0])) {
				ans = append(ans, "yes")
			} else {
				ans = append(ans, "no")
			}
		case "expand":
			files, err := utils.ExpandDirectories(&args)
			for _, f := range files {
				ans = append(ans, short(abs(f)))
			}
			if err != nil {
				ans = append(ans, "!")
			}
		case "repo":
			root := abs(args[0])
			s := ""
			for _, r := range a.Rules {
				s += fmt.Sprintf("%s(\n    name = %q,\n", r.Kind, r.Name)
				if r.File != "" {
					s += fmt.Sprintf("    build_file = %q,\n", r.File)
				}
				s += ")\n"
			}
			p := filepath.Join(root, "WORKSPACE")
			if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
				return nil, err
			}
			m, err := wspace.FindRepoBuildFiles(root)
			if err != nil {
				ans = append(ans, err.Error())
			}
			var names []string
			for n := range m {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				ans = append(ans, n, named(m[n]))
			}
			os.Remove(p)
		case "run", "stdin":
			flags := []string{"-mode=check", "-lint=warn", "-warnings=deprecated-function", "-format=json"}
			cmd := exec.Command(filepath.Join(os.Getenv("VH_BIN"), "buildifier"))
			if a.Op == "run" {
				flags = append(append(flags, "-r"), args...)
			} else {
				flags = append(flags, "-path="+args[0])
				b, err := os.ReadFile(abs(args[0]))
				if err != nil {
					return nil, err
				}
				cmd.Stdin = strings.NewReader(string(b))
			}
			cmd.Args = append(cmd.Args, flags...)
			cmd.Dir = cwd
			cmd.Env = []string{"PATH=/usr/bin:/bin", "PWD=" + cwd, "HOME=" + tmp}
			out, _ := cmd.Output()
			var rep struct {
				Files []struct {
					Filename string            `json:"filename"`
					Warnings []json.RawMessage `json:"warnings"`
				} `json:"files"`
			}
			if err := json.Unmarshal(out, &rep); err != nil {
				ans = append(ans, "!")
				break
			}
			for _, f := range rep.Files {
				n := short(abs(f.Filename))
				if len(f.Warnings) > 0 {
					n += " finds"
				}
				ans = append(ans, n)
			}
		}
		said = append(said, ans)
	}
	return map[string]interface{}{"said": said}, nil
}

type plGen struct{ r *rand.Rand }

func (g plGen) p(n int) bool            { return g.r.Intn(n) == 0 }
func (g plGen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

func (g plGen) name() string {
	s := g.pick("BUILD", "build", "Build", "WORKSPACE", "workspace", "MODULE", "module", "Module", "foo", "lib", "x.MODULE", "x.module", "BUILD.foo", "WORKSPACE.x", "rebuild", "buildx", "", "a.b", "xmodule", "foo.BUILD", "foo.workspace", "b.WORKSPACE")
	for i := g.r.Intn(3); i > 0; i-- {
		s += g.pick(".bazel", ".bazel", ".BAZEL", ".bzl", ".bzl", ".BZL", ".sky", ".star", ".build", ".workspace", ".oss", ".oss", ".OSS", ".txt", ".in", ".MODULE.bazel", ".bzlx", ".module")
	}
	if s == "" {
		s = "x"
	}
	if g.p(4) {
		s = g.pick("BUILD/", "a/", "x.bzl/", "/tmp/build/", "MODULE.bazel/", "./", "../WORKSPACE/") + s
	}
	return s
}

// components in order: the names of one directory sorted, each directory before what it holds
func plLess(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

func (g plGen) spell(cwd, p string, up bool) string {
	if g.p(6) {
		return "/" + p
	}
	var rel string
	switch {
	case p == cwd:
		rel = "."
	case cwd == "":
		rel = p
	case strings.HasPrefix(p, cwd+"/"):
		rel = strings.TrimPrefix(p, cwd+"/")
	case up:
		rel, _ = filepath.Rel("/"+cwd, "/"+p)
	default:
		return "/" + p
	}
	if g.p(5) {
		rel = "./" + rel
	}
	if up && g.p(6) && cwd != "" {
		rel = "../" + filepath.Base(cwd) + "/" + rel
	}
	return rel
}

func (g plGen) gen() plCase {
	var c plCase
	set := map[string]plEnt{}
	dirs := []string{""}
	for i := 1 + g.r.Intn(5); i > 0; i-- {
		d := dirs[g.r.Intn(len(dirs))]
		n := g.pick("a", "b", "a.b", "a-b", "lib", "pants", "BUILD", "WORKSPACE", "MODULE.bazel", "build", ".git", ".hg", "x.git", "d", "c")
		if d != "" {
			n = d + "/" + n
		}
		if _, ok := set[n]; ok || strings.Count(n, "/") > 3 {
			continue
		}
		set[n] = plEnt{P: n, K: "dir"}
		dirs = append(dirs, n)
	}
	label := func() string {
		if g.p(2) {
			return ""
		}
		q := dirs[g.r.Intn(len(dirs))]
		t := g.pick("x.bzl", "y.bzl", "a/x.bzl", "b/x.bzl", "lib/y.bzl")
		if strings.Contains(q, ".git") || g.p(3) {
			return ":" + t
		}
		return "//" + q + ":" + t
	}
	files := []string{}
	for i := 2 + g.r.Intn(9); i > 0; i-- {
		d := dirs[g.r.Intn(len(dirs))]
		n := g.pick("BUILD", "BUILD.bazel", "BUILD.foo", "BUILD.foo.bazel", "WORKSPACE", "WORKSPACE.bazel", "MODULE.bazel", "REPO.bazel", ".buckconfig", "pants", "x.bzl", "y.bzl", "x.bzl", "z.star", "w.sky", "foo.MODULE.bazel", "foo.BUILD", "MODULE", "WORKSPACE.oss", "BUILD.oss", "BUILD.txt", "x.bzl.oss", "build", "module.bazel", "xBUILD.bazel", "BUILDx.bazel", "bzl", ".bzl", ".git")
		if d != "" {
			n = d + "/" + n
		}
		if _, ok := set[n]; ok {
			continue
		}
		set[n] = plEnt{P: n, K: "file", X: g.p(2), L: label(), D: g.p(2) && strings.HasSuffix(n, "zl")}
		files = append(files, n)
	}
	links := []string{}
	if g.p(2) {
		for i := 1 + g.r.Intn(2); i > 0; i-- {
			d := dirs[g.r.Intn(len(dirs))]
			n := g.pick("ln", "link", "m", "x.bzl", "BUILD", "WORKSPACE", "BUILD.bazel", "MODULE.bazel", "pants", "y.bzl")
			dirLike := n == "ln" || n == "link" || n == "m"
			if d != "" {
				n = d + "/" + n
			}
			if _, ok := set[n]; ok {
				continue
			}
			to := "nowhere"
			if dirLike && len(dirs) > 1 && !g.p(8) {
				to = dirs[1+g.r.Intn(len(dirs)-1)]
			} else if len(files) > 0 && !g.p(8) {
				to = files[g.r.Intn(len(files))]
			}
			if dirLike && g.p(5) && len(links) > 0 {
				to = links[g.r.Intn(len(links))]
			}
			if kind := set[to].K; kind != "file" && !dirLike {
				continue
			}
			set[n] = plEnt{P: n, K: "link", To: to}
			links = append(links, n)
		}
	}
	for _, e := range set {
		c.Ents = append(c.Ents, e)
	}
	if c.Ents == nil {
		c.Ents = []plEnt{}
	}
	sort.Slice(c.Ents, func(i, j int) bool { return plLess(c.Ents[i].P, c.Ents[j].P) })
	kind := func(p string) string {
		for i := 0; i < 9; i++ {
			if p == "" {
				return "dir"
			}
			e, ok := set[p]
			if !ok {
				return "none"
			}
			if e.K != "link" {
				return e.K
			}
			p = e.To
		}
		return "none"
	}
	// places to ask about: real ones, and some behind links
	var ds, fs []string
	for _, d := range dirs {
		ds = append(ds, d)
	}
	fs = append(fs, files...)
	for _, l := range links {
		switch kind(l) {
		case "dir":
			ds = append(ds, l, l)
			to := l
			for set[to].K == "link" {
				to = set[to].To
			}
			for p, e := range set {
				if strings.HasPrefix(p, to+"/") {
					q := l + strings.TrimPrefix(p, to)
					if e.K == "dir" {
						ds = append(ds, q)
					} else if e.K == "file" {
						fs = append(fs, q)
					}
				}
			}
		case "file":
			fs = append(fs, l, l)
		}
	}
	sort.Strings(ds)
	sort.Strings(fs)
	git := func(p string) bool { return strings.Contains("/"+p+"/", "/.git/") }
	through := func(p string) bool {
		for q := p; q != "." && q != ""; q = filepath.Dir(q) {
			if set[q].K == "link" {
				return true
			}
		}
		return len(links) > 0 && !func() bool { _, ok := set[p]; return ok || p == "" }()
	}
	dir := func() string { return ds[g.r.Intn(len(ds))] }
	realDir := func() string { return dirs[g.r.Intn(len(dirs))] }
	for i := 3 + g.r.Intn(4); i > 0; i-- {
		a := plAsk{Op: g.pick("type", "root", "split", "split", "regular", "expand", "expand", "run", "run", "stdin", "repo"), Args: []string{}, Rules: []plRule{}}
		a.Cwd = realDir()
		switch a.Op {
		case "type":
			for j := 0; j < 12; j++ {
				a.Args = append(a.Args, g.name())
			}
		case "root":
			d := dir()
			if g.p(5) {
				a.Args = append(a.Args, "") // where it is
			} else {
				if g.p(4) && kind(d) == "dir" && !through(d) {
					d = strings.TrimPrefix(d+"/new/dir", "/")
				}
				a.Args = append(a.Args, "/"+d)
				if d == "" {
					a.Args[0] = ""
					a.Cwd = ""
				}
			}
		case "split", "stdin":
			if len(fs) == 0 {
				continue
			}
			f := fs[g.r.Intn(len(fs))]
			if a.Op == "split" {
				if g.p(5) {
					f = strings.TrimPrefix(realDir()+"/new/file.bzl", "/")
				}
				a.Args = append(a.Args, "/"+f)
			} else {
				a.Args = append(a.Args, g.spell(a.Cwd, f, !through(f)))
			}
		case "regular":
			all := append(append([]string{"nowhere"}, fs...), ds...)
			a.Args = append(a.Args, "/"+all[g.r.Intn(len(all))])
			if a.Args[0] == "/" {
				continue
			}
		case "expand", "run":
			for j := 1 + g.r.Intn(2); j > 0; j-- {
				all := append(append([]string{}, fs...), append(ds, ds...)...)
				p := all[g.r.Intn(len(all))]
				if git(p) && filepath.Base(p) != ".git" || (a.Op == "run" && set[p].K == "dir" && filepath.Base(p) == ".git") {
					continue
				}
				if p == "" && a.Cwd != "" && len(links) > 0 {
					continue
				}
				if a.Cwd != "" && git(a.Cwd) && p == a.Cwd {
					continue
				}
				if git(p) {
					continue
				}
				s := g.spell(a.Cwd, p, !through(p))
				if s == "/" {
					s = "."
					a.Cwd = ""
					a.Args = nil
				}
				a.Args = append(a.Args, s)
			}
			if g.p(12) {
				a.Args = append(a.Args, "nowhere")
			}
			if len(a.Args) == 0 {
				continue
			}
		case "repo":
			// a place with nothing of that name
			d := realDir()
			w := strings.TrimPrefix(d+"/WORKSPACE", "/")
			if _, ok := set[w]; ok {
				continue
			}
			a.Cwd, a.Args = d, []string{"."}
			for j := g.r.Intn(5); j > 0; j-- {
				a.Rules = append(a.Rules, plRule{Kind: g.pick("git_repository", "new_local_repository", "new_git_repository", "new_http_archive", "http_archive", "local_repository"), Name: fmt.Sprintf("r%d", j), File: g.pick("", "BUILD.foo", "//:BUILD.x", "//third_party:a.BUILD", "sub/BUILD.y", ":z.BUILD")})
			}
		}
		c.Asks = append(c.Asks, a)
	}
	if c.Asks == nil {
		c.Asks = []plAsk{{Op: "type", Args: []string{"BUILD"}, Rules: []plRule{}}}
	}
	return c
}

func init() {
	props["C27"] = &Prop{Gen: func(r *rand.Rand, n int, emit func(interface{})) {
		for i := 0; i < n; i++ {
			emit(plGen{r}.gen())
		}
	}, Exec: execPlaces}
}
