package main

import (
	"archive/zip"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	depspb "github.com/bazelbuild/buildtools/deps_proto"
	eapb "github.com/bazelbuild/buildtools/extra_actions_base_proto"
	"github.com/golang/protobuf/proto"
)

// unused_deps with a build tool that only knows the answers it has been given (C29).

type udUse struct {
	P string `json:"p"`
	K string `json:"k"`
}

type udRule struct {
	Label  string   `json:"label"`
	Lib    bool     `json:"lib"`
	Params string   `json:"params"` // ok, missing, noflag, end
	Jars   []string `json:"jars"`
	Jdeps  string   `json:"jdeps"` // ok, missing, bad
	Used   []udUse  `json:"used"`
}

type udJar struct {
	P    string `json:"p"`
	L    string `json:"l"`
	St   string `json:"st"`   // ok, missing, bad, nomanifest, nokey, unended
	Wrap int    `json:"wrap"` // where the manifest line is broken
	Nl   string `json:"nl"`
}

type udFile struct {
	Repo string `json:"repo"`
	Pkg  string `json:"pkg"`
	Name string `json:"name"`
	Tree *Node  `json:"tree"`
	Bad  bool   `json:"bad"`
}

type udCase struct {
	How    string   `json:"how"`
	Cquery bool     `json:"cquery"`
	Tool   string   `json:"tool"`
	Pats   []string `json:"pats"`
	Extra  []string `json:"extra"`
	Query  []string `json:"query"`
	Rules  []udRule `json:"rules"`
	Jars   []udJar  `json:"jars"`
	Files  []udFile `json:"files"`
	Lay    int64    `json:"lay"`
}

type udObs struct {
	Code   int        `json:"code"`
	Lines  []string   `json:"lines"`
	Calls  [][]string `json:"calls"`
	Aspect bool       `json:"aspect"`
	Left   int        `json:"left"`
	None   bool       `json:"none"`
	Msg    string     `json:"msg"`
}

const udTool = `#!/bin/sh
for a in "$@"; do printf '%s\n' "$a" >> "$FAKE/log"; done
echo "==" >> "$FAKE/log"
case "$1" in
query|cquery) cat "$FAKE/query";;
build)
  for a in "$@"; do
    case "$a" in
    --override_repository=unused_deps=*)
      d="${a#--override_repository=unused_deps=}"
      test -f "$d/BUILD" && test -f "$d/WORKSPACE" && grep -q javac_params "$d/unused_deps.bzl" && touch "$FAKE/aspect";;
    esac
  done
  exit 1;;
info)
  case "$2" in
  bazel-bin) echo "$FAKE/out/k8/bin";;
  output_path) echo "$FAKE/out";;
  output_base) echo "$FAKE/base";;
  *) exit 2;;
  esac;;
*) exit 2;;
esac
`

func (j udJar) write(path string) error {
	if j.St == "missing" {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	if j.St == "bad" {
		return os.WriteFile(path, []byte("this is no archive"), 0o644)
	}
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	z := zip.NewWriter(f)
	w, _ := z.Create("x/A.class")
	w.Write([]byte("Target-Label: //wrong:one\r\n"))
	if j.St != "nomanifest" {
		nl := j.Nl
		line := "Target-Label: " + j.L
		if j.St == "nokey" {
			line = "Label: " + j.L
		}
		if j.Wrap > 0 && j.Wrap+14 < len(line) {
			line = line[:j.Wrap+14] + nl + " " + line[j.Wrap+14:]
		}
		text := "Manifest-Version: 1.0" + nl + "Created-By: bazel" + nl + line
		if j.St != "unended" {
			text += nl + "Injecting-Rule-Kind: x" + nl
		}
		w, _ = z.Create("META-INF/MANIFEST.MF")
		w.Write([]byte(text))
	}
	return z.Close()
}

func execUnused(in json.RawMessage) (interface{}, error) {
	var c udCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "ud")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	fake, ws, scratch := filepath.Join(tmp, "fake"), filepath.Join(tmp, "ws"), filepath.Join(tmp, "t")
	put := func(p, s string, mode os.FileMode) {
		os.MkdirAll(filepath.Dir(p), 0o755)
		if e := os.WriteFile(p, []byte(s), mode); e != nil {
			err = e
		}
	}
	put(filepath.Join(fake, c.Tool), udTool, 0o755)
	put(filepath.Join(ws, "WORKSPACE"), "", 0o644)
	os.MkdirAll(scratch, 0o755)
	var q strings.Builder
	for i, l := range c.Query {
		if c.Cquery {
			l += fmt.Sprintf(" (%x)", 1000003*(i+1))
		}
		q.WriteString(l + "\n")
	}
	put(filepath.Join(fake, "query"), q.String(), 0o644)
	for _, f := range c.Files {
		d := ws
		if f.Repo != "" {
			d = filepath.Join(fake, "base", "external", f.Repo)
		}
		s := renderFile(f.Tree, c.Lay)
		if f.Bad {
			s += "\nx = (\n"
		}
		put(filepath.Join(d, f.Pkg, f.Name), s, 0o644)
	}
	for _, j := range c.Jars {
		if e := j.write(filepath.Join(fake, "out", strings.TrimPrefix(j.P, "bazel-out"))); e != nil {
			return nil, e
		}
	}
	var args []string
	cwd := ws
	for i, r := range c.Rules {
		l := r.Label
		d := filepath.Join(fake, "out", "k8", "bin")
		repo := ""
		if strings.HasPrefix(l, "@") {
			l = strings.TrimLeft(l, "@")
			k := strings.Index(l, "//")
			repo, l = l[:k], l[k:]
			if repo != "" {
				d = filepath.Join(d, "external", repo)
			}
		}
		l = strings.TrimPrefix(l, "//")
		k := strings.Index(l, ":")
		base := l[k+1:]
		if r.Lib {
			base = "lib" + base
		}
		base = filepath.Join(d, l[:k], base)
		params, jdeps := base+".javac_params", base+".jdeps"
		if c.How == "extra" {
			cwd = fake
			os.Symlink("out", filepath.Join(fake, "bazel-out"))
			jar := fmt.Sprintf("bazel-out/k8/bin/x%d.jar", i)
			params, jdeps = filepath.Join(fake, jar+"-2.params"), filepath.Join(fake, strings.TrimSuffix(jar, ".jar")+".jdeps")
			ea := &eapb.ExtraActionInfo{Owner: proto.String(r.Label), Mnemonic: proto.String("Javac")}
			if e := proto.SetExtension(ea, eapb.E_JavaCompileInfo_JavaCompileInfo, &eapb.JavaCompileInfo{Outputjar: proto.String(jar)}); e != nil {
				return nil, e
			}
			b, e := proto.Marshal(ea)
			if e != nil {
				return nil, e
			}
			put(filepath.Join(fake, "x.xa"), string(b), 0o644)
			args = []string{"-extra_action_file=x.xa", "-output_file=" + filepath.Join(fake, "result")}
		}
		text := "java\n-jar\nJavaBuilder.jar\n--output\nx.jar\n--classpath\nbazel-out/k8/bin/zz.jar\n"
		switch r.Params {
		case "ok":
			text += "--direct_dependencies\n"
			for _, j := range r.Jars {
				text += j + "\n"
			}
			text += "--experimental_fix_deps_tool\nbazel-out/k8/bin/zz.jar\n"
		case "end":
			text += "--direct_dependencies"
		}
		if r.Params != "missing" {
			put(params, text, 0o644)
		}
		switch r.Jdeps {
		case "ok":
			dp := &depspb.Dependencies{RuleLabel: proto.String(r.Label), Success: proto.Bool(true)}
			for _, u := range r.Used {
				dp.Dependency = append(dp.Dependency, &depspb.Dependency{Path: proto.String(u.P), Kind: depspb.Dependency_Kind(depspb.Dependency_Kind_value[u.K]).Enum()})
			}
			b, e := proto.Marshal(dp)
			if e != nil {
				return nil, e
			}
			put(jdeps, string(b), 0o644)
		case "bad":
			put(jdeps, "\x0a\xff\xff", 0o644)
		}
	}
	if err != nil {
		return nil, err
	}
	if c.How != "extra" {
		if c.Tool != "bazel" {
			args = append(args, "-build_tool="+c.Tool)
		}
		if c.Cquery {
			args = append(args, "-cquery")
		}
		if len(c.Extra) > 0 {
			args = append(args, "-extra_build_flags="+strings.Join(c.Extra, ", "))
		}
		args = append(args, c.Pats...)
	}
	cmd := exec.Command(filepath.Join(os.Getenv("VH_BIN"), "unused_deps"), args...)
	cmd.Dir = cwd
	cmd.Env = []string{"PATH=" + fake + ":/usr/bin:/bin", "PWD=" + cwd, "HOME=" + tmp, "TMPDIR=" + scratch, "FAKE=" + fake}
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	o := udObs{Lines: []string{}, Calls: [][]string{}}
	e := cmd.Run()
	if x, ok := e.(*exec.ExitError); ok {
		o.Code = x.ExitCode()
	} else if e != nil {
		return nil, e
	}
	out := so.String()
	if c.How == "extra" {
		b, _ := os.ReadFile(filepath.Join(fake, "result"))
		out = string(b)
	}
	if out = strings.TrimSuffix(out, "\n"); out != "" {
		o.Lines = strings.Split(out, "\n")
	}
	if c.How == "extra" {
		sort.Strings(o.Lines)
	}
	o.Msg = strings.ReplaceAll(se.String(), tmp, "")
	if len(o.Msg) > 600 {
		o.Msg = o.Msg[len(o.Msg)-600:]
	}
	o.None = strings.Contains(se.String(), "No unused deps found.")
	if b, e := os.ReadFile(filepath.Join(fake, "log")); e == nil {
		call := []string{}
		for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			if l == "==" {
				o.Calls = append(o.Calls, call)
				call = []string{}
			} else {
				call = append(call, strings.ReplaceAll(l, tmp, ""))
			}
		}
	}
	_, e = os.Stat(filepath.Join(fake, "aspect"))
	o.Aspect = e == nil
	if l, e := os.ReadDir(scratch); e == nil {
		o.Left = len(l)
	}
	return o, nil
}

type udGen struct{ *gen }

// spell writes a label the way a package of a repository may.
func (g udGen) spell(l, repo, pkg string) string {
	lr, rest := "", l
	if strings.HasPrefix(l, "@") {
		k := strings.Index(l, "//")
		lr, rest = strings.TrimLeft(l[:k], "@"), l[k:]
	}
	k := strings.Index(rest, ":")
	lp, lt := rest[2:k], rest[k+1:]
	var s []string
	short := func(p string) {
		s = append(s, p+"//"+lp+":"+lt)
		if lp == lt || strings.HasSuffix(lp, "/"+lt) {
			s = append(s, p+"//"+lp)
		}
	}
	if lr == repo {
		short("")
		if lp == pkg {
			s = append(s, ":"+lt, lt)
		}
	}
	if lr != "" || repo != "" {
		short("@" + lr)
		short("@@" + lr)
		if lr != "" && lp == "" && lt == lr {
			s = append(s, "@"+lr)
		}
	}
	return s[g.r.Intn(len(s))]
}

func (g udGen) udCase() udCase {
	c := udCase{How: "run", Tool: g.pick("bazel", "bazel", "blaze-7"), Lay: -1 - g.r.Int63n(1<<30), Pats: []string{}, Extra: []string{}, Query: []string{}, Rules: []udRule{}, Jars: []udJar{}, Files: []udFile{}}
	pool := []string{"//p:a", "//p:b", "//p:p", "//p/q:q", "//p/q:x", "//:a", "//r:x/y", "@r//x:y", "@r//x:x", "@r//:r", "@r//p:a", "@s//p:b", "@r//x:b", "@r~1.0//m:m"}
	g.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	pool = pool[:4+g.r.Intn(8)]
	jar := map[string][]string{}
	for i, l := range pool {
		raw := g.pick("", "", "@", "@@") + l
		if strings.HasPrefix(l, "@") {
			raw = g.pick("", "@") + l
		}
		for k := 1 + g.r.Intn(5)/4; k > 0; k-- {
			j := udJar{P: fmt.Sprintf("bazel-out/k8-%d/bin/lib%d-%d.jar", g.r.Intn(2), i, k), L: raw, St: "ok", Nl: g.pick("\r\n", "\r\n", "\n", "\r")}
			if g.p(3) {
				j.Wrap = 1 + g.r.Intn(len(l))
			}
			if g.p(12) {
				j.St = g.pick("missing", "bad", "nomanifest", "nokey", "unended")
			}
			c.Jars = append(c.Jars, j)
			jar[l] = append(jar[l], j.P)
		}
	}
	sort.Slice(c.Jars, func(i, j int) bool { return c.Jars[i].P < c.Jars[j].P })
	homes := []struct{ repo, pkg string }{{"", "p"}, {"", "p/q"}, {"", ""}, {"r", "x"}, {"r", ""}, {"r", "p"}}
	g.r.Shuffle(len(homes), func(i, j int) { homes[i], homes[j] = homes[j], homes[i] })
	note := func(n *Node) *Node {
		if g.p(5) {
			n.C = []string{g.pick("S# runtime", "S# Needed at RunTime only", "S# used", "B# runtime", "S# rt", "S# no-runtime")}
		}
		return n
	}
	for _, h := range homes[:1+g.r.Intn(3)] {
		f := udFile{Repo: h.repo, Pkg: h.pkg, Name: g.pick("BUILD", "BUILD.bazel"), Tree: mk("file", "BUILD"), Bad: g.p(25)}
		for t := 1 + g.r.Intn(3); t > 0; t-- {
			name := fmt.Sprintf("t%d", t)
			if g.p(6) {
				name = fmt.Sprintf("u/t%d", t)
			}
			label := "//" + h.pkg + ":" + name
			if h.repo != "" {
				label = g.pick("@", "@@") + h.repo + label
			}
			r := udRule{Label: label, Lib: g.p(2), Params: "ok", Jdeps: "ok", Jars: []string{}, Used: []udUse{}}
			if g.p(12) {
				r.Params = g.pick("missing", "noflag", "end")
			}
			if g.p(12) {
				r.Jdeps = g.pick("missing", "bad")
			}
			var parts []*Node
			list := mk("list", "")
			for _, l := range pool {
				direct := !g.p(4)
				if direct {
					r.Jars = append(r.Jars, jar[l]...)
				}
				if !g.p(4) {
					list.K = append(list.K, note(mk("str", g.spell(l, h.repo, h.pkg))))
					if g.p(15) {
						list.K = append(list.K, mk("id", "X"))
					}
					if g.p(20) {
						list.K = append(list.K, note(mk("str", g.pick(":", "", "a", "//p:nope", ":x/y"))))
					}
				}
				if g.p(4) && len(list.K) > 0 {
					parts = append(parts, list)
					list = mk("list", "")
				}
				if direct || g.p(5) {
					for _, j := range jar[l] {
						if g.p(2) {
							r.Used = append(r.Used, udUse{j, g.pick("EXPLICIT", "EXPLICIT", "IMPLICIT", "UNUSED", "INCOMPLETE")})
						}
					}
				}
			}
			if len(list.K) > 0 || len(parts) == 0 {
				parts = append(parts, list)
			}
			if g.p(8) {
				parts = append(parts, mk("call", "", mk("id", "select"), mk("dict", "", mk("kv", "", mk("str", ":c"), mk("list", "", mk("str", "//p:a"))))))
			}
			if g.p(10) {
				parts = append(parts, mk("id", "DEPS"))
			}
			e := parts[0]
			for _, p := range parts[1:] {
				e = mk("bin", "+", e, p)
			}
			g.r.Shuffle(len(r.Used), func(i, j int) { r.Used[i], r.Used[j] = r.Used[j], r.Used[i] })
			call := mk("call", "", mk("id", g.pick("java_library", "kt_jvm_library", "java_binary")), mk("asg", "=", mk("id", "name"), mk("str", name)))
			if !g.p(12) {
				call.K = append(call.K, mk("asg", "=", mk("id", g.pick("deps", "deps", "deps", "deps", "deps", "runtime_deps")), e))
			}
			if g.p(3) {
				call.K = append(call.K, mk("asg", "=", mk("id", "exports"), mk("list", "", mk("str", "//p:a"), mk("str", ":b"))))
			}
			if !g.p(12) {
				f.Tree.K = append(f.Tree.K, call)
			}
			if !g.p(8) {
				c.Rules = append(c.Rules, r)
			}
			if !g.p(10) {
				c.Query = append(c.Query, label)
			}
		}
		if g.p(4) {
			f.Tree.K = append(f.Tree.K, mk("call", "", mk("id", "genrule"), mk("asg", "=", mk("id", "name"), mk("str", "g"))))
		}
		if !g.p(15) {
			c.Files = append(c.Files, f)
		}
	}
	if g.p(8) && len(c.Rules) > 0 {
		c.How, c.Rules = "extra", c.Rules[:1]
		c.Query = []string{c.Rules[0].Label}
		return c
	}
	for i := g.r.Intn(3); i > 0; i-- {
		c.Pats = append(c.Pats, g.pick("//p/...", "//p:all", "//x:y", "-//p/q:all", "@r//..."))
	}
	if len(c.Pats) > 0 && strings.HasPrefix(c.Pats[0], "-") {
		c.Pats[0] = "//..."
	}
	c.Cquery = g.p(4)
	if g.p(4) {
		c.Extra = append(c.Extra, "--config=x")
		if g.p(2) {
			c.Extra = append(c.Extra, "--nobuild_runfile_links")
		}
	}
	return c
}

func init() {
	props["C29"] = &Prop{Gen: func(r *rand.Rand, n int, emit func(interface{})) {
		for i := 0; i < n; i++ {
			emit(udGen{&gen{r: r, o: genOpts{typ: "BUILD"}}}.udCase())
		}
	}, Exec: execUnused}
}
