package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"

	"github.com/bazelbuild/buildtools/build"
)

func parseAs(typ, path string, data []byte) (*build.File, error) {
	switch typ {
	case "BUILD":
		return build.ParseBuild(path, data)
	case "WORKSPACE":
		return build.ParseWorkspace(path, data)
	case "MODULE.bazel":
		return build.ParseModule(path, data)
	case ".bzl":
		return build.ParseBzl(path, data)
	}
	return build.ParseDefault(path, data)
}

// formatAs parses and formats, as buildifier does.
func formatAs(typ string, src []byte) (*build.File, []byte, error) {
	f, err := parseAs(typ, "p/FILE", src)
	if err != nil {
		return nil, nil, err
	}
	out := build.Format(f)
	return f, out, nil
}

type fmtCase struct {
	Tree *Node  `json:"tree"`
	Lay  int64  `json:"lay"`
	Src  string `json:"src"` // instead of a tree
	Typ  string `json:"typ"`
}

type fmtObs struct {
	Src  string `json:"src"`
	Err  string `json:"err"`  // error of the first parse
	Err2 string `json:"err2"` // error of the parse of the formatted text
	Tree *Node  `json:"tree"` // the formatted file's tree
	Fmt  string `json:"fmt"`
	Fmt2 string `json:"fmt2"`
	// occurrences of every generated comment in the source, the formatted text, and the text formatted again
	Com [][]interface{} `json:"com"`
}

var comRe = regexp.MustCompile(`#c[0-9]+\.`)

func comCount(texts ...string) [][]interface{} {
	res := [][]interface{}{}
	var order []string
	seen := map[string][]int{}
	for i, t := range texts {
		for _, c := range comRe.FindAllString(t, -1) {
			if seen[c] == nil {
				seen[c] = make([]int, len(texts))
				order = append(order, c)
			}
			seen[c][i]++
		}
	}
	for _, c := range order {
		row := []interface{}{c}
		for _, n := range seen[c] {
			row = append(row, n)
		}
		res = append(res, row)
	}
	return res
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return "E " + err.Error()
}

func execFmt(in json.RawMessage) (interface{}, error) {
	var c fmtCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	src := c.Src
	typ := c.Typ
	if c.Tree != nil {
		src = renderFile(c.Tree, c.Lay)
		typ = c.Tree.V
	}
	o := fmtObs{Tree: mk("none", ""), Src: src, Com: [][]interface{}{}}
	_, out, err := formatAs(typ, []byte(src))
	o.Err = errStr(err)
	if err != nil {
		o.Fmt = src
		return o, nil
	}
	o.Fmt = string(out)
	f2, err := parseAs(typ, "p/FILE", out)
	o.Err2 = errStr(err)
	if err != nil {
		return o, nil
	}
	o.Tree = fileTree(f2, projOpts{comments: true})
	o.Fmt2 = string(build.Format(f2))
	o.Com = comCount(src, o.Fmt, o.Fmt2)
	return o, nil
}

var fileTypes = []string{"BUILD", "BUILD", "BUILD", ".bzl", ".bzl", "MODULE.bazel", "WORKSPACE", "default"}

func genFmt(o genOpts) func(r *rand.Rand, n int, emit func(interface{})) {
	return func(r *rand.Rand, n int, emit func(interface{})) {
		for i := 0; i < n; i++ {
			o.typ = fileTypes[r.Intn(len(fileTypes))]
			emit(map[string]interface{}{"tree": genFile(r, o), "lay": r.Int63n(1 << 30)})
		}
	}
}

// genText adds source texts with comments and line breaks in arbitrary places.
func genText(o genOpts, also func(r *rand.Rand, n int, emit func(interface{}))) func(r *rand.Rand, n int, emit func(interface{})) {
	return func(r *rand.Rand, n int, emit func(interface{})) {
		also(r, n/2, emit)
		for i := 0; i < n/2; i++ {
			o.typ = fileTypes[r.Intn(len(fileTypes))]
			g := &gen{r: r, o: o}
			f := g.file()
			src := renderFile(f, r.Int63n(1<<30))
			emit(map[string]interface{}{"src": g.mutateSrc(src, 1+r.Intn(6)), "typ": o.typ})
		}
	}
}

func init() {
	props["C14"] = &Prop{Gen: genFmt(genOpts{dirs: true, loads: true, strs: true}), Exec: execFmt}
	props["C17"] = &Prop{Gen: genFmt(genOpts{dirs: true, loads: false}), Exec: execFmt}
	props["C18"] = &Prop{Gen: genFmt(genOpts{dirs: true, loads: true}), Exec: execFmt}
	props["C15"] = &Prop{Gen: genText(genOpts{loads: true, dirs: true, lineDirs: true, strs: true}, genFmt(genOpts{dirs: true, lineDirs: true, loads: true, comments: true, strs: true})), Exec: execFmt}
	props["C16"] = &Prop{Gen: genText(genOpts{loads: true, uniq: true}, genFmt(genOpts{loads: true, comments: true})), Exec: execFmt}
	_ = fmt.Sprint
}
