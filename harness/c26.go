package main

import (
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/bazelbuild/buildtools/labels"
)

type labelCase struct {
	K      string   `json:"k"`
	S      string   `json:"s"`
	Pkg    string   `json:"pkg"`
	Others []string `json:"others,omitempty"`
}

func labelObs(l labels.Label) map[string]string {
	return map[string]string{"repo": l.Repository, "pkg": l.Package, "target": l.Target}
}

func randSegment(r *rand.Rand) string {
	segs := []string{"a", "b", "foo", "bar", "c.x", "x-y", "A_1", "foo.bzl", "a+b", "0", "~r", "é"}
	return segs[r.Intn(len(segs))]
}

func randPkg(r *rand.Rand) string {
	n := r.Intn(4)
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, randSegment(r))
	}
	return strings.Join(p, "/")
}

func randLabel(r *rand.Rand) string {
	tgt := randSegment(r)
	for r.Intn(4) == 0 {
		tgt += "/" + randSegment(r)
	}
	switch r.Intn(8) {
	case 0:
		return tgt
	case 1:
		return ":" + tgt
	case 2:
		return strings.Repeat("@", 1+r.Intn(2)) + randSegment(r)
	}
	rep := ""
	if r.Intn(2) == 0 {
		rep = strings.Repeat("@", 1+r.Intn(2))
		if r.Intn(5) > 0 {
			rep += randSegment(r)
		}
	}
	p := randPkg(r)
	if p != "" && r.Intn(2) == 0 {
		if r.Intn(2) == 0 {
			return rep + "//" + p
		}
		return rep + "//" + p + ":" + p[strings.LastIndex(p, "/")+1:]
	}
	return rep + "//" + p + ":" + tgt
}

func init() {
	props["C26"] = &Prop{
		Gen: func(r *rand.Rand, n int, emit func(interface{})) {
			pkgs := []string{"", "a", "b", "a/b"}
			// every string over the label alphabet up to length 5
			alpha := "ab/:@"
			var rec func(s string, left int)
			var all []string
			rec = func(s string, left int) {
				all = append(all, s)
				if left == 0 {
					return
				}
				for _, c := range alpha {
					rec(s+string(c), left-1)
				}
			}
			rec("", 5)
			for i, s := range all {
				emit(labelCase{K: "one", S: s, Pkg: pkgs[i%len(pkgs)]})
			}
			for i := 0; i < n; i++ {
				p := randPkg(r)
				s := randLabel(r)
				if r.Intn(3) == 0 && p != "" {
					s = "//" + p + ":" + randSegment(r)
				}
				emit(labelCase{K: "one", S: s, Pkg: p})
				c := labelCase{K: "eq", S: s, Pkg: p}
				l := labels.ParseRelative(s, p)
				vars := []string{":" + l.Target, l.Target, "//" + l.Package + ":" + l.Target, "//" + l.Package, "@" + l.Repository, "@@" + l.Repository,
					"@" + l.Repository + "//" + l.Package + ":" + l.Target, "@@" + l.Repository + "//" + l.Package + ":" + l.Target, "@//" + l.Package + ":" + l.Target,
					"//" + p + ":" + l.Target, "//" + p, randLabel(r), randLabel(r), "//" + l.Package + "/" + l.Target, "//" + l.Package + ":" + l.Package}
				c.Others = vars
				emit(c)
			}
		},
		Exec: func(in json.RawMessage) (interface{}, error) {
			var c labelCase
			if err := json.Unmarshal(in, &c); err != nil {
				return nil, err
			}
			if c.K == "eq" {
				eq, qe := []bool{}, []bool{}
				for _, o := range c.Others {
					eq = append(eq, labels.Equal(c.S, o, c.Pkg))
					qe = append(qe, labels.Equal(o, c.S, c.Pkg))
				}
				return map[string]interface{}{"eq": eq, "qe": qe}, nil
			}
			p := labels.Parse(c.S)
			rel := labels.ParseRelative(c.S, c.Pkg)
			sh := labels.Shorten(c.S, c.Pkg)
			return map[string]interface{}{
				"parse": labelObs(p), "rel": labelObs(rel), "fmt": p.Format(), "fmtrel": rel.FormatRelative(c.Pkg),
				"short": sh, "short2": labels.Shorten(sh, c.Pkg), "reparse": labelObs(labels.Parse(p.Format())),
				"refl": labels.Equal(c.S, c.S, c.Pkg),
			}, nil
		},
	}
}
