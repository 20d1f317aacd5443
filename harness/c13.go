package main

import (
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

// String literals.

type strCase struct {
	K      string `json:"k"` // lit: b is a literal; val: b is a value
	B      []int  `json:"b"`
	Ctx    string `json:"ctx"`
	Ind    int    `json:"ind"`   // fdoc: indentation of the body
	Depth  int    `json:"depth"` // fdoc: nesting of the function
	Triple bool   `json:"triple"`
}

type strObs struct {
	Acc  bool   `json:"acc"`
	Err  string `json:"err"`
	Val  []int  `json:"val"`
	Out  []int  `json:"out"`  // the literal in the formatted text
	Val2 []int  `json:"val2"` // what the parser reads there
	Err2 string `json:"err2"`
	Fix  bool   `json:"fix"` // formatting again changes nothing
}

func toInts(s string) []int {
	r := []int{}
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}

func fromInts(q []int) string {
	var b strings.Builder
	for _, x := range q {
		b.WriteByte(byte(x))
	}
	return b.String()
}

const mark = "\"MARK\""

func strSource(c strCase, lit string) string {
	switch c.Ctx {
	case "arg":
		return "f(\n    a = " + lit + ",\n    b = 1,\n)\n"
	case "list":
		return "x = [1, " + lit + ", 2]\n"
	case "key":
		return "x = {" + lit + ": 1}\n"
	case "cat":
		return "x = y + " + lit + " % 2\n"
	case "idx":
		return "x = y[" + lit + "].z\n"
	case "doc":
		return lit + "\n\nx = 1\n"
	case "fdoc":
		pre, in := "", ""
		for i := 0; i < c.Depth; i++ {
			pre += in + "def f():\n"
			in += strings.Repeat(" ", c.Ind)
		}
		return pre + in + lit + "\n" + in + "pass\n"
	}
	return "x = " + lit + "\n"
}

// theString is the only string of a file.
func theString(f *build.File) *build.StringExpr {
	var r *build.StringExpr
	build.Walk(f, func(e build.Expr, _ []build.Expr) {
		if s, ok := e.(*build.StringExpr); ok {
			r = s
		}
	})
	return r
}

func execStr(in json.RawMessage) (interface{}, error) {
	var c strCase
	if err := json.Unmarshal(in, &c); err != nil {
		return nil, err
	}
	o := strObs{Val: []int{}, Out: []int{}, Val2: []int{}}
	name := "x.bzl"
	if c.Ctx == "arg" {
		name = "BUILD"
	}
	var f *build.File
	var text []byte
	if c.K == "val" {
		var err error
		if f, err = build.Parse(name, []byte(strSource(c, mark))); err != nil {
			return nil, err
		}
		s := theString(f)
		*s = build.StringExpr{Value: fromInts(c.B), TripleQuote: c.Triple}
		text = build.FormatWithoutRewriting(f)
		o.Acc, o.Val = true, c.B
	} else {
		var err error
		if f, err = build.Parse(name, []byte(strSource(c, fromInts(c.B)))); err != nil {
			o.Err = err.Error()
			return o, nil
		}
		o.Acc = true
		s := theString(f)
		if s == nil {
			o.Err2 = "no string"
			return o, nil
		}
		o.Val = toInts(s.Value)
		text = build.Format(f)
	}
	f2, err := build.Parse(name, text)
	if err != nil {
		o.Err2 = err.Error()
		return o, nil
	}
	if s := theString(f2); s != nil {
		a, b := s.Span()
		o.Out, o.Val2 = toInts(string(text[a.Byte:b.Byte])), toInts(s.Value)
	}
	o.Fix = string(build.Format(f2)) == string(text)
	return o, nil
}

func randLit(r *rand.Rand) string {
	pieces := []string{"\\", "\\", "\"", "'", "\n", "a", "b", "r", " ", "  ", "x", "é", "λ", "€", "😀", "\x80", "\xff", "\t", "\r", "\a", "\x01", "\x7f", "{", "#", "$(x)", "\\n", "\\x", "\\x41", "\\xff", "\\xFg", "\\x+1", "\\x4",
		"\\0", "\\7", "\\12", "\\101", "\\377", "\\400", "\\777", "\\8", "\\9", "\\18", "\\u0041", "\\u00e9", "\\uD800", "\\udfff", "\\u12", "\\u+123", "\\u-001", "\\uFFFF", "\\U0001F600", "\\U00110000", "\\U0010ffff", "\\U000", "\\UFFFFFFFF", "\\U-0000001",
		"\\\n", "\\\\", "\\'", "\\\"", "\\t", "\\a", "\\b", "\\f", "\\v", "\\r", "\\q", "\\λ", "\\é", "\\%", "\\.", "\\ ", "\"\"", "''", "0", "1", "word", "\\N", "\\d", "\\\t"}
	q := []string{"\"", "'", "\"\"\"", "'''"}[r.Intn(4)]
	pre := ""
	if r.Intn(4) == 0 {
		pre = "r"
	}
	s := ""
	for i := r.Intn(7); i > 0; i-- {
		p := pieces[r.Intn(len(pieces))]
		if r.Intn(3) > 0 && len(q) == 1 && (strings.HasPrefix(p, q) || p == "\n") {
			continue
		}
		s += p
	}
	end := q
	if r.Intn(25) == 0 {
		end = q[:len(q)-1]
	}
	return pre + q + s + end
}

func genStr(r *rand.Rand, n int, emit func(interface{})) {
	ctxs := []string{"asg", "arg", "list", "key", "cat", "idx", "doc", "fdoc", "fdoc"}
	for i := 0; i < n; i++ {
		c := strCase{K: "lit", Ctx: ctxs[r.Intn(len(ctxs))], Ind: 1 + r.Intn(8), Depth: 1 + r.Intn(3)}
		if r.Intn(3) == 0 {
			c.K, c.Ctx, c.Triple = "val", ctxs[r.Intn(7)], r.Intn(2) == 0
			vals := []string{"\"", "\"", "\"\"", "'", "\\", "\n", "a", " ", "é", "\x80", "\x00", "\t", "\r", "\x1f", "\x7f", "x", "1", "\a", "\v", "😀"}
			s := ""
			for j := r.Intn(8); j > 0; j-- {
				s += vals[r.Intn(len(vals))]
			}
			c.B = toInts(s)
		} else if c.Ctx == "fdoc" && r.Intn(3) > 0 {
			q := []string{"\"\"\"", "'''", "r\"\"\""}[r.Intn(3)]
			s := q
			parts := []string{"\n", "\n", "\n    ", "\n  ", "\n        ", "text", "word.  ", "  ", " ", "\"", "\\n", "é", "\n\t", "Args:", "\n      x: y"}
			for j := r.Intn(9); j > 0; j-- {
				s += parts[r.Intn(len(parts))]
			}
			c.B = toInts(s + strings.TrimPrefix(q, "r"))
		} else {
			c.B = toInts(randLit(r))
		}
		emit(c)
	}
}

func init() { props["C13"] = &Prop{Gen: genStr, Exec: execStr} }
