From 13b3bed0dbd32948ffe3ee1820720b7dc8479f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 01/72] fix: keep a digit in a zero float exponent

1.0e0 was rewritten to the invalid literal 1.0e.
---
 build/rewrite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index e500beb..3cd907f 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1426,7 +1426,12 @@ func editFloats(f *File, _ *Rewriter) {
 			// Invalid float, skip rewriting.
 			return
 		}
-		l.Token = parts[0] + "e" + strings.TrimLeft(parts[1], "0+")
+		exponent := strings.TrimLeft(parts[1], "0+")
+		if exponent == "" {
+			// The exponent is zero, it still needs a digit.
+			exponent = "0"
+		}
+		l.Token = parts[0] + "e" + exponent
 	})
 }
 
-- 
2.43.0


From 8925304979636fca9d83ccbe69b8a72ea93a0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 02/72] fix: bring call arguments in order before sorting the
 named ones

f(z = 1, x, a = 2) needed two passes of buildifier: the named arguments were only
sorted when no positional argument stood between them, and it was moved away later.
---
 build/rewrite.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 3cd907f..ca8cd38 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -118,13 +118,15 @@ const (
 
 // rewrites is the list of all Buildifier rewrites, in the order in which they are applied.
 // The order here matters: for example, label canonicalization must happen
-// before sorting lists of strings.
+// before sorting lists of strings, and the named arguments of a call must be
+// together before they can be sorted.
 var rewrites = []struct {
 	name  string
 	fn    func(*File, *Rewriter)
 	scope FileType
 }{
 	{"removeParens", removeParens, scopeBuild},
+	{"reorderarguments", reorderArguments, scopeBoth},
 	{"callsort", sortCallArgs, scopeBuild},
 	{"label", fixLabels, scopeBuild},
 	{"listsort", sortStringLists, scopeBoth},
@@ -135,7 +137,6 @@ var rewrites = []struct {
 	{"loadsort", sortAllLoadArgs, scopeBoth},
 	{"useRepoPositionalsSort", sortUseRepoPositionals, TypeModule},
 	{"formatdocstrings", formatDocstrings, scopeBoth},
-	{"reorderarguments", reorderArguments, scopeBoth},
 	{"editoctal", editOctals, scopeBoth},
 	{"editfloat", editFloats, scopeBoth},
 	{"collapseEmpty", collapseEmpty, scopeBoth},
-- 
2.43.0


From 98303532734b147c46ec109b0e22fe9af80f52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 03/72] fix: join labels written in more than two pieces in one
 pass

"//a" + "/b" + ":c" became "//a/b" + ":c", and "//a/b:c" only when formatted again.
---
 build/rewrite.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index ca8cd38..bbefe0e 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -221,11 +221,14 @@ func keepSorted(x Expr) bool {
 // "//third_party/m4:m4" into "//third_party/m4" as well as ones like
 // "@foo//:foo" into "@foo".
 func fixLabels(f *File, w *Rewriter) {
-	joinLabel := func(p *Expr) {
+	var joinLabel func(p *Expr)
+	joinLabel = func(p *Expr) {
 		add, ok := (*p).(*BinaryExpr)
 		if !ok || add.Op != "+" {
 			return
 		}
+		// The label may be written in more than two pieces.
+		joinLabel(&add.X)
 		str1, ok := add.X.(*StringExpr)
 		if !ok || !strings.HasPrefix(str1.Value, "//") || strings.Contains(str1.Value, " ") {
 			return
-- 
2.43.0


From 913b3a2ade59198bc1a756e3679b244384249001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 04/72] fix: keep the comments of load statements that are
 merged

Merging loads of the same file dropped the comments of all but the first of them.
---
 build/rewrite.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index bbefe0e..451e07b 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1051,11 +1051,22 @@ func compressSameOriginLoads(f *File, _ *Rewriter) {
 		// Move loaded symbols to the existing load statement
 		previousLoad.From = append(previousLoad.From, load.From...)
 		previousLoad.To = append(previousLoad.To, load.To...)
+		// Keep the comments of the current statement
+		moveComments(previousLoad.Comment(), load.Comment())
+		moveComments(previousLoad.Module.Comment(), load.Module.Comment())
+		moveComments(previousLoad.Rparen.Comment(), load.Rparen.Comment())
 		// Remove the current statement
 		f.Stmt[stmtIndex] = nil
 	}
 }
 
+// moveComments appends the comments in src to those in dst.
+func moveComments(dst, src *Comments) {
+	dst.Before = append(dst.Before, src.Before...)
+	dst.Suffix = append(dst.Suffix, src.Suffix...)
+	dst.After = append(dst.After, src.After...)
+}
+
 // comparePaths compares two strings as if they were paths (the path delimiter,
 // '/', should be treated as smallest symbol).
 func comparePaths(path1, path2 string) bool {
-- 
2.43.0


From f796d7ff406c5e7c4fb1b7400528e10e23ddabab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 05/72] fix: parse not, conditional expressions and lambdas
 with the precedence Starlark gives them

'not a == b' was parsed as (not a) == b, 'a if b else c if d else e' as
(a if b else c) if d else e, 'lambda: a, b' as lambda: (a, b), and
'x = a, b if c else d' was rejected.
---
 build/parse.y    |  11 +-
 build/parse.y.go | 380 ++++++++++++++++++++++++-----------------------
 build/print.go   |  16 +-
 3 files changed, 209 insertions(+), 198 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 0eaf470..fd3aff3 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -185,8 +185,8 @@ package build
 // e.g. "x = a if c > 0 else 'bar'"
 // followed by
 // 'if' and 'else' which have lower precedence than all other operators.
-// e.g. "a, b if c > 0 else 'foo'" is either a tuple of (a,b) or 'foo'
-// and not a tuple of "(a, (b if ... ))"
+// e.g. "a or b if c > 0 else 'foo'" is either (a or b) or 'foo'
+// and not "a or (b if ... )"
 %left  '=' _AUGM
 %left  _IF _ELSE _ELIF
 %left  ','
@@ -194,6 +194,7 @@ package build
 %left  _IS
 %left  _OR
 %left  _AND
+%right LogicalNot
 %left  '<' '>' _EQ _NE _LE _GE _NOT _IN
 %left  '|'
 %left  '^'
@@ -826,7 +827,7 @@ expr_opt:
 
 test:
 	primary_expr
-|	_LAMBDA parameters_opt ':' expr
+|	_LAMBDA parameters_opt ':' test %prec ShiftInstead
 	{
 		$$ = &LambdaExpr{
 			Function: Function{
@@ -836,7 +837,7 @@ test:
 			},
 		}
 	}
-|	_NOT test %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
+|	_NOT test %prec LogicalNot { $$ = unary($1, $<tok>1, $2) }
 |	'-' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'+' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'~' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
@@ -869,7 +870,7 @@ test:
 			$$ = binary($1, $2, $<tok>2, $3)
 		}
 	}
-|	test _IF test _ELSE test
+|	test _IF test _ELSE test %prec ShiftInstead
 	{
 		$$ = &ConditionalExpr{
 			Then: $1,
diff --git a/build/parse.y.go b/build/parse.y.go
index 11dec91..c74b3d3 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -71,7 +71,8 @@ const _INDENT = 57377
 const _UNINDENT = 57378
 const ShiftInstead = 57379
 const _ASSERT = 57380
-const _UNARY = 57381
+const LogicalNot = 57381
+const _UNARY = 57382
 
 var yyToknames = [...]string{
 	"$end",
@@ -134,6 +135,7 @@ var yyToknames = [...]string{
 	"ShiftInstead",
 	"'\\n'",
 	"_ASSERT",
+	"LogicalNot",
 	"_UNARY",
 	"';'",
 }
@@ -144,7 +146,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line build/parse.y:1058
+//line build/parse.y:1059
 
 // Go helper code.
 
@@ -412,32 +414,32 @@ const yyPrivate = 57344
 const yyLast = 1052
 
 var yyAct = [...]int16{
-	20, 31, 234, 250, 146, 2, 29, 108, 186, 106,
-	7, 147, 195, 95, 160, 43, 152, 9, 23, 187,
-	159, 105, 240, 220, 174, 40, 87, 88, 89, 90,
-	44, 84, 39, 36, 93, 98, 101, 49, 209, 54,
-	131, 173, 53, 57, 83, 58, 103, 55, 113, 218,
-	114, 39, 110, 36, 118, 119, 120, 121, 122, 123,
-	124, 125, 126, 127, 128, 129, 130, 200, 132, 133,
-	134, 135, 136, 137, 138, 139, 140, 35, 217, 56,
-	238, 219, 189, 38, 51, 52, 143, 110, 92, 33,
-	36, 34, 155, 156, 54, 85, 157, 53, 13, 164,
-	76, 94, 55, 162, 36, 37, 163, 36, 39, 168,
-	263, 171, 32, 48, 167, 109, 165, 212, 190, 116,
-	36, 77, 39, 175, 100, 207, 181, 162, 213, 179,
-	166, 86, 182, 47, 56, 54, 97, 162, 53, 57,
-	117, 58, 201, 55, 111, 112, 248, 196, 188, 115,
-	193, 247, 191, 197, 158, 205, 79, 194, 261, 206,
-	84, 227, 78, 154, 211, 231, 47, 154, 80, 211,
-	221, 214, 216, 204, 208, 56, 72, 73, 210, 149,
-	208, 44, 47, 47, 223, 215, 102, 180, 45, 47,
-	222, 245, 244, 142, 202, 196, 228, 229, 46, 232,
-	233, 197, 225, 235, 151, 42, 260, 230, 178, 148,
-	237, 226, 200, 47, 169, 153, 264, 224, 236, 192,
-	172, 141, 91, 239, 104, 177, 1, 10, 243, 18,
-	249, 241, 246, 188, 176, 242, 99, 96, 251, 253,
+	20, 31, 234, 250, 146, 2, 29, 108, 186, 195,
+	7, 95, 147, 160, 43, 9, 152, 159, 23, 105,
+	187, 240, 220, 174, 40, 36, 87, 88, 89, 90,
+	44, 84, 39, 49, 93, 98, 101, 106, 131, 51,
+	52, 209, 173, 39, 200, 83, 103, 92, 113, 218,
+	114, 36, 143, 76, 118, 119, 120, 121, 122, 123,
+	124, 125, 126, 127, 128, 129, 130, 36, 132, 133,
+	134, 135, 136, 137, 138, 139, 140, 110, 217, 54,
+	13, 219, 53, 100, 189, 39, 85, 55, 35, 110,
+	94, 212, 155, 156, 38, 48, 157, 116, 213, 164,
+	33, 162, 34, 77, 162, 238, 166, 163, 263, 36,
+	168, 36, 171, 165, 167, 36, 37, 109, 117, 56,
+	190, 175, 86, 32, 207, 97, 111, 112, 47, 179,
+	158, 115, 182, 39, 45, 54, 162, 248, 53, 57,
+	261, 58, 247, 55, 46, 79, 245, 196, 188, 231,
+	193, 78, 203, 197, 181, 205, 47, 80, 194, 206,
+	84, 149, 244, 154, 211, 201, 227, 202, 154, 211,
+	151, 214, 216, 208, 204, 56, 42, 210, 47, 208,
+	191, 44, 221, 215, 223, 54, 102, 260, 53, 57,
+	178, 58, 148, 55, 47, 196, 228, 229, 180, 232,
+	233, 197, 225, 235, 230, 47, 226, 200, 47, 142,
+	237, 169, 153, 264, 224, 192, 172, 141, 222, 236,
+	91, 104, 177, 239, 1, 56, 72, 73, 243, 10,
+	18, 249, 246, 188, 176, 242, 99, 96, 251, 253,
 	41, 50, 19, 252, 12, 256, 257, 7, 8, 235,
-	203, 258, 4, 30, 259, 161, 262, 150, 184, 185,
+	4, 258, 30, 161, 259, 150, 262, 184, 185, 241,
 	81, 82, 251, 266, 265, 35, 144, 252, 27, 145,
 	26, 38, 0, 0, 0, 0, 0, 33, 0, 34,
 	0, 0, 0, 0, 28, 0, 0, 6, 0, 0,
@@ -521,41 +523,41 @@ var yyAct = [...]int16{
 }
 
 var yyPact = [...]int16{
-	-1000, -1000, 313, -1000, -1000, -1000, -34, -1000, -1000, -1000,
-	192, 72, -1000, 173, 971, -1000, -1000, -1000, -10, 49,
-	590, 68, 971, 151, 88, 971, 971, 971, 971, -1000,
-	-1000, -1000, 217, 971, 971, 971, -1000, 175, 13, -1000,
-	-1000, -41, 365, 78, 151, 971, 971, 971, 204, 971,
-	971, 106, -1000, 971, 971, 971, 971, 971, 971, 971,
-	971, 971, 971, 971, 971, 971, 3, 971, 971, 971,
-	971, 971, 971, 971, 971, 971, 216, 180, 54, 200,
-	971, 191, 206, -1000, 152, 21, 21, -1000, -1000, -1000,
-	-1000, 200, 136, 547, 200, 73, 110, 205, 461, 200,
-	214, 590, 8, -1000, -35, 632, -1000, -1000, -1000, 971,
-	72, 204, 204, 684, 590, 174, 365, -1000, -1000, -1000,
-	-1000, -1000, 90, 90, 1005, 1005, 1005, 1005, 1005, 1005,
-	1005, 971, 770, 813, 889, 131, 347, 35, 35, 727,
-	504, 75, 365, -1000, 213, 200, 899, 203, -1000, 124,
-	181, 971, -1000, 88, 971, -1000, -1000, -18, -1000, 107,
-	4, -1000, 72, 935, -1000, 97, -1000, 108, 935, -1000,
-	971, 935, -1000, -1000, -1000, -1000, 22, -36, 157, 151,
-	365, -1000, 1005, 971, 211, 202, -1000, -1000, 148, 21,
-	21, -1000, -1000, -1000, 855, -1000, 590, 150, 971, 971,
-	-1000, -1000, 971, -1000, -1000, 590, 200, -1000, 4, 971,
-	43, 590, -1000, -1000, 590, -1000, 461, -1000, -37, -1000,
-	-1000, 365, -1000, 684, -1000, -1000, 75, 971, 179, 178,
-	-1000, 971, 590, 590, 133, 590, 58, 684, 971, 260,
-	-1000, -1000, -1000, 418, 971, 971, 590, -1000, 971, 197,
-	-1000, -1000, 143, 684, -1000, 971, 590, 590, 92, 210,
-	1, -18, 590, -1000, -1000, -1000, -1000,
+	-1000, -1000, 313, -1000, -1000, -1000, -35, -1000, -1000, -1000,
+	163, 83, -1000, 119, 971, -1000, -1000, -1000, -14, 4,
+	590, 21, 971, 140, 79, 971, 971, 971, 971, -1000,
+	-1000, -1000, 215, 971, 971, 971, -1000, 175, 13, -1000,
+	-1000, -44, 365, 80, 140, 971, 971, 971, 199, 971,
+	971, 84, -1000, 971, 971, 971, 971, 971, 971, 971,
+	971, 971, 971, 971, 971, 971, 1, 971, 971, 971,
+	971, 971, 971, 971, 971, 971, 212, 196, 20, 183,
+	971, 157, 203, -1000, 148, 19, 19, 813, -1000, -1000,
+	-1000, 183, 112, 547, 183, 74, 86, 202, 461, 183,
+	210, 590, 9, -1000, -36, 632, -1000, -1000, -1000, 971,
+	83, 199, 199, 590, 590, 185, 365, -1000, -1000, -1000,
+	-1000, -1000, 75, 75, 1005, 1005, 1005, 1005, 1005, 1005,
+	1005, 971, 770, 813, 889, 181, 347, 131, 131, 727,
+	504, 77, 365, -1000, 209, 183, 899, 198, -1000, 147,
+	154, 971, -1000, 79, 971, -1000, -1000, -18, -1000, 106,
+	7, -1000, 83, 935, -1000, 71, -1000, 78, 935, -1000,
+	971, 935, -1000, -1000, -1000, -1000, 22, -37, 169, 140,
+	365, -1000, 1005, 971, 208, 197, -1000, -1000, 153, 19,
+	19, -1000, -1000, -1000, 855, -1000, 590, 134, 971, 971,
+	-1000, -1000, 971, 590, -1000, 590, 183, -1000, 7, 971,
+	68, 590, -1000, -1000, 590, -1000, 461, -1000, -38, -1000,
+	-1000, 365, -1000, 590, -1000, -1000, 77, 971, 149, 133,
+	-1000, 971, 590, 590, 124, 590, 35, 684, 971, 260,
+	-1000, -1000, -1000, 418, 971, 971, 590, -1000, 971, 178,
+	-1000, -1000, 125, 684, -1000, 971, 590, 590, 90, 207,
+	-7, -18, 590, -1000, -1000, -1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 16, 11, 4, 12, 269, 266, 19, 261, 260,
-	8, 259, 258, 0, 2, 88, 18, 98, 257, 101,
-	15, 255, 14, 20, 6, 253, 5, 252, 248, 244,
-	242, 241, 7, 17, 240, 13, 237, 236, 1, 9,
-	234, 3, 230, 229, 227, 226, 225, 224,
+	0, 16, 12, 4, 9, 269, 266, 20, 261, 260,
+	8, 258, 257, 0, 2, 47, 18, 80, 255, 90,
+	14, 253, 13, 17, 6, 252, 5, 250, 248, 244,
+	242, 241, 7, 15, 240, 11, 237, 236, 1, 37,
+	234, 3, 231, 230, 229, 224, 222, 221,
 }
 
 var yyR1 = [...]int8{
@@ -605,7 +607,7 @@ var yyChk = [...]int16{
 	22, 23, 45, 46, 38, 34, 32, -17, 11, 5,
 	17, -9, -8, -7, -24, 7, 43, -13, -13, -13,
 	-13, 5, -15, -13, -19, -35, -36, -19, -13, -37,
-	-15, -13, 11, 33, -47, 62, -39, 59, -32, 37,
+	-15, -13, 11, 33, -47, 63, -39, 59, -32, 37,
 	9, -17, -17, -13, -13, -17, 13, 34, -13, -13,
 	-13, -13, -13, -13, -13, -13, -13, -13, -13, -13,
 	-13, 37, -13, -13, -13, -13, -13, -13, -13, -13,
@@ -615,7 +617,7 @@ var yyChk = [...]int16{
 	13, -2, 6, 33, 59, -33, -40, -46, -17, -16,
 	13, -39, -13, 35, -12, -11, -10, -7, -24, 7,
 	43, -39, 6, -3, -2, -4, -13, -24, 7, 43,
-	9, 18, 13, -17, -7, -13, -38, 18, -22, 34,
+	9, 18, 13, -13, -7, -13, -38, 18, -22, 34,
 	-20, -13, 20, 20, -13, -35, -13, 56, 27, 59,
 	59, 13, -39, -13, 6, -1, 9, 13, -24, -24,
 	-4, 15, -13, -13, -14, -13, -2, -13, 37, -26,
@@ -660,7 +662,7 @@ var yyTok1 = [...]int8{
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 4, 22, 3,
 	5, 6, 7, 8, 9, 10, 11, 12, 3, 3,
-	3, 3, 3, 3, 3, 3, 3, 3, 13, 62,
+	3, 3, 3, 3, 3, 3, 3, 3, 13, 63,
 	14, 15, 16, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
@@ -674,7 +676,7 @@ var yyTok2 = [...]int8{
 	2, 3, 25, 26, 27, 28, 29, 30, 31, 32,
 	33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
 	43, 44, 45, 46, 47, 48, 49, 50, 51, 52,
-	53, 54, 55, 56, 57, 58, 60, 61,
+	53, 54, 55, 56, 57, 58, 60, 61, 62,
 }
 
 var yyTok3 = [...]int8{
@@ -1020,14 +1022,14 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:218
+//line build/parse.y:219
 		{
 			yylex.(*input).file = &File{Stmt: yyDollar[1].exprs}
 			return 0
 		}
 	case 2:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:225
+//line build/parse.y:226
 		{
 			statements := yyDollar[4].exprs
 			if yyDollar[2].exprs != nil {
@@ -1049,20 +1051,20 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:245
+//line build/parse.y:246
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 6:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:253
+//line build/parse.y:254
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 7:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:258
+//line build/parse.y:259
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1076,21 +1078,21 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:270
+//line build/parse.y:271
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:276
+//line build/parse.y:277
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 10:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:281
+//line build/parse.y:282
 		{
 			// If this statement follows a comment block,
 			// attach the comments to the statement.
@@ -1123,7 +1125,7 @@ yydefault:
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:312
+//line build/parse.y:313
 		{
 			// Blank line; sever last rule from future comments.
 			yyVAL.exprs = yyDollar[1].exprs
@@ -1131,7 +1133,7 @@ yydefault:
 		}
 	case 12:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:318
+//line build/parse.y:319
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1145,14 +1147,14 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:332
+//line build/parse.y:333
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].exprs[len(yyDollar[1].exprs)-1]
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:337
+//line build/parse.y:338
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 			yyVAL.lastStmt = yyDollar[1].expr
@@ -1166,7 +1168,7 @@ yydefault:
 		}
 	case 15:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:351
+//line build/parse.y:352
 		{
 			yyVAL.def_header = &DefStmt{
 				Function: Function{
@@ -1180,14 +1182,14 @@ yydefault:
 		}
 	case 17:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:366
+//line build/parse.y:367
 		{
 			yyDollar[1].def_header.Type = yyDollar[3].expr
 			yyVAL.def_header = yyDollar[1].def_header
 		}
 	case 18:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:373
+//line build/parse.y:374
 		{
 			yyDollar[1].def_header.Function.Body = yyDollar[3].exprs
 			yyDollar[1].def_header.ColonPos = yyDollar[2].pos
@@ -1196,7 +1198,7 @@ yydefault:
 		}
 	case 19:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:380
+//line build/parse.y:381
 		{
 			yyVAL.expr = &ForStmt{
 				For:  yyDollar[1].pos,
@@ -1208,14 +1210,14 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:390
+//line build/parse.y:391
 		{
 			yyVAL.expr = yyDollar[1].ifstmt
 			yyVAL.lastStmt = yyDollar[1].lastStmt
 		}
 	case 21:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:398
+//line build/parse.y:399
 		{
 			yyVAL.ifstmt = &IfStmt{
 				If:   yyDollar[1].pos,
@@ -1226,7 +1228,7 @@ yydefault:
 		}
 	case 22:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:407
+//line build/parse.y:408
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1245,7 +1247,7 @@ yydefault:
 		}
 	case 24:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:428
+//line build/parse.y:429
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1258,26 +1260,26 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:445
+//line build/parse.y:446
 		{
 			yyVAL.exprs = append([]Expr{yyDollar[1].expr}, yyDollar[2].exprs...)
 			yyVAL.lastStmt = yyVAL.exprs[len(yyVAL.exprs)-1]
 		}
 	case 28:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:451
+//line build/parse.y:452
 		{
 			yyVAL.exprs = []Expr{}
 		}
 	case 29:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:455
+//line build/parse.y:456
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 31:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:462
+//line build/parse.y:463
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1286,7 +1288,7 @@ yydefault:
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:469
+//line build/parse.y:470
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1294,19 +1296,19 @@ yydefault:
 		}
 	case 33:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:474
+//line build/parse.y:475
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 34:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:475
+//line build/parse.y:476
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 35:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:477
+//line build/parse.y:478
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1315,7 +1317,7 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:484
+//line build/parse.y:485
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1324,7 +1326,7 @@ yydefault:
 		}
 	case 37:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:491
+//line build/parse.y:492
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1333,13 +1335,13 @@ yydefault:
 		}
 	case 42:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:505
+//line build/parse.y:506
 		{
 			yyVAL.expr = yyDollar[1].string
 		}
 	case 43:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:509
+//line build/parse.y:510
 		{
 			yyVAL.expr = &DotExpr{
 				X:       yyDollar[1].expr,
@@ -1350,7 +1352,7 @@ yydefault:
 		}
 	case 44:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:518
+//line build/parse.y:519
 		{
 			load := &LoadStmt{
 				Load:         yyDollar[1].pos,
@@ -1366,7 +1368,7 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:532
+//line build/parse.y:533
 		{
 			yyVAL.expr = &CallExpr{
 				X:              yyDollar[1].expr,
@@ -1379,7 +1381,7 @@ yydefault:
 		}
 	case 46:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:543
+//line build/parse.y:544
 		{
 			yyVAL.expr = &IndexExpr{
 				X:          yyDollar[1].expr,
@@ -1390,7 +1392,7 @@ yydefault:
 		}
 	case 47:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:552
+//line build/parse.y:553
 		{
 			yyVAL.expr = &SliceExpr{
 				X:          yyDollar[1].expr,
@@ -1403,7 +1405,7 @@ yydefault:
 		}
 	case 48:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:563
+//line build/parse.y:564
 		{
 			yyVAL.expr = &SliceExpr{
 				X:           yyDollar[1].expr,
@@ -1418,7 +1420,7 @@ yydefault:
 		}
 	case 49:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:576
+//line build/parse.y:577
 		{
 			yyVAL.expr = &ListExpr{
 				Start:          yyDollar[1].pos,
@@ -1429,7 +1431,7 @@ yydefault:
 		}
 	case 50:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:585
+//line build/parse.y:586
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          false,
@@ -1442,7 +1444,7 @@ yydefault:
 		}
 	case 51:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:596
+//line build/parse.y:597
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          true,
@@ -1455,7 +1457,7 @@ yydefault:
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:607
+//line build/parse.y:608
 		{
 			exprValues := make([]Expr, 0, len(yyDollar[2].kvs))
 			for _, kv := range yyDollar[2].kvs {
@@ -1470,7 +1472,7 @@ yydefault:
 		}
 	case 53:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:620
+//line build/parse.y:621
 		{
 			yyVAL.expr = &SetExpr{
 				Start:          yyDollar[1].pos,
@@ -1481,7 +1483,7 @@ yydefault:
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:629
+//line build/parse.y:630
 		{
 			if len(yyDollar[2].exprs) == 1 && yyDollar[2].comma.Line == 0 {
 				// Just a parenthesized expression, not a tuple.
@@ -1503,49 +1505,49 @@ yydefault:
 		}
 	case 55:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:650
+//line build/parse.y:651
 		{
 			yyVAL.exprs = nil
 		}
 	case 56:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:654
+//line build/parse.y:655
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 57:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:660
+//line build/parse.y:661
 		{
 			yyVAL.exprs = []Expr{yyDollar[2].expr}
 		}
 	case 58:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:664
+//line build/parse.y:665
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 60:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:671
+//line build/parse.y:672
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 61:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:675
+//line build/parse.y:676
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 62:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:679
+//line build/parse.y:680
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:684
+//line build/parse.y:685
 		{
 			yyVAL.loadargs = []*struct {
 				from Ident
@@ -1554,14 +1556,14 @@ yydefault:
 		}
 	case 64:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:688
+//line build/parse.y:689
 		{
 			yyDollar[1].loadargs = append(yyDollar[1].loadargs, yyDollar[3].loadarg)
 			yyVAL.loadargs = yyDollar[1].loadargs
 		}
 	case 65:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:694
+//line build/parse.y:695
 		{
 			start := yyDollar[1].string.Start.add("'")
 			if yyDollar[1].string.TripleQuote {
@@ -1583,7 +1585,7 @@ yydefault:
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:711
+//line build/parse.y:712
 		{
 			start := yyDollar[3].string.Start.add("'")
 			if yyDollar[3].string.TripleQuote {
@@ -1602,103 +1604,103 @@ yydefault:
 		}
 	case 67:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:726
+//line build/parse.y:727
 		{
 			yyVAL.exprs = nil
 		}
 	case 68:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:730
+//line build/parse.y:731
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 69:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:735
+//line build/parse.y:736
 		{
 			yyVAL.exprs = nil
 		}
 	case 70:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:739
+//line build/parse.y:740
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 71:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:745
+//line build/parse.y:746
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:749
+//line build/parse.y:750
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 73:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:756
+//line build/parse.y:757
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:760
+//line build/parse.y:761
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:767
+//line build/parse.y:768
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:771
+//line build/parse.y:772
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 78:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:775
+//line build/parse.y:776
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, nil)
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:779
+//line build/parse.y:780
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 81:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:788
+//line build/parse.y:789
 		{
 			yyVAL.expr = typed(yyDollar[1].expr, yyDollar[3].expr)
 		}
 	case 82:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:792
+//line build/parse.y:793
 		{
 			yyVAL.expr = binary(typed(yyDollar[1].expr, yyDollar[3].expr), yyDollar[4].pos, yyDollar[4].tok, yyDollar[5].expr)
 		}
 	case 83:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:796
+//line build/parse.y:797
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 84:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:800
+//line build/parse.y:801
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 86:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:807
+//line build/parse.y:808
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -1714,13 +1716,13 @@ yydefault:
 		}
 	case 87:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:822
+//line build/parse.y:823
 		{
 			yyVAL.expr = nil
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:830
+//line build/parse.y:831
 		{
 			yyVAL.expr = &LambdaExpr{
 				Function: Function{
@@ -1732,157 +1734,157 @@ yydefault:
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:839
+//line build/parse.y:840
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:840
+//line build/parse.y:841
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:841
+//line build/parse.y:842
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 94:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:842
+//line build/parse.y:843
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 95:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:843
+//line build/parse.y:844
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 96:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:844
+//line build/parse.y:845
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 97:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:845
+//line build/parse.y:846
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 98:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:846
+//line build/parse.y:847
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:847
+//line build/parse.y:848
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 100:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:848
+//line build/parse.y:849
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 101:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:849
+//line build/parse.y:850
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:850
+//line build/parse.y:851
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:851
+//line build/parse.y:852
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 104:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:852
+//line build/parse.y:853
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 105:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:853
+//line build/parse.y:854
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 106:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:854
+//line build/parse.y:855
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 107:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:855
+//line build/parse.y:856
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 108:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:856
+//line build/parse.y:857
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "not in", yyDollar[4].expr)
 		}
 	case 109:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:857
+//line build/parse.y:858
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 110:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:858
+//line build/parse.y:859
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 111:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:859
+//line build/parse.y:860
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 112:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:860
+//line build/parse.y:861
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:861
+//line build/parse.y:862
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:862
+//line build/parse.y:863
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:863
+//line build/parse.y:864
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:865
+//line build/parse.y:866
 		{
 			if b, ok := yyDollar[3].expr.(*UnaryExpr); ok && b.Op == "not" {
 				yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "is not", b.X)
@@ -1892,7 +1894,7 @@ yydefault:
 		}
 	case 117:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:873
+//line build/parse.y:874
 		{
 			yyVAL.expr = &ConditionalExpr{
 				Then:      yyDollar[1].expr,
@@ -1904,55 +1906,55 @@ yydefault:
 		}
 	case 118:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:885
+//line build/parse.y:886
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 119:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:889
+//line build/parse.y:890
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 120:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:894
+//line build/parse.y:895
 		{
 			yyVAL.expr = nil
 		}
 	case 122:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:900
+//line build/parse.y:901
 		{
 			yyVAL.exprs, yyVAL.comma = nil, Position{}
 		}
 	case 123:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:904
+//line build/parse.y:905
 		{
 			yyVAL.exprs, yyVAL.comma = yyDollar[1].exprs, yyDollar[2].pos
 		}
 	case 124:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:914
+//line build/parse.y:915
 		{
 			yyVAL.pos = Position{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:925
+//line build/parse.y:926
 		{
 			yyVAL.pos = yyDollar[1].pos
 		}
 	case 128:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:933
+//line build/parse.y:934
 		{
 			yyVAL.pos = Position{}
 		}
 	case 130:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:940
+//line build/parse.y:941
 		{
 			yyVAL.kv = &KeyValueExpr{
 				Key:   yyDollar[1].expr,
@@ -1962,37 +1964,37 @@ yydefault:
 		}
 	case 131:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:950
+//line build/parse.y:951
 		{
 			yyVAL.kvs = []*KeyValueExpr{yyDollar[1].kv}
 		}
 	case 132:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:954
+//line build/parse.y:955
 		{
 			yyVAL.kvs = append(yyDollar[1].kvs, yyDollar[3].kv)
 		}
 	case 133:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:959
+//line build/parse.y:960
 		{
 			yyVAL.kvs = nil
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:963
+//line build/parse.y:964
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 135:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:967
+//line build/parse.y:968
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 137:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:974
+//line build/parse.y:975
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -2008,7 +2010,7 @@ yydefault:
 		}
 	case 138:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:990
+//line build/parse.y:991
 		{
 			yyVAL.string = &StringExpr{
 				Start:       yyDollar[1].pos,
@@ -2020,37 +2022,37 @@ yydefault:
 		}
 	case 139:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1002
+//line build/parse.y:1003
 		{
 			yyVAL.expr = &Ident{NamePos: yyDollar[1].pos, Name: yyDollar[1].tok}
 		}
 	case 140:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1008
+//line build/parse.y:1009
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "." + yyDollar[3].tok}
 		}
 	case 141:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1012
+//line build/parse.y:1013
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "."}
 		}
 	case 142:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1016
+//line build/parse.y:1017
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: "." + yyDollar[2].tok}
 		}
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1020
+//line build/parse.y:1021
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok}
 		}
 	case 144:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:1026
+//line build/parse.y:1027
 		{
 			yyVAL.expr = &ForClause{
 				For:  yyDollar[1].pos,
@@ -2061,13 +2063,13 @@ yydefault:
 		}
 	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1037
+//line build/parse.y:1038
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 146:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1041
+//line build/parse.y:1042
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, &IfClause{
 				If:   yyDollar[2].pos,
@@ -2076,13 +2078,13 @@ yydefault:
 		}
 	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1050
+//line build/parse.y:1051
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 148:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1054
+//line build/parse.y:1055
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[2].exprs...)
 		}
diff --git a/build/print.go b/build/print.go
index 0492dd4..de635de 100644
--- a/build/print.go
+++ b/build/print.go
@@ -515,6 +515,7 @@ const (
 	precIfElse
 	precOr
 	precAnd
+	precNot
 	precCmp
 	precBitwiseOr
 	precBitwiseXor
@@ -703,16 +704,23 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("]")
 
 	case *UnaryExpr:
-		addParen(precUnary)
+		// Use the next precedence level (precSuffix) for the operand, so that nested unary expressions
+		// are parenthesized, for example: `not (-(+(~foo)))` instead of `not -+~foo`
+		operandPrec := precSuffix
 		if v.Op == "not" {
+			addParen(precNot)
 			p.printf("not ") // Requires a space after it.
+			// Unlike other unary operators, `not` has a lower precedence than comparisons
+			// and arithmetics.
+			if _, ok := v.X.(*UnaryExpr); !ok {
+				operandPrec = precCmp
+			}
 		} else {
+			addParen(precUnary)
 			p.printf("%s", v.Op)
 		}
-		// Use the next precedence level (precSuffix), so that nested unary expressions are parenthesized,
-		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
 		if v.X != nil {
-			p.expr(v.X, precSuffix)
+			p.expr(v.X, operandPrec)
 		}
 
 	case *LambdaExpr:
-- 
2.43.0


From 53e646a4ecd6e4b268772c4b843762940b55c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 06/72] fix: keep the parentheses of a number in front of a dot

---
 build/rewrite.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 451e07b..a9617d6 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1465,7 +1465,18 @@ func removeParens(f *File, _ *Rewriter) {
 		}
 
 		switch x := pa.X.(type) {
-		case *Comprehension, *DictExpr, *Ident, *ListExpr, *LiteralExpr, *ParenExpr, *SetExpr, *StringExpr:
+		case *LiteralExpr:
+			// A number in front of a dot needs the parens: "0.b" can't be parsed.
+			if len(stack) > 0 {
+				if _, ok := stack[len(stack)-1].(*DotExpr); ok {
+					return expr
+				}
+			}
+			return x
+		case *ParenExpr:
+			// The outer parens aren't needed, continue with the inner ones.
+			return simplify(x, stack)
+		case *Comprehension, *DictExpr, *Ident, *ListExpr, *SetExpr, *StringExpr:
 			// These expressions don't need parens, remove them (recursively).
 			return Edit(x, simplify)
 		case *CallExpr:
-- 
2.43.0


From 36b5a6516c4a7cf12fbc3e3ee89e733ddf749406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 07/72] fix: keep the comments of duplicates at the end of a
 list

---
 build/rewrite.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index a9617d6..d7d2e1a 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -541,13 +541,14 @@ func deduplicateStringList(x Expr) {
 		return
 	}
 
-	list.List = deduplicateStringExprs(list.List)
+	list.List = deduplicateStringExprs(list.List, &list.End)
 }
 
 // deduplicateStringExprs removes duplicate string expressions from a slice
 // without reordering its elements.
-// Any suffix-comments are lost, any before- and after-comments are preserved.
-func deduplicateStringExprs(list []Expr) []Expr {
+// Any suffix-comments are lost, any before- and after-comments are preserved:
+// they move to the next remaining string or, if there is none, to the closing bracket.
+func deduplicateStringExprs(list []Expr, end *End) []Expr {
 	var comments []Comment
 	alreadySeen := make(map[string]bool)
 	var deduplicated []Expr
@@ -573,6 +574,9 @@ func deduplicateStringExprs(list []Expr) []Expr {
 		}
 		deduplicated = append(deduplicated, value)
 	}
+	if len(comments) > 0 {
+		end.Before = append(comments, end.Before...)
+	}
 	return deduplicated
 }
 
@@ -586,7 +590,7 @@ func SortStringList(x Expr) {
 	}
 
 	if doNotSort(list.List[0]) {
-		list.List = deduplicateStringExprs(list.List)
+		list.List = deduplicateStringExprs(list.List, &list.End)
 		return
 	}
 
@@ -1213,7 +1217,7 @@ func sortUseRepoPositionals(f *File, _ *Rewriter) {
 			// Respect the "do not sort" comment on both the first argument and the first repository
 			// name.
 			if doNotSort(call) || doNotSort(call.List[0]) || doNotSort(call.List[1]) {
-				call.List = deduplicateStringExprs(call.List)
+				call.List = deduplicateStringExprs(call.List, &call.End)
 			} else {
 				// Keyword arguments do not have to be sorted here as this has already been done by
 				// the generic callsort rewriter pass.
-- 
2.43.0


From 4b3642c6e66f072c7b8228ef9b7f96189ec84985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 08/72] fix: sort every part of a list after duplicates were
 dropped

---
 build/rewrite.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index d7d2e1a..13e3a3d 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -681,7 +681,8 @@ func sortStringExprs(list []Expr) []Expr {
 			list = append(list[:(i+len(chunk))], list[j:]...)
 		}
 
-		i = j
+		// The chunk may have become shorter.
+		i += len(chunk)
 	}
 
 	return list
-- 
2.43.0


From 8b5b2db9fbf7cca3bb5d9645db58de940926ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 09/72] fix: print a load statement with a commented alias on
 several lines

---
 build/print.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index de635de..3e085d0 100644
--- a/build/print.go
+++ b/build/print.go
@@ -803,6 +803,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		addParen(precSuffix)
 		p.printf("load")
 		args := []Expr{v.Module}
+		forceCompact := v.ForceCompact
 		for i := range v.From {
 			from := v.From[i]
 			to := v.To[i]
@@ -819,10 +820,14 @@ func (p *printer) expr(v Expr, outerPrec int) {
 					Op:  "=",
 					RHS: from.asString(),
 				}
+				// The comments belong to the parts of the argument.
+				if len(to.Comment().Before) > 0 || len(from.Comment().Suffix) > 0 {
+					forceCompact = false
+				}
 			}
 			args = append(args, arg)
 		}
-		p.seq("()", &v.Load, &args, &v.Rparen, modeLoad, v.ForceCompact, false)
+		p.seq("()", &v.Load, &args, &v.Rparen, modeLoad, forceCompact, false)
 
 	case *ListExpr:
 		p.seq("[]", &v.Start, &v.List, &v.End, modeList, false, v.ForceMultiLine)
-- 
2.43.0


From 94118e5b8049a4a11f2ecad8fc3eba734a87ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 10/72] fix: keep only one suffix comment for merged load
 statements

---
 build/rewrite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 13e3a3d..cefb980 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1068,7 +1068,12 @@ func compressSameOriginLoads(f *File, _ *Rewriter) {
 // moveComments appends the comments in src to those in dst.
 func moveComments(dst, src *Comments) {
 	dst.Before = append(dst.Before, src.Before...)
-	dst.Suffix = append(dst.Suffix, src.Suffix...)
+	if len(dst.Suffix) > 0 {
+		// Only one comment fits at the end of the line.
+		dst.Before = append(dst.Before, src.Suffix...)
+	} else {
+		dst.Suffix = src.Suffix
+	}
 	dst.After = append(dst.After, src.After...)
 }
 
-- 
2.43.0


From a06bdeea6af4e5ac9dd5bac4a296db6287732ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 11/72] fix: recognize lists with comments as multiline when
 breaking sums

---
 build/rewrite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index cefb980..ff0f413 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -837,6 +837,10 @@ func fixMultilinePlus(f *File, _ *Rewriter) {
 	isMultiLine = func(x Expr) bool {
 		switch x := x.(type) {
 		case *ListExpr:
+			if len(x.List) == 1 && (len(x.List[0].Comment().Before) > 0 || len(x.List[0].Comment().Suffix) > 0) || len(x.End.Before) > 0 {
+				// Lists with comments inside are always multiline.
+				return true
+			}
 			return x.ForceMultiLine || len(x.List) > 1
 		case *CallExpr:
 			if x.ForceMultiLine || len(x.List) > 1 && !x.ForceCompact {
-- 
2.43.0


From c80cabcb11133edc189fd0db7899e4cb102914d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 12/72] fix: put implicit tuples with comments in parentheses

---
 build/print.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 3e085d0..c702bcb 100644
--- a/build/print.go
+++ b/build/print.go
@@ -837,7 +837,8 @@ func (p *printer) expr(v Expr, outerPrec int) {
 
 	case *TupleExpr:
 		mode := modeTuple
-		if v.NoBrackets {
+		if v.NoBrackets && !hasInnerComments(v.List) {
+			// Elements with comments take several lines, which requires brackets.
 			mode = modeSeq
 		}
 		p.seq("()", &v.Start, &v.List, &v.End, mode, v.ForceCompact, v.ForceMultiLine)
@@ -1038,6 +1039,16 @@ func (p *printer) useCompactMode(start *Position, list *[]Expr, end *End, mode s
 	return len(*list) <= 1
 }
 
+// hasInnerComments reports whether any of the expressions has comments.
+func hasInnerComments(list []Expr) bool {
+	for _, x := range list {
+		if len(x.Comment().Before) > 0 || len(x.Comment().Suffix) > 0 {
+			return true
+		}
+	}
+	return false
+}
+
 // seq formats a list of values inside a given bracket pair (brack = "()", "[]", "{}").
 // The end node holds any trailing comments to be printed just before the
 // closing bracket.
-- 
2.43.0


From 362e371a98d230fe9774e93698d882d131322892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 13/72] fix: keep the layout of module statements with nested
 lists stable

---
 build/print.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index c702bcb..b617227 100644
--- a/build/print.go
+++ b/build/print.go
@@ -322,6 +322,29 @@ func isBazelDep(x Expr) bool {
 	return false
 }
 
+// staysOnOneLine reports whether the arguments of a call that is written on a single line
+// won't be broken into several lines.
+func staysOnOneLine(call *CallExpr) bool {
+	result := true
+	for _, arg := range call.List {
+		Walk(arg, func(x Expr, stk []Expr) {
+			switch x := x.(type) {
+			case *ListExpr:
+				result = result && len(x.List) <= 1
+			case *SetExpr:
+				result = result && len(x.List) <= 1
+			case *DictExpr:
+				result = result && len(x.List) <= 1
+			case *TupleExpr:
+				result = result && (len(x.List) <= 1 || x.ForceCompact)
+			case *CallExpr:
+				result = result && (len(x.List) <= 1 || x.ForceCompact)
+			}
+		})
+	}
+	return result
+}
+
 func isUseRepoOrUseExtension(x Expr) bool {
 	call, ok := x.(*CallExpr)
 	if !ok {
@@ -793,7 +816,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		forceCompact := v.ForceCompact
 		if p.fileType == TypeModule && (isBazelDep(v) || isUseRepoOrUseExtension(v)) {
 			start, end := v.Span()
-			forceCompact = start.Line == end.Line
+			forceCompact = start.Line == end.Line && staysOnOneLine(v)
 		}
 		addParen(precSuffix)
 		p.expr(v.X, precSuffix)
-- 
2.43.0


From 3c8ea44b2d69152aa0974b8ff500398fd85324f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 14/72] fix: order load statements of packages that differ in
 case by their depth first

---
 build/rewrite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index ff0f413..ccf3cdc 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1104,6 +1104,10 @@ func comparePaths(path1, path2 string) bool {
 		}
 	}
 
+	if len(chunks1) != len(chunks2) {
+		return len(chunks1) < len(chunks2)
+	}
+
 	// No case-insensitive difference detected. Likely the difference is just in
 	// the case of some symbols, compare case-sensitively for the determinism.
 	return path1 <= path2
-- 
2.43.0


From d22c9d4ee4a0f8eaa78b8253d77a2808f99d9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 15/72] fix: do not extract elements other than strings from
 the branches of a select

---
 edit/edit.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index e56ee45..6ca5765 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -624,6 +624,11 @@ func SelectListsIntersection(sel *build.CallExpr, pkg string) (intersection []bu
 	}
 
 	if val, ok := dict.List[0].Value.(*build.ListExpr); ok {
+		for _, elem := range val.List {
+			if _, ok := elem.(*build.StringExpr); !ok {
+				return nil // only strings can be found and removed from the branches again
+			}
+		}
 		intersection = make([]build.Expr, len(val.List))
 		copy(intersection, val.List)
 	}
-- 
2.43.0


From a7da1a59d4a6a570fffa002b4a758b70d81d9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 16/72] fix: look into every select of an attribute, also those
 with a no_match_error

---
 edit/edit.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 6ca5765..fcfdcbd 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -423,12 +423,12 @@ func allListsFromSelects(e build.Expr) []*build.ListExpr {
 	var lists []*build.ListExpr
 
 	for _, s := range AllSelects(e) {
-		if len(s.List) != 1 {
-			return nil
+		if len(s.List) == 0 {
+			continue
 		}
 		dict, ok := s.List[0].(*build.DictExpr)
 		if !ok {
-			return nil
+			continue
 		}
 		for _, kv := range dict.List {
 			list, ok := kv.Value.(*build.ListExpr)
-- 
2.43.0


From 76f090e1c7b4f4a792e1c999a6bf05d357aad2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 17/72] fix: keep dictionary entries whose keys are not strings
 when removing others

---
 edit/edit.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index fcfdcbd..4a2b499 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -947,12 +947,10 @@ func DictionaryDelete(dict *build.DictExpr, key string) (deleted build.Expr) {
 	deleted = nil
 	var all []*build.KeyValueExpr
 	for _, kv := range dict.List {
-		if k, ok := kv.Key.(*build.StringExpr); ok {
-			if k.Value == key {
-				deleted = kv
-			} else {
-				all = append(all, kv)
-			}
+		if k, ok := kv.Key.(*build.StringExpr); ok && k.Value == key {
+			deleted = kv
+		} else {
+			all = append(all, kv)
 		}
 	}
 	dict.List = all
-- 
2.43.0


From 68b8d965ca0e8d405c5a9e2f0c0abc0fae50e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 18/72] fix: do not overwrite the arguments of load commands,
 which are used for every target

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1b9c186..cfd89d6 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -283,7 +283,7 @@ func findInsertionIndex(env CmdEnvironment) (bool, int, error) {
 // splitLoadArgs splits arguments of form <[to=]from>
 // into a slice of froms and a slice of tos.
 func splitLoadArgs(args []string) ([]string, []string) {
-	from := args
+	from := append([]string{}, args...)
 	to := append([]string{}, args...)
 	for i := range from {
 		if s := strings.SplitN(from[i], "=", 2); len(s) == 2 {
-- 
2.43.0


From 5b16ad28bdf073f412a761a9f96b418553b7190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 19/72] fix: replace_load removes all the replaced symbols,
 also when they are next to each other

---
 edit/edit.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 4a2b499..f83c7bd 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1195,17 +1195,14 @@ func ReplaceLoad(stmts []build.Expr, location string, from, to []string) []build
 			continue
 		}
 
+		var remainingFrom, remainingTo []*build.Ident
 		for i, to := range load.To {
-			if toSymbols[to.Name] {
-				if i < len(load.From)-1 {
-					load.From = append(load.From[:i], load.From[i+1:]...)
-					load.To = append(load.To[:i], load.To[i+1:]...)
-				} else {
-					load.From = load.From[:i]
-					load.To = load.To[:i]
-				}
+			if !toSymbols[to.Name] {
+				remainingFrom = append(remainingFrom, load.From[i])
+				remainingTo = append(remainingTo, to)
 			}
 		}
+		load.From, load.To = remainingFrom, remainingTo
 
 		if len(load.To) > 0 {
 			all = append(all, load)
-- 
2.43.0


From 8f84099ecfb7dc4f9fed4ca108df6ab28b3a0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 20/72] fix: attach end-of-line comments to the whole
 attribute, as the parser does

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index cfd89d6..4ca5352 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -118,7 +118,7 @@ func cmdComment(opts *Options, env CmdEnvironment) (*build.File, error) {
 			if fullLine {
 				attr.LHS.Comment().Before = comment
 			} else {
-				attr.RHS.Comment().Suffix = comment
+				attr.Comments.Suffix = comment
 			}
 		}
 	case 3: // Attach to a specific value in a list
-- 
2.43.0


From 78ddfd4501e17dcea06bd78b052415fa48b30d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 21/72] fix: keep the comments of lists that are joined or
 removed

---
 edit/edit.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/edit/edit.go b/edit/edit.go
index f83c7bd..2a97c58 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -541,14 +541,20 @@ func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
 			y, yIsList := e.Y.(*build.ListExpr)
 
 			if xIsList && yIsList {
-				return &build.ListExpr{List: append(x.List, y.List...)}
+				return &build.ListExpr{
+					Comments: joinComments(e.Comments, x.Comments, y.Comments),
+					List:     append(x.List, y.List...),
+					End:      build.End{Comments: joinComments(x.End.Comments, y.End.Comments)},
+				}
 			}
 
 			if xIsList && len(x.List) == 0 {
+				*e.Y.Comment() = joinComments(e.Comments, x.Comments, x.End.Comments, *e.Y.Comment())
 				return e.Y
 			}
 
 			if yIsList && len(y.List) == 0 {
+				*e.X.Comment() = joinComments(e.Comments, *e.X.Comment(), y.Comments, y.End.Comments)
 				return e.X
 			}
 		}
@@ -574,6 +580,16 @@ func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
 	return e
 }
 
+// joinComments returns the comments of several nodes, which are to become one node.
+func joinComments(comments ...build.Comments) (result build.Comments) {
+	for _, c := range comments {
+		result.Before = append(result.Before, c.Before...)
+		result.Suffix = append(result.Suffix, c.Suffix...)
+		result.After = append(result.After, c.After...)
+	}
+	return result
+}
+
 // ComputeIntersection returns the intersection of the two lists given as parameters;
 // if the containing elements are not build.StringExpr, the result will be nil.
 func ComputeIntersection(list1, list2 []build.Expr) []build.Expr {
-- 
2.43.0


From 05a0c29d4fa810bf1b36beed99c2633f4b05133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 22/72] fix: collect the commands for one BUILD file under one
 path

---
 edit/buildozer.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 4ca5352..df71c47 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1274,22 +1274,38 @@ var EditFile = func(fi os.FileInfo, name string) error {
 // existing BUILD file paths which match the package.
 func targetExpressionToBuildFiles(rootDir string, target string) []string {
 	file, _, _, _ := InterpretLabelForWorkspaceLocation(rootDir, target)
-	if rootDir == "" {
-		var err error
-		if file, err = filepath.Abs(file); err != nil {
-			fmt.Printf("Cannot make path absolute: %s\n", err.Error())
-			os.Exit(1)
-		}
+	// The path identifies the file, no matter how the target has been written.
+	file, err := filepath.Abs(file)
+	if err != nil {
+		fmt.Printf("Cannot make path absolute: %s\n", err.Error())
+		os.Exit(1)
 	}
 
 	suffix := filepath.Join("", "...", "BUILD") // /.../BUILD
 	if !strings.HasSuffix(file, suffix) {
-		return []string{file}
+		return []string{effectiveBuildFile(file)}
 	}
 
 	return findBuildFiles(strings.TrimSuffix(file, suffix))
 }
 
+// effectiveBuildFile returns the BUILD file of the directory a given BUILD file is in, if there are
+// several of them, otherwise the file itself.
+func effectiveBuildFile(file string) string {
+	dir, base := filepath.Split(file)
+	for _, name := range BuildFileNames {
+		if base != name {
+			continue
+		}
+		for _, buildFileName := range BuildFileNames {
+			if buildFile := filepath.Join(dir, buildFileName); wspace.IsRegularFile(buildFile) {
+				return buildFile
+			}
+		}
+	}
+	return file
+}
+
 // Given a root directory, returns all "BUILD" files in that subtree recursively.
 func findBuildFiles(rootDir string) []string {
 	var buildFiles []string
@@ -1310,8 +1326,9 @@ func findBuildFiles(rootDir string) []string {
 				searchDirs = append(searchDirs, filepath.Join(dir, dirFile.Name()))
 			} else {
 				for _, buildFileName := range BuildFileNames {
-					if dirFile.Name() == buildFileName {
-						buildFiles = append(buildFiles, filepath.Join(dir, dirFile.Name()))
+					buildFile := filepath.Join(dir, dirFile.Name())
+					if dirFile.Name() == buildFileName && buildFile == effectiveBuildFile(buildFile) {
+						buildFiles = append(buildFiles, buildFile)
 					}
 				}
 			}
-- 
2.43.0


From 71163c0a2934476e88641ab99aba49d1fef70574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 23/72] fix: keep the package of a file when statements are
 removed from it

---
 edit/bzlmod/bzlmod.go |  4 +++-
 edit/edit.go          | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 4a3fc42..e37d570 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -115,7 +115,9 @@ func NewUseRepo(f *build.File, proxies []string) (*build.File, *build.CallExpr)
 	}
 	stmt := append(f.Stmt[:lastUsage+1], append([]build.Expr{useRepo}, f.Stmt[lastUsage+1:]...)...)
 
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: stmt, Type: build.TypeModule}, useRepo
+	file := *f
+	file.Stmt = stmt
+	return &file, useRepo
 }
 
 // AddRepoUsages adds the given repos to the given use_repo calls without introducing duplicate
diff --git a/edit/edit.go b/edit/edit.go
index 2a97c58..2e1d49e 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -173,6 +173,13 @@ func PackageDeclaration(f *build.File) *build.Rule {
 	return &build.Rule{Call: call, ImplicitName: ""}
 }
 
+// withStatements returns a copy of a file with other statements.
+func withStatements(f *build.File, stmts []build.Expr) *build.File {
+	file := *f
+	file.Stmt = stmts
+	return &file
+}
+
 // RemoveEmptyPackage removes empty package declarations from the file, i.e.:
 //
 //	package()
@@ -187,7 +194,7 @@ func RemoveEmptyPackage(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 func isEmptyPackage(expr build.Expr) bool {
@@ -221,7 +228,7 @@ func RemoveEmptyUseRepoCalls(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: build.TypeModule}
+	return withStatements(f, all)
 }
 
 func isEmptyUseRepoCall(expr build.Expr) bool {
@@ -348,7 +355,7 @@ func DeleteRule(f *build.File, rule *build.Rule) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // DeleteRuleByName returns the AST without the rules that have the
@@ -366,7 +373,7 @@ func DeleteRuleByName(f *build.File, name string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // DeleteRuleByKind removes the rules of the specified kind from the AST.
@@ -384,7 +391,7 @@ func DeleteRuleByKind(f *build.File, kind string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // AllLists returns all the lists concatenated in an expression.
-- 
2.43.0


From 9231b629ed783ef93937c2fbbcacf1c9f03ba80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 24/72] fix: the package of a file in the workspace root is the
 empty one

---
 edit/edit.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 2e1d49e..3327a9c 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -38,6 +38,14 @@ var (
 	DeleteWithComments = true
 )
 
+// parentPackage returns the package a file given by its path is in, the empty string if it's the root.
+func parentPackage(file string) string {
+	if dir := path.Dir(file); dir != "." {
+		return dir
+	}
+	return ""
+}
+
 // InterpretLabelForWorkspaceLocation returns the name of the BUILD file to
 // edit, the full package name, and the rule. It takes a workspace-rooted
 // directory to use.
@@ -63,7 +71,7 @@ func InterpretLabelForWorkspaceLocation(root, target string) (buildFile, repo, p
 		if wspace.IsRegularFile(pkgPath) {
 			// allow operation on other files like WORKSPACE
 			buildFile = pkgPath
-			pkg = path.Dir(pkg)
+			pkg = parentPackage(pkg)
 			return
 		}
 		for _, buildFileName := range BuildFileNames {
@@ -78,7 +86,7 @@ func InterpretLabelForWorkspaceLocation(root, target string) (buildFile, repo, p
 	if wspace.IsRegularFile(filepath.FromSlash(pkg)) {
 		// allow operation on other files like WORKSPACE
 		buildFile = pkg
-		pkg = filepath.Join(relativePath, filepath.FromSlash(path.Dir(pkg)))
+		pkg = filepath.Join(relativePath, filepath.FromSlash(parentPackage(pkg)))
 		return
 	}
 
-- 
2.43.0


From 897e297d49e65f42b613b044cc9a79b166bb5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 25/72] fix: apply all the commands of a line to the labels
 from the command line

---
 edit/buildozer.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index df71c47..393d015 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1402,19 +1402,18 @@ func appendCommandsFromReader(opts *Options, reader io.Reader, commandsByFile ma
 		}
 		line = saveEscapedPipes(line)
 		args := strings.Split(line, "|")
-		for i, arg := range args {
-			args[i] = replaceSavedPipes(arg)
-		}
-		if len(args) > 1 && args[1] == "*" {
-			cmd := append([]string{args[0]}, labels...)
-			if err := appendCommands(opts, commandsByFile, cmd); err != nil {
-				return err
-			}
-		} else {
-			if err := appendCommands(opts, commandsByFile, args); err != nil {
-				return err
+		var expandedArgs []string
+		for _, arg := range args {
+			if arg == "*" {
+				// Stands for the labels from the command line.
+				expandedArgs = append(expandedArgs, labels...)
+			} else {
+				expandedArgs = append(expandedArgs, replaceSavedPipes(arg))
 			}
 		}
+		if err := appendCommands(opts, commandsByFile, expandedArgs); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 2159277113648bfe643d4a0c7abe9b8ad0630539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 26/72] fix: recognize extension labels that start with //

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 393d015..74bd452 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -888,7 +888,7 @@ func cmdFormat(opts *Options, env CmdEnvironment) (*build.File, error) {
 func isExtensionLabel(arg string) bool {
 	// Labels referencing extensions are either absolute or repo-absolute. Repository names are not
 	// allowed to contain "@" or "/".
-	return strings.HasPrefix(arg, "@") || strings.HasSuffix(arg, "//")
+	return strings.HasPrefix(arg, "@") || strings.HasPrefix(arg, "//")
 }
 
 func cmdFix(opts *Options, env CmdEnvironment) (*build.File, error) {
-- 
2.43.0


From 77da7392ac2d25217d25f1b426789a4db26ae4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 27/72] fix: use_repo_add adds a repository that is given twice
 only once

---
 edit/bzlmod/bzlmod.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index e37d570..3216e4f 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -148,6 +148,7 @@ func AddRepoUsages(useRepos []*build.CallExpr, repos ...string) {
 		if _, ok := seen[repo]; ok {
 			continue
 		}
+		seen[repo] = struct{}{}
 		// Sorting of use_repo arguments is handled by Buildify.
 		// TODO: Add a keyword argument instead if repo is of the form "key=value".
 		lastUseRepo.List = append(lastUseRepo.List, &build.StringExpr{Value: repo})
-- 
2.43.0


From 24365e7ad6c470c2918b3876f4f6dd2afe49b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 28/72] fix: do not split options in the middle of a quoted
 string

---
 edit/fix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/fix.go b/edit/fix.go
index 1b91365..4d7af6e 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -62,7 +62,7 @@ func splitStrings(list *build.ListExpr) bool {
 			all = append(all, e)
 			continue
 		}
-		if strings.Contains(str.Value, " ") && !strings.Contains(str.Value, "'\"") && !strings.Contains(str.Value, "$(location") {
+		if strings.Contains(str.Value, " ") && !strings.ContainsAny(str.Value, "'\"") && !strings.Contains(str.Value, "$(location") {
 			fixed = true
 			for i, substr := range strings.Fields(str.Value) {
 				item := &build.StringExpr{Value: substr}
-- 
2.43.0


From 8e57abf16c2461cd77000e12b8ec1e38c4e36907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 29/72] fix: do not nest location functions when making
 heuristic labels explicit

---
 edit/fix.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index 4d7af6e..ccbf5b3 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -167,8 +167,9 @@ func explicitHeuristicLabels(s string, labels map[string]bool) string {
 	canChange := true
 	for i, part := range parts {
 		// We don't want to add $(location when it's already present.
-		// So we skip the next label when we see location(s).
-		if part == "location" || part == "locations" {
+		// So we skip the next label when we see location(s) or a similar function.
+		switch part {
+		case "location", "locations", "execpath", "execpaths", "rootpath", "rootpaths", "rlocationpath", "rlocationpaths":
 			canChange = false
 		}
 		if !labels[part] {
-- 
2.43.0


From e71f6e3a2160a2e5e1c440a28d3b1314e25aa4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 30/72] fix: symbols in type annotations are used

---
 edit/fix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edit/fix.go b/edit/fix.go
index ccbf5b3..07a2f68 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -349,6 +349,7 @@ func usePlusEqual(f *build.File) bool {
 // statements when the list is empty.
 func cleanUnusedLoads(f *build.File) bool {
 	symbols := UsedSymbols(f)
+	types := UsedTypes(f)
 	fixed := false
 
 	// Map of symbol in this file -> modules it's loaded from
@@ -365,7 +366,7 @@ func cleanUnusedLoads(f *build.File) bool {
 		for i := range load.From {
 			fromSymbol := load.From[i]
 			toSymbol := load.To[i]
-			if symbols[toSymbol.Name] {
+			if symbols[toSymbol.Name] || types[toSymbol.Name] {
 				// The symbol is actually used
 
 				// If the most recent load for this symbol was from the same file, remove it.
-- 
2.43.0


From a0f51c76ad9c8608c84add3eace1377364bc2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 31/72] fix: keep the comments of lists when merging their
 concatenation

---
 edit/fix.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edit/fix.go b/edit/fix.go
index 07a2f68..4a6ca67 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -292,7 +292,13 @@ func evaluateListConcatenation(expr build.Expr) build.Expr {
 		return expr
 	}
 	res := *li1
-	res.List = append(li1.List, li2.List...)
+	res.List = append(append([]build.Expr{}, li1.List...), li2.List...)
+	// Keep the comments of both lists and of the concatenation itself.
+	res.Comments.Before = append(append(append([]build.Comment{}, bin.Before...), li1.Before...), li2.Before...)
+	res.Comments.Suffix = append(append([]build.Comment{}, bin.Suffix...), li1.Suffix...)
+	res.Comments.Suffix = append(res.Comments.Suffix, li2.Suffix...)
+	res.End.Before = append(append([]build.Comment{}, li1.End.Before...), li2.End.Before...)
+	res.End.Suffix = append(append([]build.Comment{}, li1.End.Suffix...), li2.End.Suffix...)
 	return &res
 }
 
-- 
2.43.0


From cc223ffe3b6c8e640efc61a5de3af7a364aef445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 32/72] fix: reject signs in hexadecimal escape sequences

---
 build/quote.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/quote.go b/build/quote.go
index 03bcdb6..f14fe27 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -183,7 +183,7 @@ func Unquote(quoted string) (s string, triple bool, err error) {
 				err = fmt.Errorf(`truncated escape sequence %s`, quoted)
 				return
 			}
-			n, err1 := strconv.ParseInt(quoted[2:6], 16, 0)
+			n, err1 := strconv.ParseUint(quoted[2:6], 16, 64)
 			if err1 != nil {
 				err = fmt.Errorf(`invalid escape sequence %s`, quoted[:6])
 				return
@@ -201,7 +201,7 @@ func Unquote(quoted string) (s string, triple bool, err error) {
 				err = fmt.Errorf(`truncated escape sequence %s`, quoted)
 				return
 			}
-			n, err1 := strconv.ParseInt(quoted[2:10], 16, 0)
+			n, err1 := strconv.ParseUint(quoted[2:10], 16, 64)
 			if err1 != nil {
 				err = fmt.Errorf(`invalid escape sequence %s`, quoted[:10])
 				return
@@ -223,7 +223,7 @@ func Unquote(quoted string) (s string, triple bool, err error) {
 				err = fmt.Errorf(`truncated escape sequence %s`, quoted)
 				return
 			}
-			n, err1 := strconv.ParseInt(quoted[2:4], 16, 0)
+			n, err1 := strconv.ParseUint(quoted[2:4], 16, 64)
 			if err1 != nil {
 				err = fmt.Errorf(`invalid escape sequence %s`, quoted[:4])
 				return
-- 
2.43.0


From 82c6e5b99d27784f09ae09341fb4513984b0f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 33/72] fix: do not panic on a backslash before a non-Latin-1
 character

---
 build/quote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/quote.go b/build/quote.go
index f14fe27..cc8c83b 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -251,7 +251,7 @@ func IsCorrectEscaping(value string) bool {
 			continue
 		}
 
-		if ok := escapable[ch]; !ok {
+		if ch >= rune(len(escapable)) || !escapable[ch] {
 			return false
 		}
 		escaped = false
-- 
2.43.0


From 3038492c2b07795cf409821a60103438e7235946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 34/72] fix: read all augmented assignments as assignments

---
 build/parse.y    | 2 +-
 build/parse.y.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index fd3aff3..e89b715 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -1077,7 +1077,7 @@ func binary(x Expr, pos Position, op string, y Expr) Expr {
 	ystart, _ := y.Span()
 
 	switch op {
-	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=":
+	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>=":
 		return &AssignExpr{
 			LHS:       x,
 			OpPos:     pos,
diff --git a/build/parse.y.go b/build/parse.y.go
index c74b3d3..f3f67be 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -167,7 +167,7 @@ func binary(x Expr, pos Position, op string, y Expr) Expr {
 	ystart, _ := y.Span()
 
 	switch op {
-	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=":
+	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>=":
 		return &AssignExpr{
 			LHS:       x,
 			OpPos:     pos,
-- 
2.43.0


From c2a53863b71cc3b3dfddd7ff24e40ea33542362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 35/72] fix: indent the docstring that is printed, not the one
 with other quotes

---
 build/print.go   | 67 +++++++++++++++++++++++++-----------------------
 build/rewrite.go |  5 ++--
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/build/print.go b/build/print.go
index b617227..8b86578 100644
--- a/build/print.go
+++ b/build/print.go
@@ -575,6 +575,40 @@ var opPrec = map[string]int{
 	">>":     precBitwiseShift,
 }
 
+// stringToken returns the string literal that is printed for the given expression.
+func stringToken(v *StringExpr) string {
+	// If the Token is a correct quoting of Value and has double quotes, use it,
+	// also use it if it has single quotes and the value itself contains a double quote symbol
+	// or if it's a raw string literal (starts with "r").
+	// This preserves the specific escaping choices that BUILD authors have made.
+	s, triple, err := Unquote(v.Token)
+	if err == nil && s == v.Value && triple == v.TripleQuote {
+		if strings.HasPrefix(v.Token, `r`) {
+			// Raw string literal
+			token := v.Token
+			if strings.HasSuffix(v.Token, `'`) && !strings.ContainsRune(v.Value, '"') {
+				// Single quotes but no double quotes inside the string, replace with double quotes
+				if strings.HasSuffix(token, `'''`) {
+					token = `r"""` + token[4:len(token)-3] + `"""`
+				} else if strings.HasSuffix(token, `'`) {
+					token = `r"` + token[2:len(token)-1] + `"`
+				}
+			}
+			return token
+		}
+
+		// Non-raw string literal
+		if strings.HasPrefix(v.Token, `"`) || strings.ContainsRune(v.Value, '"') {
+			// Either double quoted or there are double-quotes inside the string
+			if IsCorrectEscaping(v.Token) {
+				return v.Token
+			}
+		}
+	}
+
+	return quote(v.Value, v.TripleQuote)
+}
+
 // expr prints the expression v to the print buffer.
 // The value outerPrec gives the precedence of the operator
 // outside expr. If that operator binds tighter than v's operator,
@@ -648,38 +682,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("%s", v.Token)
 
 	case *StringExpr:
-		// If the Token is a correct quoting of Value and has double quotes, use it,
-		// also use it if it has single quotes and the value itself contains a double quote symbol
-		// or if it's a raw string literal (starts with "r").
-		// This preserves the specific escaping choices that BUILD authors have made.
-		s, triple, err := Unquote(v.Token)
-		if err == nil && s == v.Value && triple == v.TripleQuote {
-			if strings.HasPrefix(v.Token, `r`) {
-				// Raw string literal
-				token := v.Token
-				if strings.HasSuffix(v.Token, `'`) && !strings.ContainsRune(v.Value, '"') {
-					// Single quotes but no double quotes inside the string, replace with double quotes
-					if strings.HasSuffix(token, `'''`) {
-						token = `r"""` + token[4:len(token)-3] + `"""`
-					} else if strings.HasSuffix(token, `'`) {
-						token = `r"` + token[2:len(token)-1] + `"`
-					}
-				}
-				p.printf("%s", token)
-				break
-			}
-
-			// Non-raw string literal
-			if strings.HasPrefix(v.Token, `"`) || strings.ContainsRune(v.Value, '"') {
-				// Either double quoted or there are double-quotes inside the string
-				if IsCorrectEscaping(v.Token) {
-					p.printf("%s", v.Token)
-					break
-				}
-			}
-		}
-
-		p.printf("%s", quote(v.Value, v.TripleQuote))
+		p.printf("%s", stringToken(v))
 
 	case *DotExpr:
 		addParen(precSuffix)
diff --git a/build/rewrite.go b/build/rewrite.go
index ccf3cdc..b1ca771 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1341,8 +1341,9 @@ func formatDocstrings(f *File, _ *Rewriter) {
 		newIndentation := nestedIndentation * len(stk)
 
 		// Operate on Token, not Value, because their line breaks can be different if a line ends with
-		// a backslash.
-		updatedToken := formatString(docstring.Token, oldIndentation, newIndentation)
+		// a backslash. Use the token that will be printed, it has other line breaks than the original
+		// one if the literal needs to be quoted anew.
+		updatedToken := formatString(stringToken(docstring), oldIndentation, newIndentation)
 		if updatedToken != docstring.Token {
 			docstring.Token = updatedToken
 			// Update the value to keep it consistent with Token
-- 
2.43.0


From 98b2a192dcf35957c8b113d22c7eb42b94461693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 36/72] fix: put operands with line comments in parentheses

---
 build/print.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/build/print.go b/build/print.go
index 8b86578..c08273c 100644
--- a/build/print.go
+++ b/build/print.go
@@ -792,7 +792,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		} else {
 			p.printf(" ")
 		}
-		p.expr(v.Y, prec+1)
+		p.operand(v.Y, prec+1)
 		p.margin = m
 
 	case *AssignExpr:
@@ -809,7 +809,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		} else {
 			p.printf(" ")
 		}
-		p.expr(v.RHS, precAssign+1)
+		p.operand(v.RHS, precAssign+1)
 		p.margin = m
 
 	case *ParenExpr:
@@ -883,9 +883,9 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		addParen(precSuffix)
 		p.expr(v.Then, precIfElse)
 		p.printf(" if ")
-		p.expr(v.Test, precIfElse)
+		p.operand(v.Test, precIfElse)
 		p.printf(" else ")
-		p.expr(v.Else, precIfElse)
+		p.operand(v.Else, precIfElse)
 
 	case *ReturnStmt:
 		p.printf("return")
@@ -909,7 +909,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("for ")
 		p.expr(v.Vars, precLow)
 		p.printf(" in ")
-		p.expr(v.X, precLow)
+		p.operand(v.X, precLow)
 		p.printf(":")
 		p.nestedStatements(v.Body)
 
@@ -1065,6 +1065,16 @@ func (p *printer) useCompactMode(start *Position, list *[]Expr, end *End, mode s
 	return len(*list) <= 1
 }
 
+// operand prints an expression that follows other text on the same line. If there are line comments
+// before it, it's only possible to break the line inside brackets.
+func (p *printer) operand(v Expr, outerPrec int) {
+	if p.depth > 0 || len(v.Comment().Before) == 0 {
+		p.expr(v, outerPrec)
+		return
+	}
+	p.seq("()", nil, &[]Expr{v}, nil, modeParen, false, true)
+}
+
 // hasInnerComments reports whether any of the expressions has comments.
 func hasInnerComments(list []Expr) bool {
 	for _, x := range list {
-- 
2.43.0


From 354b167b557bc490135e13ede873018200a3f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 37/72] fix: break the lines of implicit tuples with
 backslashes

---
 build/print.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/build/print.go b/build/print.go
index c08273c..db9bbc1 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1103,14 +1103,12 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 
 	if mode != modeSeq {
 		p.printf("%s", brack[:1])
-	}
-	p.depth++
-	defer func() {
-		p.depth--
-		if mode != modeSeq {
+		p.depth++
+		defer func() {
+			p.depth--
 			p.printf("%s", brack[1:])
-		}
-	}()
+		}()
+	}
 
 	if p.useCompactMode(start, args, end, mode, forceCompact, forceMultiLine) {
 		for i, x := range *args {
-- 
2.43.0


From 2dec703b04100007242f5714fd0ea23e486c904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 38/72] fix: accept comments between the one-line body of an if
 statement and its else

---
 build/lex.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/build/lex.go b/build/lex.go
index 30639ea..26b8630 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -329,6 +329,31 @@ func (in *input) peekToken() []byte {
 	return in.token[:len(in.token)-len(in.remaining)]
 }
 
+// precedesElse reports whether the next line that is neither blank nor a comment continues an if
+// statement with a one-line body. Such a line has the current indentation, as the one-line body
+// doesn't start a new indentation block.
+func (in *input) precedesElse() bool {
+	for rest := in.remaining; len(rest) > 0; {
+		line := rest
+		if i := bytes.IndexByte(rest, '\n'); i >= 0 {
+			line, rest = rest[:i], rest[i+1:]
+		} else {
+			rest = nil
+		}
+		text := bytes.TrimSpace(line)
+		if len(text) == 0 || text[0] == '#' {
+			continue
+		}
+		word := text
+		if i := bytes.IndexFunc(text, func(r rune) bool { return !isIdent(int(r)) }); i >= 0 {
+			word = text[:i]
+		}
+		indent := len(line) - len(bytes.TrimLeft(line, " "))
+		return indent == in.currentIndent() && (string(word) == "else" || string(word) == "elif")
+	}
+	return false
+}
+
 // Lex is called from the generated parser to obtain the next input token.
 // It returns the token value (either a rune like '+' or a symbolic token _FOR)
 // and sets val to the data associated with the token.
@@ -405,7 +430,7 @@ func (in *input) Lex(val *yySymType) int {
 			// If we are at top level (not in a rule), hand the comment to
 			// the parser as a _COMMENT token. The grammar is written
 			// to handle top-level comments itself.
-			if in.depth == 0 && isLineComment {
+			if in.depth == 0 && isLineComment && !in.precedesElse() {
 				// Not in a statement. Tell parser about top-level comment.
 				return _COMMENT
 			}
-- 
2.43.0


From 8f8b700e2be5887542d8188d0ad62e459a87c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 39/72] fix: do not take a sign after a hexadecimal number for
 that of an exponent

---
 build/lex.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index 26b8630..cfed565 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -651,8 +651,9 @@ func (in *input) Lex(val *yySymType) int {
 		if !isIdent(c) {
 			if c == '+' || c == '-' {
 				t := in.peekToken()
-				// Parse 12.3e-4 and 12.3E+4 as a single token.
-				if !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E')) {
+				// Parse 12.3e-4 and 12.3E+4 as a single token, but not 0x3e-4.
+				isHex := len(t) > 1 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')
+				if !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E') && !isHex) {
 					break
 				}
 			} else {
-- 
2.43.0


From 5bfe7f6b2abace7fd23e3c3331f70037a4f53a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 40/72] fix: comments are not unreachable statements

---
 warn/warn_control_flow.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 19206a2..8724498 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -118,6 +118,10 @@ func findUnreachableStatements(stmts []build.Expr, callback func(build.Expr)) bo
 	unreachable := false
 	for _, stmt := range stmts {
 		if unreachable {
+			if _, ok := stmt.(*build.CommentBlock); ok {
+				// Comments aren't executed.
+				continue
+			}
 			callback(stmt)
 			return true
 		}
-- 
2.43.0


From d5a647fdfdaea20b3f0d1a3f26d9ecfc21bab197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 41/72] fix: scopes of comprehensions and lambdas

---
 warn/warn_control_flow.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 8724498..eaab830 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -251,6 +251,9 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 	// Local scopes for comprehensions
 	scopes := make(map[build.Expr]map[string]bool)
 
+	// Expressions inside nodes with local scopes that are evaluated outside of them
+	outerNodes := make(map[build.Expr]build.Expr)
+
 	// Nodes that are excluded from traversal
 	blockedNodes := make(map[build.Expr]bool)
 
@@ -348,12 +351,16 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 			// the usage of variables with the same name outside the comprehension
 			// scope.
 			scope := make(map[string]bool)
-			for _, clause := range expr.Clauses {
+			for i, clause := range expr.Clauses {
 				forClause, ok := clause.(*build.ForClause)
 				if !ok {
 					// if-clause
 					continue
 				}
+				if i == 0 {
+					// The first iterable is evaluated in the outer scope.
+					outerNodes[forClause.X] = expr
+				}
 				for _, lValue := range bzlenv.CollectLValues(forClause.Vars) {
 					scope[lValue.Name] = true
 				}
@@ -364,16 +371,24 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 			// Similar to Comprehension nodes
 			scope := make(map[string]bool)
 			for _, param := range expr.Params {
-				for _, lValue := range bzlenv.CollectLValues(param) {
-					scope[lValue.Name] = true
+				if ident, _ := build.GetParamIdent(param); ident != nil {
+					scope[ident.Name] = true
+				}
+				if assign, ok := param.(*build.AssignExpr); ok {
+					// Default values are evaluated in the outer scope.
+					outerNodes[assign.RHS] = expr
 				}
 			}
 			scopes[expr] = scope
 
 		case *build.Ident:
 			// If the identifier is defined in an intermediate scope, ignore it.
+			outerOf := map[build.Expr]bool{outerNodes[expr]: true}
+			for _, node := range stack {
+				outerOf[outerNodes[node]] = true
+			}
 			for _, node := range stack {
-				if scope, ok := scopes[node]; ok {
+				if scope, ok := scopes[node]; ok && !outerOf[node] {
 					if _, ok := scope[expr.Name]; ok {
 						return
 					}
-- 
2.43.0


From c6804205a9f74b118d17637fc23b5951569c601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 42/72] fix: default values of parameters are evaluated in the
 outer scope

---
 warn/warn_control_flow.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index eaab830..aa3d5b1 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -426,6 +426,9 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 	// Symbols that are used in the current and inner scopes
 	usedSymbols := make(map[string]bool)
 
+	// Symbols that are used by the default values of the parameters, i.e. in the outer scope
+	usedInDefaults := make(map[string]bool)
+
 	// Symbols for which the warning should be suppressed
 	suppressedWarnings := make(map[string]bool)
 
@@ -470,8 +473,7 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 						suppressedWarnings[ident.Name] = true
 					}
 				}
-				// The default variables for the parameters are defined in the outer
-				// scope but used here.
+				// The default values of the parameters are evaluated in the outer scope.
 				assign, ok := param.(*build.AssignExpr)
 				if !ok {
 					continue
@@ -482,7 +484,7 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 				// a function call with a keyword parameter.
 				_, used := extractIdentsFromStmt(assign.RHS)
 				for ident := range used {
-					usedSymbols[ident.Name] = true
+					usedInDefaults[ident.Name] = true
 				}
 			}
 
@@ -526,6 +528,9 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 		}
 		usedSymbolsFromOuterScope[symbol] = true
 	}
+	for symbol := range usedInDefaults {
+		usedSymbolsFromOuterScope[symbol] = true
+	}
 
 	// Top-level variables defined in .bzl or generic Starlark files
 	// can be imported from elsewhere, even if not used in the current file.
-- 
2.43.0


From 39ae865822268f7913596f0aece56acff77cac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 43/72] fix: unused load compares labels by value, not by their
 quotes

---
 warn/warn_control_flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index aa3d5b1..265c2c7 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -642,11 +642,11 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 			loaded[to.Name] = struct {
 				label, from string
 				line        int
-			}{load.Module.Token, from.Name, start.Line}
+			}{load.Module.Value, from.Name, start.Line}
 
 			if alreadyLoaded {
 				// The same symbol has already been loaded earlier
-				if origin.label == load.Module.Token && origin.from == from.Name {
+				if origin.label == load.Module.Value && origin.from == from.Name {
 					// Only fix if it's loaded from the same label and variable
 					load.To = append(load.To[:i], load.To[i+1:]...)
 					load.From = append(load.From[:i], load.From[i+1:]...)
-- 
2.43.0


From 6de5601f776e07fab9f0533df26801ef31095bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 44/72] fix: keyword arguments in default values of nested
 functions are no uses

---
 warn/warn_control_flow.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 265c2c7..723a1f6 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -757,7 +757,11 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 		// Collect lValues, they shouldn't be taken into account
 		// For example, if the expression is `a = foo(b = c)`, only `c` can be an uninitialized variable here.
 		lValues := make(map[*build.Ident]bool)
+		walkBlockList := map[build.Expr]bool{}
 		build.WalkInterruptable(expr, func(expr build.Expr, stack []build.Expr) (err error) {
+			if walkBlockList[expr] {
+				return &build.StopTraversalError{}
+			}
 			switch expr := expr.(type) {
 			case *build.DefStmt:
 				// Function arguments can't be uninitialized, even if they share the same
@@ -768,8 +772,11 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 						lValues[ident] = true
 					}
 				}
-				// Don't traverse into nested def statements
-				return &build.StopTraversalError{}
+				// Don't traverse the body of nested def statements, only the default values
+				// of their parameters.
+				for _, stmt := range expr.Body {
+					walkBlockList[stmt] = true
+				}
 			case *build.AssignExpr:
 				for _, ident := range bzlenv.CollectLValues(expr.LHS) {
 					lValues[ident] = true
@@ -785,7 +792,6 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 			}
 		}
 
-		walkBlockList := map[build.Expr]bool{}
 		build.WalkInterruptable(expr, func(expr build.Expr, stack []build.Expr) (err error) {
 			if walkBlockList[expr] {
 				return &build.StopTraversalError{}
@@ -795,10 +801,8 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 				// The header of the DefStmt may contain uninitialized variables (e.g.
 				// default values of parameters) and should be traversed.
 				// Its body shouldn't be traversed because it has another scope and will
-				// be analyzed by another call of `findUninitializedVariables`.
-				for _, stmt := range expr.Body {
-					walkBlockList[stmt] = true
-				}
+				// be analyzed by another call of `findUninitializedVariables`. The statements
+				// of the body are blocked above.
 			case *build.Comprehension, *build.LambdaExpr:
 				// Comprehension and Lambda nodes are special, they have their own scope
 				// with variables that are only defined inside.
-- 
2.43.0


From 1958007d48d2537f2ffc7dbe7eb7f2615553751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 45/72] fix: augmented assignments read their variable

---
 warn/warn_control_flow.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 723a1f6..a1d57a6 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -778,6 +778,10 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 					walkBlockList[stmt] = true
 				}
 			case *build.AssignExpr:
+				if expr.Op != "=" {
+					// Augmented assignments read the variable before they assign to it.
+					return
+				}
 				for _, ident := range bzlenv.CollectLValues(expr.LHS) {
 					lValues[ident] = true
 				}
-- 
2.43.0


From f941f21ff05403982e8503a45ec22da2f6f85ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 46/72] fix: uninitialized warning looks at the arguments of
 fail

---
 warn/warn_control_flow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index a1d57a6..66413e7 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -836,6 +836,7 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 			// Don't traverse nested functions
 		case *build.CallExpr:
 			if _, ok := isFunctionCall(stmt, "fail"); ok {
+				findUninitializedIdents(stmt, callback)
 				return true, locallyInitialized
 			}
 		case *build.ReturnStmt:
-- 
2.43.0


From 299105d3fc7635a407cde3552d01593cd87c6886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 47/72] fix: uninitialized warning looks at the targets of for
 loops

---
 warn/warn_control_flow.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 66413e7..3406c31 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -859,9 +859,17 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 			for name := range initialized {
 				initializedInLoop[name] = true
 			}
+			loopVars := make(map[*build.Ident]bool)
 			for _, ident := range bzlenv.CollectLValues(stmt.Vars) {
 				initializedInLoop[ident.Name] = true
+				loopVars[ident] = true
 			}
+			// Loop variables may be parts of other variables, e.g. `for x[i] in y`.
+			findUninitializedIdents(stmt.Vars, func(ident *build.Ident) {
+				if !loopVars[ident] {
+					callback(ident)
+				}
+			})
 			findUninitializedVariables(stmt.Body, initializedInLoop, callback)
 			continue
 		case *build.IfStmt:
-- 
2.43.0


From 78820a8394e9fdb7535800781ef74475b7fe9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:42 +0000
Subject: [PATCH 48/72] fix: disabling a warning doesn't disable warnings whose
 names begin alike

---
 warn/warn.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 65b7882..f67ddea 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -22,9 +22,9 @@ import (
 	"log"
 	"os"
 	"sort"
+	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
-	"github.com/bazelbuild/buildtools/edit"
 )
 
 // LintMode is an enum representing a linter mode. Can be either "warn", "fix", or "suggest"
@@ -310,8 +310,32 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
 func HasDisablingComment(expr build.Expr, warning string) bool {
-	return edit.ContainsComments(expr, "buildifier: disable="+warning) ||
-		edit.ContainsComments(expr, "buildozer: disable="+warning)
+	comments := expr.Comment()
+	for _, block := range [][]build.Comment{comments.Before, comments.Suffix, comments.After} {
+		for _, comment := range block {
+			if disablesWarning(comment.Token, "buildifier: disable="+warning) ||
+				disablesWarning(comment.Token, "buildozer: disable="+warning) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// disablesWarning checks if a comment contains a directive (case insensitive) that isn't just the
+// beginning of a directive for another warning with a longer name.
+func disablesWarning(comment, directive string) bool {
+	comment, directive = strings.ToLower(comment), strings.ToLower(directive)
+	for {
+		i := strings.Index(comment, directive)
+		if i < 0 {
+			return false
+		}
+		comment = comment[i+len(directive):]
+		if comment == "" || !strings.ContainsRune("abcdefghijklmnopqrstuvwxyz0123456789-_", rune(comment[0])) {
+			return true
+		}
+	}
 }
 
 // DisabledWarning checks if the warning was disabled by a comment.
-- 
2.43.0


From f40682294329060070d7b4ef1650d4e85daebb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:42 +0000
Subject: [PATCH 49/72] fix: don't remove loaded symbols whose warning is
 disabled

---
 warn/warn_control_flow.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 3406c31..f26b4f7 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -610,6 +610,13 @@ Consider using a new variable instead.`, left.Name)))
 	return findings
 }
 
+// loadWarningDisabled checks if the warning for a loaded symbol is disabled by a comment. Such symbols
+// shouldn't be removed together with the other symbols of the same load statement.
+func loadWarningDisabled(f *build.File, symbol *build.Ident) bool {
+	start, _ := symbol.Span()
+	return DisabledWarning(f, start.Line, "load")
+}
+
 func unusedLoadWarning(f *build.File) []*LinterFinding {
 	findings := []*LinterFinding{}
 	loaded := make(map[string]struct {
@@ -647,6 +654,9 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 			if alreadyLoaded {
 				// The same symbol has already been loaded earlier
 				if origin.label == load.Module.Value && origin.from == from.Name {
+					if loadWarningDisabled(f, to) {
+						continue
+					}
 					// Only fix if it's loaded from the same label and variable
 					load.To = append(load.To[:i], load.To[i+1:]...)
 					load.From = append(load.From[:i], load.From[i+1:]...)
@@ -665,7 +675,7 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 				// Fallback to verify if the symbol is used as a type.
 				_, ok = types[to.Name]
 			}
-			if !ok && !edit.ContainsComments(originalLoad, "@unused") && !edit.ContainsComments(to, "@unused") && !edit.ContainsComments(from, "@unused") {
+			if !ok && !edit.ContainsComments(originalLoad, "@unused") && !edit.ContainsComments(to, "@unused") && !edit.ContainsComments(from, "@unused") && !loadWarningDisabled(f, to) {
 				// The loaded symbol is not used and is not protected by a special "@unused" comment
 				load.To = append(load.To[:i], load.To[i+1:]...)
 				load.From = append(load.From[:i], load.From[i+1:]...)
-- 
2.43.0


From 8447b1e103be8383099b4e9980f202d2db84533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 50/72] fix: negating an identifier in attr-non-empty fixes

---
 warn/warn_bazel_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 61de4e6..39a736d 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -52,7 +52,7 @@ func negateExpression(expr build.Expr) build.Expr {
 	}
 
 	boolean, ok := expr.(*build.Ident)
-	if ok {
+	if ok && (boolean.Name == "True" || boolean.Name == "False") {
 		newBoolean := *boolean
 		if boolean.Name == "True" {
 			newBoolean.Name = "False"
-- 
2.43.0


From e255909195d3a5d495c336a5659a72e76f0395ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 51/72] fix: parenthesize conditional expressions and lambdas
 in fixes

---
 warn/warn_bazel_api.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 39a736d..4418ccf 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -64,10 +64,20 @@ func negateExpression(expr build.Expr) build.Expr {
 
 	return &build.UnaryExpr{
 		Op: "not",
-		X:  expr,
+		X:  parenthesize(expr),
 	}
 }
 
+// parenthesize adds parentheses to expressions that can't be operands without them and for which
+// the printer doesn't add them.
+func parenthesize(expr build.Expr) build.Expr {
+	switch expr.(type) {
+	case *build.ConditionalExpr, *build.LambdaExpr:
+		return &build.ParenExpr{X: expr}
+	}
+	return expr
+}
+
 // getParam search for a param with a given name in a given list of function arguments
 // and returns it with its index
 func getParam(attrs []build.Expr, paramName string) (int, *build.Ident, *build.AssignExpr) {
@@ -879,7 +889,7 @@ func contextArgsAPIWarning(f *build.File) []*LinterFinding {
 
 				replacements = append(replacements, LinterReplacement{&beforeEach.LHS, &newBeforeEachKw})
 				replacements = append(replacements, LinterReplacement{&beforeEach.RHS, &build.BinaryExpr{
-					X:  beforeEach.RHS,
+					X:  parenthesize(beforeEach.RHS),
 					Op: "+",
 					Y:  &build.StringExpr{Value: "%s"},
 				}})
-- 
2.43.0


From 723354160e719b2701475eb0884b148bd148cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 52/72] fix: looking for attr-cfg warnings changes the file

---
 warn/warn_bazel_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 4418ccf..f86a0fc 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -405,7 +405,7 @@ func attrConfigurationWarning(f *build.File) []*LinterFinding {
 		newCall := *call
 		switch value.Value {
 		case "data":
-			newCall.List = append(newCall.List[:i], newCall.List[i+1:]...)
+			newCall.List = append(append([]build.Expr{}, call.List[:i]...), call.List[i+1:]...)
 			findings = append(findings,
 				makeLinterFinding(param, `cfg = "data" for attr definitions has no effect and should be removed.`,
 					LinterReplacement{expr, &newCall}))
-- 
2.43.0


From 6acdc096fa9362921cc66c1863c925430b9a8261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 53/72] fix: fixing nested attributes with single_file

---
 warn/warn_bazel_api.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index f86a0fc..2c33fb9 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -535,6 +535,9 @@ func attrSingleFileWarning(f *build.File) []*LinterFinding {
 
 		newSingleFileKw := *singleFileKw
 		newSingleFileKw.Name = "allow_single_file"
+		newParam := *singleFileParam
+		newParam.LHS = &newSingleFileKw
+		newCall.List[singleFileIndex] = &newParam
 		singleFileValue := singleFileParam.RHS
 
 		if boolean, ok := singleFileValue.(*build.Ident); ok && boolean.Name == "False" {
@@ -544,18 +547,13 @@ func attrSingleFileWarning(f *build.File) []*LinterFinding {
 			// search for `allow_files` parameter in the same attr definition and remove it
 			allowFileIndex, _, allowFilesParam := getParam(call.List, "allow_files")
 			if allowFilesParam != nil {
-				singleFileValue = allowFilesParam.RHS
+				newParam.RHS = allowFilesParam.RHS
 				newCall.List = append(newCall.List[:allowFileIndex], newCall.List[allowFileIndex+1:]...)
-				if singleFileIndex > allowFileIndex {
-					singleFileIndex--
-				}
 			}
 		}
 		findings = append(findings,
 			makeLinterFinding(singleFileParam, "single_file is deprecated in favor of allow_single_file.",
 				LinterReplacement{expr, &newCall},
-				LinterReplacement{&singleFileParam.LHS, &newSingleFileKw},
-				LinterReplacement{&singleFileParam.RHS, singleFileValue},
 			))
 	})
 	return findings
-- 
2.43.0


From 3125a84ee0372f15d194cb47bbecc2ac88d2ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 54/72] fix: load statements share symbols with their
 replacements

---
 warn/warn_bazel_api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 2c33fb9..8b3375e 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -157,6 +157,8 @@ func insertLoad(f *build.File, module string, symbols []string) *LinterReplaceme
 
 		// Modify an existing load statement
 		newLoad := *load
+		newLoad.From = append([]*build.Ident{}, load.From...)
+		newLoad.To = append([]*build.Ident{}, load.To...)
 		if !edit.AppendToLoad(&newLoad, symbols, symbols) {
 			return nil
 		}
-- 
2.43.0


From fc87e0447a44a3d7ce015e75f7bd6efe05238c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 55/72] fix: loads and keyword names are no usages of global
 symbols

---
 warn/warn_bazel_api.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 8b3375e..bd7d418 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -107,6 +107,26 @@ func isFunctionCall(expr build.Expr, name string) (*build.CallExpr, bool) {
 	return nil, false
 }
 
+// walkUsages is a wrapper for bzlenv.WalkOnceWithEnvironment which skips identifiers that aren't
+// usages of names: parts of load statements and names of keyword arguments.
+func walkUsages(node build.Expr, env *bzlenv.Environment, fct func(e *build.Expr, env *bzlenv.Environment)) {
+	switch node := node.(type) {
+	case *build.LoadStmt:
+		return
+	case *build.CallExpr:
+		fct(&node.X, env)
+		for i := range node.List {
+			if as, ok := node.List[i].(*build.AssignExpr); ok {
+				fct(&as.RHS, env)
+			} else {
+				fct(&node.List[i], env)
+			}
+		}
+	default:
+		bzlenv.WalkOnceWithEnvironment(node, env, fct)
+	}
+}
+
 // globalVariableUsageCheck checks whether there's a usage of a given global variable in the file.
 // It's ok to shadow the name with a local variable and use it.
 func globalVariableUsageCheck(f *build.File, global, alternative string) []*LinterFinding {
@@ -118,7 +138,7 @@ func globalVariableUsageCheck(f *build.File, global, alternative string) []*Lint
 
 	var walk func(e *build.Expr, env *bzlenv.Environment)
 	walk = func(e *build.Expr, env *bzlenv.Environment) {
-		defer bzlenv.WalkOnceWithEnvironment(*e, env, walk)
+		defer walkUsages(*e, env, walk)
 
 		ident, ok := (*e).(*build.Ident)
 		if !ok {
@@ -293,7 +313,7 @@ func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbo
 
 	var walk func(expr *build.Expr, env *bzlenv.Environment)
 	walk = func(expr *build.Expr, env *bzlenv.Environment) {
-		defer bzlenv.WalkOnceWithEnvironment(*expr, env, walk)
+		defer walkUsages(*expr, env, walk)
 
 		functionLoads, functionFindings := notLoadedFunctionUsageCheckInternal(expr, env, functions, loadFrom, fileReader)
 		findings = append(findings, functionFindings...)
-- 
2.43.0


From 808e3b23c01e106e1a72307ddd3144b1392a3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 56/72] fix: replacements of not loaded functions respect the
 scope and the inserted load

---
 warn/warn_bazel_api.go | 72 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 13 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index bd7d418..f7a0604 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -235,7 +235,30 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 	return l.Format()
 }
 
-func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment, globals []string, loadFrom string, fileReader *FileReader) ([]string, []*LinterFinding) {
+// isLoadedFrom checks whether a binding is a symbol loaded from a given module under its own name.
+func isLoadedFrom(env *bzlenv.Environment, binding *bzlenv.NameInfo, name, module string) bool {
+	if binding.Kind != bzlenv.Imported || len(env.Stack) == 0 {
+		return false
+	}
+	f, ok := env.Stack[0].(*build.File)
+	if !ok {
+		return false
+	}
+	for _, stmt := range f.Stmt {
+		load, ok := stmt.(*build.LoadStmt)
+		if !ok || load.Module.Value != module {
+			continue
+		}
+		for i, to := range load.To {
+			if to == binding.Definition && load.From[i].Name == name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment, globals []string, loadFrom string) ([]string, []*LinterFinding) {
 	var loads []string
 	var findings []*LinterFinding
 
@@ -255,6 +278,17 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 		}
 
 		name = node.Name
+		if binding := env.Get(name); binding != nil && !isLoadedFrom(env, binding, name, loadFrom) {
+			// The name means something else in this scope, can't fix automatically
+			for _, global := range globals {
+				if name == global {
+					findings = append(findings,
+						makeLinterFinding(call.X, fmt.Sprintf(`Function %q is not global anymore and needs to be loaded from %q.`, global, loadFrom)))
+					break
+				}
+			}
+			return loads, findings
+		}
 		// Replace `native.foo()` with `foo()`
 		newCall := *call
 		newCall.X = &build.Ident{Name: node.Name}
@@ -273,7 +307,7 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 		if name == global {
 			loads = append(loads, name)
 			findings = append(findings,
-				makeLinterFinding(call.X, fmt.Sprintf(`Function %q is not global anymore and needs to be loaded from %q.`, global, useApparentRepoNameIfExternal(loadFrom, fileReader)), replacements...))
+				makeLinterFinding(call.X, fmt.Sprintf(`Function %q is not global anymore and needs to be loaded from %q.`, global, loadFrom), replacements...))
 			break
 		}
 	}
@@ -281,7 +315,7 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 	return loads, findings
 }
 
-func notLoadedSymbolUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment, globals []string, loadFrom string, fileReader *FileReader) ([]string, []*LinterFinding) {
+func notLoadedSymbolUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment, globals []string, loadFrom string) ([]string, []*LinterFinding) {
 	var loads []string
 	var findings []*LinterFinding
 
@@ -297,7 +331,7 @@ func notLoadedSymbolUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment
 		if ident.Name == global {
 			loads = append(loads, ident.Name)
 			findings = append(findings,
-				makeLinterFinding(ident, fmt.Sprintf(`Symbol %q is not global anymore and needs to be loaded from %q.`, global, useApparentRepoNameIfExternal(loadFrom, fileReader))))
+				makeLinterFinding(ident, fmt.Sprintf(`Symbol %q is not global anymore and needs to be loaded from %q.`, global, loadFrom)))
 			break
 		}
 	}
@@ -308,34 +342,43 @@ func notLoadedSymbolUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment
 // notLoadedUsageCheck checks whether there's a usage of a given not imported function or symbol in the file
 // and adds a load statement if necessary.
 func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbols []string, loadFrom string) []*LinterFinding {
-	toLoad := make(map[string]bool)
+	var toLoad map[string]bool
 	var findings []*LinterFinding
+	var fixable []*LinterFinding // findings that need the load statement
+
+	loadFrom = useApparentRepoNameIfExternal(loadFrom, fileReader)
 
 	var walk func(expr *build.Expr, env *bzlenv.Environment)
 	walk = func(expr *build.Expr, env *bzlenv.Environment) {
 		defer walkUsages(*expr, env, walk)
 
-		functionLoads, functionFindings := notLoadedFunctionUsageCheckInternal(expr, env, functions, loadFrom, fileReader)
+		functionLoads, functionFindings := notLoadedFunctionUsageCheckInternal(expr, env, functions, loadFrom)
 		findings = append(findings, functionFindings...)
 		for _, load := range functionLoads {
 			toLoad[load] = true
+			fixable = append(fixable, functionFindings...)
 		}
 
-		symbolLoads, symbolFindings := notLoadedSymbolUsageCheckInternal(expr, env, symbols, loadFrom, fileReader)
+		symbolLoads, symbolFindings := notLoadedSymbolUsageCheckInternal(expr, env, symbols, loadFrom)
 		findings = append(findings, symbolFindings...)
 		for _, load := range symbolLoads {
 			toLoad[load] = true
+			fixable = append(fixable, symbolFindings...)
 		}
 	}
-	var expr build.Expr = f
-	walk(&expr, bzlenv.NewEnvironment())
+	collect := func() {
+		toLoad = make(map[string]bool)
+		findings = nil
+		fixable = nil
+		var expr build.Expr = f
+		walk(&expr, bzlenv.NewEnvironment())
+	}
+	collect()
 
 	if len(toLoad) == 0 {
-		return nil
+		return findings
 	}
 
-	loadFrom = useApparentRepoNameIfExternal(loadFrom, fileReader)
-
 	loads := []string{}
 	for l := range toLoad {
 		loads = append(loads, l)
@@ -344,8 +387,11 @@ func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbo
 	sort.Strings(loads)
 	replacement := insertLoad(f, loadFrom, loads)
 	if replacement != nil {
+		// The statements may have been moved, collect the findings again to make sure that their
+		// replacements refer to the current statements of the file.
+		collect()
 		// Add the same replacement to all relevant findings.
-		for _, f := range findings {
+		for _, f := range fixable {
 			f.Replacement = append(f.Replacement, *replacement)
 		}
 	}
-- 
2.43.0


From dc5a393303499ba2f737eabb9c9f870b97b9d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 57/72] fix: replacing several occurrences of skylark

---
 warn/warn_cosmetic.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index e0401c0..2d58e48 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -224,16 +224,18 @@ func skylarkToStarlark(s string) string {
 // supported by Go regexp module.
 func replaceSkylark(s string) (newString string, changed bool) {
 	skylarkRegex := regexp.MustCompile("(?i)skylark")
-	newString = s
+	end := 0 // end of the part of s that has already been copied to newString
 	for _, r := range skylarkRegex.FindAllStringIndex(s, -1) {
 		if r[0] > 0 && s[r[0]-1] == '/' {
 			continue
 		}
-		if r[1] < len(s)-1 && s[r[1]+1] == '/' {
+		if r[1] < len(s) && s[r[1]] == '/' {
 			continue
 		}
-		newString = newString[:r[0]] + skylarkToStarlark(newString[r[0]:r[1]]) + newString[r[1]:]
+		newString += s[end:r[0]] + skylarkToStarlark(s[r[0]:r[1]])
+		end = r[1]
 	}
+	newString += s[end:]
 	return newString, newString != s
 }
 
@@ -241,9 +243,10 @@ func skylarkCommentWarning(f *build.File) []*LinterFinding {
 	var findings []*LinterFinding
 	msg := `"Skylark" is an outdated name of the language, please use "starlark" instead.`
 
-	// Check comments
-	build.WalkPointers(f, func(expr *build.Expr, stack []build.Expr) {
-		comments := (*expr).Comment()
+	// checkComments checks the comments of a node. The replacement is a function that returns
+	// a replacement for the node with a given copy of it.
+	checkComments := func(node build.Expr, replacement func(newNode build.Expr) LinterReplacement) {
+		comments := node.Comment()
 		newComments := build.Comments{
 			Before: append([]build.Comment{}, comments.Before...),
 			Suffix: append([]build.Comment{}, comments.Suffix...),
-- 
2.43.0


From 4ec830fb40e7ca342b672d77a541dc3aea860f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 58/72] fix: outdated names in comments on parts that are not
 replaceable

---
 warn/warn_cosmetic.go | 71 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 2 deletions(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index 2d58e48..b248e09 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -275,14 +275,81 @@ func skylarkCommentWarning(f *build.File) []*LinterFinding {
 		if !isModified {
 			return
 		}
-		newExpr := (*expr).Copy()
+		newExpr := node.Copy()
 		newExpr.Comment().Before = newComments.Before
 		newExpr.Comment().Suffix = newComments.Suffix
 		newExpr.Comment().After = newComments.After
-		finding := makeLinterFinding(*expr, msg, LinterReplacement{expr, newExpr})
+		finding := makeLinterFinding(node, msg, replacement(newExpr))
 		finding.Start = start
 		finding.End = end
 		findings = append(findings, finding)
+	}
+
+	// Check comments
+	build.WalkPointers(f, func(expr *build.Expr, stack []build.Expr) {
+		switch (*expr).(type) {
+		case *build.KeyValueExpr, *build.ForClause, *build.IfClause:
+			// Can only be replaced together with their parents, see below
+			return
+		}
+		if len(stack) > 0 {
+			if _, ok := stack[len(stack)-1].(*build.LoadStmt); ok {
+				// The same for the parts of load statements
+				return
+			}
+		}
+
+		checkComments(*expr, func(newNode build.Expr) LinterReplacement {
+			return LinterReplacement{expr, newNode}
+		})
+
+		switch parent := (*expr).(type) {
+		case *build.DictExpr:
+			for i, item := range parent.List {
+				checkComments(item, func(newNode build.Expr) LinterReplacement {
+					newDict := *parent
+					newDict.List = append([]*build.KeyValueExpr{}, parent.List...)
+					newDict.List[i] = newNode.(*build.KeyValueExpr)
+					return LinterReplacement{expr, &newDict}
+				})
+			}
+		case *build.Comprehension:
+			for i, clause := range parent.Clauses {
+				checkComments(clause, func(newNode build.Expr) LinterReplacement {
+					newComprehension := *parent
+					newComprehension.Clauses = append([]build.Expr{}, parent.Clauses...)
+					newComprehension.Clauses[i] = newNode
+					return LinterReplacement{expr, &newComprehension}
+				})
+			}
+		case *build.LoadStmt:
+			checkComments(parent.Module, func(newNode build.Expr) LinterReplacement {
+				newLoad := *parent
+				newLoad.Module = newNode.(*build.StringExpr)
+				return LinterReplacement{expr, &newLoad}
+			})
+			for i := range parent.From {
+				checkComments(parent.From[i], func(newNode build.Expr) LinterReplacement {
+					newLoad := *parent
+					newLoad.From = append([]*build.Ident{}, parent.From...)
+					newLoad.From[i] = newNode.(*build.Ident)
+					if parent.To[i] == parent.From[i] {
+						newLoad.To = append([]*build.Ident{}, parent.To...)
+						newLoad.To[i] = newLoad.From[i]
+					}
+					return LinterReplacement{expr, &newLoad}
+				})
+				if parent.To[i] == parent.From[i] {
+					continue
+				}
+				checkComments(parent.To[i], func(newNode build.Expr) LinterReplacement {
+					newLoad := *parent
+					newLoad.To = append([]*build.Ident{}, parent.To...)
+					newLoad.To[i] = newNode.(*build.Ident)
+					return LinterReplacement{expr, &newLoad}
+				})
+			}
+		}
 	})
 
 	return findings
-- 
2.43.0


From 48ec9f6ec0cfe835b2a399966dcbef43310d1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 59/72] fix: apply fixes of nested expressions

---
 warn/warn.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/warn/warn.go b/warn/warn.go
index f67ddea..c2acf47 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -274,7 +274,21 @@ func ruleWarningWrapper(ruleWarning func(call *build.CallExpr, pkg string) *Lint
 
 // runWarningsFunction runs a linter/fixer function over a file and applies the fixes conditionally
 func runWarningsFunction(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) []*Finding {
+	findings, fixed := runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
+	// Fixes of nested nodes get lost if an outer node is fixed at the same time, repeat until
+	// everything is fixed (or at least until it doesn't get better anymore).
+	for previous := fixed + 1; fixed > 0 && fixed < previous; {
+		previous = fixed
+		findings, fixed = runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
+	}
+	return findings
+}
+
+// runWarningsFunctionOnce runs a linter/fixer function over a file and applies the fixes conditionally.
+// It returns the findings and the number of the fixes that have been applied.
+func runWarningsFunctionOnce(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) ([]*Finding, int) {
 	findings := []*Finding{}
+	fixed := 0
 	for _, w := range fct(f, f.Pkg, fileReader) {
 		if !DisabledWarning(f, w.Start.Line, category) {
 			finding := makeFinding(f, w.Start, w.End, category, w.URL, w.Message, true, len(w.Replacement) > 0, nil)
@@ -287,6 +301,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 						*r.Old = r.New
 					}
 					finding = nil
+					fixed++
 				case ModeSuggest:
 					// Apply the fix, calculate the diff and roll back the fix
 					newContents := formatWithFix(f, &w.Replacement)
@@ -305,7 +320,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 			}
 		}
 	}
-	return findings
+	return findings, fixed
 }
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
-- 
2.43.0


From 6e854c1c802762628209d5485f8d8c87ffc5ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 60/72] fix: suggesting fixes reorders the statements of the
 file

---
 warn/warn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/warn/warn.go b/warn/warn.go
index c2acf47..56934bd 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -417,6 +417,14 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 
 // formatWithFix applies a fix, formats a file, and rolls back the fix
 func formatWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
+	// Formatting may reorder the statements
+	stmts := f.Stmt
+	oldStmts := append([]build.Expr{}, stmts...)
+	defer func() {
+		f.Stmt = stmts
+		copy(stmts, oldStmts)
+	}()
+
 	for i := range *replacements {
 		r := (*replacements)[i]
 		old := *r.Old
-- 
2.43.0


From 84ff9587f1e76545e9e2378bb85f4ed561c1ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 61/72] fix: comments of replaced expressions get lost

---
 warn/warn_bazel.go           | 2 +-
 warn/warn_bazel_api.go       | 7 ++++---
 warn/warn_bazel_operation.go | 4 +++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/warn/warn_bazel.go b/warn/warn_bazel.go
index 456f011..184f1c0 100644
--- a/warn/warn_bazel.go
+++ b/warn/warn_bazel.go
@@ -115,7 +115,7 @@ func nativeInBuildFilesWarning(f *build.File) []*LinterFinding {
 		findings = append(findings,
 			makeLinterFinding(ident,
 				`The "native" module shouldn't be used in BUILD files, its members are available as global symbols.`,
-				LinterReplacement{expr, &build.Ident{Name: dot.Name}}))
+				LinterReplacement{expr, &build.Ident{Comments: dot.Comments, Name: dot.Name}}))
 	})
 	return findings
 }
diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index f7a0604..4559cf4 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -291,7 +291,7 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 		}
 		// Replace `native.foo()` with `foo()`
 		newCall := *call
-		newCall.X = &build.Ident{Name: node.Name}
+		newCall.X = &build.Ident{Comments: node.Comments, Name: node.Name}
 		replacements = append(replacements, LinterReplacement{expr, &newCall})
 	case *build.Ident:
 		// Maybe `global`()?
@@ -775,8 +775,9 @@ func outputGroupWarning(f *build.File) []*LinterFinding {
 			makeLinterFinding(outputGroup,
 				`"ctx.attr.dep.output_group" is deprecated in favor of "ctx.attr.dep[OutputGroupInfo]".`,
 				LinterReplacement{expr, &build.IndexExpr{
-					X: dep,
-					Y: &build.Ident{Name: "OutputGroupInfo"},
+					Comments: outputGroup.Comments,
+					X:        dep,
+					Y:        &build.Ident{Name: "OutputGroupInfo"},
 				},
 				}))
 	})
diff --git a/warn/warn_bazel_operation.go b/warn/warn_bazel_operation.go
index 6bf8b08..33574a6 100644
--- a/warn/warn_bazel_operation.go
+++ b/warn/warn_bazel_operation.go
@@ -126,7 +126,9 @@ func depsetIterationWarning(f *build.File) []*LinterFinding {
 				addFinding(&expr.List[0])
 				if ident.Name == "list" {
 					// `list(d.to_list())` can be simplified to just `d.to_list()`
-					findings[len(findings)-1].Replacement[0].Old = e
+					replacement := &findings[len(findings)-1].Replacement[0]
+					replacement.Old = e
+					replacement.New.(*build.CallExpr).Comments = expr.Comments
 				}
 			case "zip":
 				for i, arg := range expr.List {
-- 
2.43.0


From 17c88a42d4a6cba26b9d66f06e5620b8216d0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:24 +0000
Subject: [PATCH 62/72] fix: functions that call each other in a circle are not
 found to be macros

---
 warn/warn_macro.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 65b071c..71430dc 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -208,17 +208,35 @@ func (ma macroAnalyzer) getFileData(pkg, label string) fileData {
 }
 
 // IsMacro is a public function that checks whether the given function is a macro
-func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
+func (ma macroAnalyzer) IsMacro(fn function) functionReport {
+	visited := make(map[function]bool)
+	report := ma.isMacro(fn, visited)
+	if !report.isMacro {
+		// None of the functions reachable from fn is a macro
+		for f := range visited {
+			ma.cache[f] = functionReport{}
+		}
+	}
+	return report
+}
+
+// isMacro checks whether the given function is a macro. Functions in visited have been analyzed (or are being
+// analyzed) for the current query already and are not analyzed again, this prevents stack overflow crashes if
+// the input data contains recursion. A negative result is only final if the result of the entire query is negative.
+func (ma macroAnalyzer) isMacro(fn function, visited map[function]bool) (report functionReport) {
 	// Check the cache first
 	if cached, ok := ma.cache[fn]; ok {
 		return cached
 	}
-	// Write a negative result to the cache before analyzing. This will prevent stack overflow crashes
-	// if the input data contains recursion.
-	ma.cache[fn] = report
+	if visited[fn] {
+		return
+	}
+	visited[fn] = true
 	defer func() {
-		// Update the cache with the actual result
-		ma.cache[fn] = report
+		if report.isMacro {
+			// Update the cache with the actual result
+			ma.cache[fn] = report
+		}
 	}()
 
 	// Check for native rules
@@ -237,7 +255,7 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 
 	// Check whether fn.name is an alias for another function
 	if alias, ok := fileData.aliases[fn.name]; ok {
-		if ma.IsMacro(alias).isMacro {
+		if ma.isMacro(alias, visited).isMacro {
 			report.isMacro = true
 		}
 		return
@@ -267,7 +285,7 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 	}
 
 	for _, fc := range append(knownFunCalls, newFunCalls...) {
-		if ma.IsMacro(fc.function).isMacro {
+		if ma.isMacro(fc.function, visited).isMacro {
 			report.isMacro = true
 			report.fc = &fc
 			return
-- 
2.43.0


From 5ade6cf3b64b89944167ef7a0fba780313e50b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:24 +0000
Subject: [PATCH 63/72] fix: the call reported for a macro depends on map order

---
 warn/warn_macro.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 71430dc..2e06cd7 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -207,6 +208,21 @@ func (ma macroAnalyzer) getFileData(pkg, label string) fileData {
 	return fd
 }
 
+// sortedFunCalls returns function calls ordered by their lines and names.
+func sortedFunCalls(funCalls map[string]funCall) []funCall {
+	var result []funCall
+	for _, fc := range funCalls {
+		result = append(result, fc)
+	}
+	sort.Slice(result, func(i, j int) bool {
+		if result[i].line != result[j].line {
+			return result[i].line < result[j].line
+		}
+		return result[i].nameAlias < result[j].nameAlias
+	})
+	return result
+}
+
 // IsMacro is a public function that checks whether the given function is a macro
 func (ma macroAnalyzer) IsMacro(fn function) functionReport {
 	visited := make(map[function]bool)
@@ -276,7 +292,7 @@ func (ma macroAnalyzer) isMacro(fn function, visited map[function]bool) (report
 	// Prioritize function calls from already loaded files. If some of the function calls are from the same file
 	// (or another file that has been loaded already), check them first.
 	var knownFunCalls, newFunCalls []funCall
-	for _, fc := range funCalls {
+	for _, fc := range sortedFunCalls(funCalls) {
 		if _, ok := ma.files[fc.function.pkg+":"+fc.function.filename]; ok || fc.function.filename == nativeModule {
 			knownFunCalls = append(knownFunCalls, fc)
 		} else {
-- 
2.43.0


From eaad7865551637041902512e9359224dcf8f9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 64/72] fix: warning categories named twice are reported twice

-warnings=+print, with print on by default, or -warnings=print,print ran
the category twice, and every finding was reported twice.
---
 buildifier/config/validation.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/buildifier/config/validation.go b/buildifier/config/validation.go
index 87cc393..2acd40c 100644
--- a/buildifier/config/validation.go
+++ b/buildifier/config/validation.go
@@ -98,6 +98,19 @@ func ValidateModes(mode, lint *string, dflag *bool, additionalModes ...string) e
 	return nil
 }
 
+// uniqueStrings removes duplicates from a list of strings.
+func uniqueStrings(list []string) []string {
+	seen := make(map[string]bool)
+	var result []string
+	for _, s := range list {
+		if !seen[s] {
+			seen[s] = true
+			result = append(result, s)
+		}
+	}
+	return result
+}
+
 // ValidateWarnings validates the value of the --warnings flag
 func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string) ([]string, error) {
 
@@ -136,6 +149,7 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 				warningsList = append(warningsList, warning)
 			}
 		}
+		warningsList = uniqueStrings(warningsList)
 	}
 	return warningsList, nil
 }
-- 
2.43.0


From 4bdd8adb793ff753e38892f319664e4051066165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 65/72] fix: unknown warning categories are usage errors

An unknown category in -warnings was only noticed when the first file was
linted; the run stopped half-way with the exit code for syntax errors.
---
 buildifier/config/config.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/buildifier/config/config.go b/buildifier/config/config.go
index e9783b9..712b2d9 100644
--- a/buildifier/config/config.go
+++ b/buildifier/config/config.go
@@ -242,6 +242,18 @@ func (c *Config) Validate(args []string) error {
 	}
 	c.LintWarnings = lintWarnings
 
+	if c.Lint != "off" {
+		known := make(map[string]bool)
+		for _, warning := range warn.AllWarnings {
+			known[warning] = true
+		}
+		for _, warning := range lintWarnings {
+			if !known[warning] {
+				return fmt.Errorf("unrecognized warning category %q", warning)
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From e73f0f76b028e53de0c618ffbb1b1f53890055bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 66/72] fix: buildifier -r ignored symbolic links to
 directories

'buildifier -r link' did nothing, while 'buildifier -r link/' worked:
filepath.Walk does not follow a link it starts from.
---
 buildifier/utils/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildifier/utils/utils.go b/buildifier/utils/utils.go
index 66f5dc0..4b02576 100644
--- a/buildifier/utils/utils.go
+++ b/buildifier/utils/utils.go
@@ -60,7 +60,8 @@ func ExpandDirectories(args *[]string) ([]string, error) {
 			files = append(files, arg)
 			continue
 		}
-		err = filepath.Walk(arg, func(path string, info os.FileInfo, err error) error {
+		// The separator makes Walk follow a symbolic link to a directory
+		err = filepath.Walk(arg+string(filepath.Separator), func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From d06fcb079dc175b59b45c11d9c450ffb065710d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:38 +0000
Subject: [PATCH 67/72] fix: adding to a table that a table file left out
 crashes

Tables that a -tables file does not mention are nil afterwards, and an
-add_tables file that mentions them crashed with an assignment to an
entry in a nil map.
---
 tables/tables.go | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/tables/tables.go b/tables/tables.go
index 7ff8b02..3308de7 100644
--- a/tables/tables.go
+++ b/tables/tables.go
@@ -278,29 +278,27 @@ func OverrideTables(labelArg, denylist, listArg, sortableListArg, sortDenylist,
 	ShortenAbsoluteLabelsToRelative = shortenAbsoluteLabelsToRelative
 }
 
-// MergeTables allows a user of the build package to override the special-case rules. The user-provided tables are merged into the built-in tables.
-func MergeTables(labelArg, denylist, listArg, sortableListArg, sortDenylist, sortAllowlist map[string]bool, namePriority map[string]int, stripLabelLeadingSlashes, shortenAbsoluteLabelsToRelative bool) {
-	for k, v := range labelArg {
-		IsLabelArg[k] = v
-	}
-	for k, v := range denylist {
-		LabelDenylist[k] = v
-	}
-	for k, v := range listArg {
-		IsListArg[k] = v
-	}
-	for k, v := range sortableListArg {
-		IsSortableListArg[k] = v
-	}
-	for k, v := range sortDenylist {
-		SortableDenylist[k] = v
+// mergeMaps adds the entries of src to dst. dst is nil for a table that was
+// left out when the tables were replaced.
+func mergeMaps[V any](dst, src map[string]V) map[string]V {
+	if dst == nil {
+		dst = make(map[string]V)
 	}
-	for k, v := range sortAllowlist {
-		SortableAllowlist[k] = v
-	}
-	for k, v := range namePriority {
-		NamePriority[k] = v
+	for k, v := range src {
+		dst[k] = v
 	}
+	return dst
+}
+
+// MergeTables allows a user of the build package to override the special-case rules. The user-provided tables are merged into the built-in tables.
+func MergeTables(labelArg, denylist, listArg, sortableListArg, sortDenylist, sortAllowlist map[string]bool, namePriority map[string]int, stripLabelLeadingSlashes, shortenAbsoluteLabelsToRelative bool) {
+	IsLabelArg = mergeMaps(IsLabelArg, labelArg)
+	LabelDenylist = mergeMaps(LabelDenylist, denylist)
+	IsListArg = mergeMaps(IsListArg, listArg)
+	IsSortableListArg = mergeMaps(IsSortableListArg, sortableListArg)
+	SortableDenylist = mergeMaps(SortableDenylist, sortDenylist)
+	SortableAllowlist = mergeMaps(SortableAllowlist, sortAllowlist)
+	NamePriority = mergeMaps(NamePriority, namePriority)
 	StripLabelLeadingSlashes = stripLabelLeadingSlashes || StripLabelLeadingSlashes
 	ShortenAbsoluteLabelsToRelative = shortenAbsoluteLabelsToRelative || ShortenAbsoluteLabelsToRelative
 }
-- 
2.43.0


From 14d4ed6cfdd822a3df38567fcf0b27450ae78b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 68/72] fix: unused_deps crashes if there is nothing after
 --direct_dependencies

---
 unused_deps/unused_deps.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index ef5d8f4..de4e05b 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -165,9 +165,12 @@ func directDepParams(blazeOutputPath string, paramsFileNames ...string) (depsByJ
 		if arg < 0 {
 			continue
 		}
-		first := arg + len(directDepsFlag) + 1
+		jars := data[arg+len(directDepsFlag):]
+		if len(jars) > 0 {
+			jars = jars[1:] // the separator
+		}
 
-		scanner := bufio.NewScanner(bytes.NewReader(data[first:]))
+		scanner := bufio.NewScanner(bytes.NewReader(jars))
 		for scanner.Scan() {
 			jar := scanner.Text()
 			if strings.HasPrefix(jar, "--") {
-- 
2.43.0


From 155e8fa1b7f6b0ce53fddc5d223a26e49b4600d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:23 +0000
Subject: [PATCH 69/72] fix: unused_deps does not find the packages of external
 repositories

The name of the build file that edit.InterpretLabelWithRepo returns is not
relative to the external repository, it is usually empty. Thus nothing was
ever reported for targets of external repositories.
---
 unused_deps/unused_deps.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index de4e05b..0edceea 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -223,6 +223,17 @@ func unusedDeps(depsFileName string, depsByJar map[string]string) (unusedDeps ma
 	return unusedDeps
 }
 
+// packageBuildFileName returns the name of the BUILD file in the given package directory.
+func packageBuildFileName(dir string) string {
+	for _, name := range edit.BuildFileNames {
+		file := path.Join(dir, name)
+		if info, err := os.Stat(file); err == nil && info.Mode().IsRegular() {
+			return file
+		}
+	}
+	return path.Join(dir, "BUILD")
+}
+
 // parseBuildFile tries to read and parse the contents of buildFileName.
 func parseBuildFile(buildFileName string) (buildFile *build.File, err error) {
 	data, err := os.ReadFile(buildFileName)
@@ -269,7 +280,7 @@ func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool)
 	buildFileName, repo, pkg, ruleName := edit.InterpretLabelWithRepo(label)
 	if repo != "" {
 		outputBase := blazeInfo(config.DefaultOutputBase)
-		buildFileName = fmt.Sprintf("%s/external/%s/%s", outputBase, repo, buildFileName)
+		buildFileName = packageBuildFileName(path.Join(outputBase, "external", repo, pkg))
 	}
 
 	depsExpr := getDepsExpr(buildFileName, ruleName)
-- 
2.43.0


From 83a627bd0757dd9706cf7eb7ee722dbb5494e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 70/72] fix: unused_deps mistakes labels relative to a package
 of another repository

They were taken for labels of the main repository, so unused dependencies
were missed or the wrong ones were reported, and labels of less than two
characters crashed.
---
 unused_deps/unused_deps.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 0edceea..f4b76ca 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -291,11 +291,11 @@ func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool)
 				if !ok {
 					continue
 				}
-				buildLabel := str.Value
-				if repo != "" && buildLabel[:2] == "//" {
-					buildLabel = fmt.Sprintf("@%s%s", repo, str.Value)
+				buildLabel := labels.ParseRelative(str.Value, pkg)
+				if !strings.HasPrefix(str.Value, "@") {
+					buildLabel.Repository = repo
 				}
-				if !labels.Equal(buildLabel, dep, pkg) {
+				if buildLabel != labels.ParseRelative(dep, pkg) {
 					continue
 				}
 				if hasRuntimeComment(str) {
-- 
2.43.0


From 52de39f7360fbba1108a2194b858652056356e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 71/72] fix: unused_deps never reports anything for an extra
 action

The name of the params file was passed as the output path.
---
 unused_deps/unused_deps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index f4b76ca..daa5a8b 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -116,7 +116,7 @@ func writeUnusedDeps(jarPath, outputFileName string) {
 	depsPath := strings.Replace(jarPath, ".jar", ".jdeps", 1)
 	paramsPath := jarPath + "-2.params"
 	file, _ := os.Create(outputFileName)
-	for dep := range unusedDeps(depsPath, directDepParams(paramsPath)) {
+	for dep := range unusedDeps(depsPath, directDepParams("bazel-out", paramsPath)) {
 		file.WriteString(dep + "\n")
 	}
 }
-- 
2.43.0


From a8d53619ac723540153767809853dadb4b10e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 72/72] fix: Edit loses replacements of dictionary items and
 comprehension clauses

---
 build/walk.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/walk.go b/build/walk.go
index dd279a7..844f8ca 100644
--- a/build/walk.go
+++ b/build/walk.go
@@ -171,11 +171,12 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 		for i := range v.List {
 			e := Expr(v.List[i])
 			f(&e)
+			v.List[i] = e.(*KeyValueExpr)
 		}
 	case *Comprehension:
 		f(&v.Body)
-		for _, c := range v.Clauses {
-			f(&c)
+		for i := range v.Clauses {
+			f(&v.Clauses[i])
 		}
 	case *IfClause:
 		f(&v.Cond)
-- 
2.43.0

