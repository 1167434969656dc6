From 8db34dd20f9ffda13ebeb07359641354fb1fcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 01/31] =?UTF-8?q?fix:=20give=20all=20comparison=20operator?=
 =?UTF-8?q?s=20one=20precedence=20level=20above=20=D0=9D=D0=95?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

<>, <= and >= were below НЕ and =, and < > above =, so «Не а <> б» was
parsed as «(Не а) <> б» and «а <> б < в» as «а <> (б < в)».
---
 ast/grammar.y |   8 ++--
 ast/y.go      | 111 ++++++++++++++++++++++++--------------------------
 2 files changed, 57 insertions(+), 62 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 364143f..ea414ec 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -68,12 +68,12 @@ package ast
 %nonassoc LOW_PREC /* самый низкий приоритет */
 %left OR
 %left And
-%left NeEQ
-%left LE
-%left GE
 %right Not
+/* у всех операций сравнения один приоритет */
 %left EQUAL
-%left '>' '<'
+      NeEQ
+      LE GE
+      '>' '<'
 %left '+' '-'
 %left '*' '/' '%'
 %right UNARMinus UNARYPlus /* самый высокий приоритет */
diff --git a/ast/y.go b/ast/y.go
index 34afd52..647124d 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -182,45 +182,45 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 618
+const yyLast = 561
 
 var yyAct = [...]uint8{
 	71, 7, 122, 115, 7, 5, 148, 49, 196, 45,
 	19, 8, 22, 160, 24, 138, 161, 55, 73, 185,
 	75, 74, 142, 53, 116, 116, 70, 70, 141, 7,
 	93, 128, 70, 76, 82, 69, 72, 78, 80, 81,
-	66, 63, 67, 68, 64, 65, 91, 92, 116, 7,
-	55, 95, 116, 116, 61, 62, 56, 57, 58, 59,
-	60, 30, 116, 4, 86, 98, 18, 131, 100, 101,
+	66, 63, 67, 68, 64, 65, 91, 92, 95, 7,
+	55, 86, 116, 116, 61, 62, 56, 57, 58, 59,
+	60, 30, 140, 116, 116, 98, 177, 131, 100, 101,
 	102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
-	112, 179, 175, 116, 94, 113, 30, 41, 61, 62,
-	56, 57, 58, 59, 60, 177, 140, 90, 70, 41,
-	127, 58, 59, 60, 31, 165, 70, 130, 126, 146,
-	143, 44, 97, 52, 51, 153, 129, 42, 7, 114,
-	40, 99, 89, 133, 162, 140, 139, 70, 170, 31,
-	134, 135, 85, 83, 147, 151, 132, 7, 7, 204,
-	70, 163, 156, 157, 77, 210, 158, 152, 181, 154,
-	145, 88, 52, 51, 168, 198, 164, 123, 84, 166,
-	178, 169, 149, 159, 176, 125, 171, 124, 176, 7,
-	180, 52, 51, 7, 182, 51, 52, 51, 186, 56,
-	57, 58, 59, 60, 7, 7, 118, 137, 189, 192,
-	193, 187, 191, 188, 201, 190, 6, 7, 174, 200,
-	46, 205, 203, 7, 202, 43, 30, 208, 206, 139,
-	25, 54, 139, 209, 136, 26, 211, 51, 116, 52,
-	51, 13, 21, 172, 27, 44, 12, 28, 52, 51,
-	33, 32, 41, 52, 51, 15, 14, 194, 52, 51,
-	47, 2, 184, 36, 37, 39, 173, 38, 23, 31,
-	52, 51, 30, 35, 34, 195, 25, 207, 3, 121,
-	20, 26, 42, 1, 16, 50, 48, 13, 21, 11,
-	27, 44, 12, 28, 197, 150, 33, 32, 41, 87,
-	29, 15, 14, 96, 167, 9, 30, 17, 10, 36,
-	37, 39, 0, 38, 23, 31, 79, 0, 0, 35,
+	112, 179, 175, 44, 94, 113, 18, 41, 33, 32,
+	58, 59, 60, 41, 90, 4, 30, 44, 70, 170,
+	127, 36, 37, 39, 31, 38, 70, 130, 126, 165,
+	146, 35, 34, 52, 51, 153, 129, 42, 7, 89,
+	143, 114, 134, 133, 181, 116, 139, 70, 168, 123,
+	204, 135, 85, 83, 147, 151, 132, 7, 7, 31,
+	70, 99, 156, 157, 97, 210, 158, 152, 88, 154,
+	145, 56, 57, 58, 59, 60, 164, 40, 84, 166,
+	162, 169, 52, 51, 176, 198, 171, 140, 176, 7,
+	180, 52, 51, 7, 182, 51, 178, 163, 186, 159,
+	201, 77, 52, 51, 7, 7, 52, 51, 189, 192,
+	193, 187, 191, 188, 125, 190, 149, 7, 174, 200,
+	194, 205, 203, 7, 202, 43, 30, 208, 206, 139,
+	25, 124, 139, 209, 118, 26, 211, 51, 116, 52,
+	51, 13, 21, 137, 27, 44, 12, 28, 52, 51,
+	33, 32, 41, 52, 51, 15, 14, 173, 6, 52,
+	51, 54, 46, 36, 37, 39, 207, 38, 23, 31,
+	47, 2, 30, 35, 34, 136, 25, 172, 184, 121,
+	20, 26, 42, 195, 3, 1, 16, 13, 21, 50,
+	27, 44, 12, 28, 48, 11, 33, 32, 41, 197,
+	150, 15, 14, 87, 29, 96, 30, 167, 9, 36,
+	37, 39, 17, 38, 23, 31, 79, 10, 0, 35,
 	34, 0, 21, 0, 0, 44, 20, 0, 42, 0,
 	33, 32, 41, 0, 0, 0, 0, 0, 0, 30,
 	0, 0, 0, 36, 37, 39, 0, 38, 23, 31,
-	0, 0, 0, 35, 34, 21, 63, 0, 44, 0,
-	20, 0, 42, 33, 32, 41, 0, 0, 0, 61,
-	62, 56, 57, 58, 59, 60, 36, 37, 39, 0,
+	0, 0, 0, 35, 34, 21, 0, 0, 44, 0,
+	20, 0, 42, 33, 32, 41, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
 	38, 23, 31, 0, 0, 0, 35, 34, 0, 66,
 	63, 67, 68, 20, 65, 42, 66, 63, 67, 68,
 	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
@@ -241,45 +241,40 @@ var yyAct = [...]uint8{
 	58, 59, 60, 66, 63, 67, 68, 64, 65, 0,
 	66, 63, 67, 68, 0, 0, 0, 61, 62, 56,
 	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60, 63, 67, 68, 0, 0, 0, 0, 63, 0,
-	68, 0, 0, 0, 61, 62, 56, 57, 58, 59,
-	60, 61, 62, 56, 57, 58, 59, 60, 44, 0,
-	0, 0, 0, 33, 32, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
-	38, 0, 0, 0, 0, 0, 35, 34,
+	60,
 }
 
 var yyPact = [...]int16{
-	198, -1000, -1000, 198, -1000, 234, -1000, -17, 494, -1000,
+	198, -1000, -1000, 198, -1000, 224, -1000, -17, 494, -1000,
 	-1000, -1000, -1000, -1000, 311, 311, -1000, -1000, -47, -1000,
-	311, 311, -1000, 84, -1000, 311, 278, 311, 244, 123,
-	2, 89, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
-	-1000, 22, -11, -1000, -1000, 234, -1000, -1000, 244, -1000,
-	-1000, -1000, -1000, 311, 78, -1000, 311, 311, 311, 311,
+	311, 311, -1000, 70, -1000, 311, 278, 311, 244, 123,
+	-11, 86, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
+	-1000, 22, -14, -1000, -1000, 224, -1000, -1000, 244, -1000,
+	-1000, -1000, -1000, 311, 88, -1000, 311, 311, 311, 311,
 	311, 311, 311, 311, 311, 311, 311, 311, 311, -1000,
-	494, -50, -1000, 311, 56, -1000, 296, -1000, 465, 178,
-	473, 441, 229, 149, 159, 157, 311, -1000, 311, -1000,
+	494, -50, -1000, 311, 58, -1000, 501, -1000, 465, 206,
+	473, 441, 229, 121, 203, 186, 311, -1000, 311, -1000,
 	-1000, -1000, -1000, -31, 311, 311, -1000, -1000, 494, -47,
-	44, 44, -1000, -1000, -1000, 124, 124, 35, 330, 501,
-	521, 528, 296, 1, -1000, 311, -1000, 244, 111, 311,
-	-1000, -1000, 77, -1000, -34, -40, 47, 362, 311, 46,
-	402, -1000, -1000, 148, 53, 433, 244, 244, 170, 155,
-	-1000, 116, 116, -1000, -1000, 42, -1000, 311, 139, 311,
-	107, -50, -1000, 65, -1000, -1000, 224, 167, -1000, -1000,
-	19, 55, -1000, 152, 18, -1000, 402, 132, 244, 394,
-	-1000, -44, 244, -1000, -1000, 48, 116, 561, -1000, 48,
-	311, -1000, 234, 244, 244, -1000, 215, -1000, 55, -1000,
-	145, 337, 148, 172, -1000, 145, 244, 129, 149, -1000,
-	-1000, -1000, 244, 246, 149, 212, 109, -1000, 212, -1000,
+	33, 33, -1000, -1000, -1000, 96, 96, 96, 330, 501,
+	96, 96, 96, 1, -1000, 311, -1000, 244, 103, 311,
+	-1000, -1000, 119, -1000, -34, -40, 57, 362, 311, 47,
+	402, -1000, -1000, 182, 53, 433, 244, 244, 170, 171,
+	-1000, 152, 152, -1000, -1000, 46, -1000, 311, 113, 311,
+	78, -50, -1000, 59, -1000, -1000, 215, 167, -1000, -1000,
+	19, 26, -1000, 168, 18, -1000, 402, 108, 244, 394,
+	-1000, -44, 244, -1000, -1000, 14, 152, 56, -1000, 14,
+	311, -1000, 224, 244, 244, -1000, 178, -1000, 26, -1000,
+	155, 337, 182, 158, -1000, 155, 244, 120, 121, -1000,
+	-1000, -1000, 244, 235, 121, 212, 109, -1000, 212, -1000,
 	-1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 240, 5, 63, 288, 287, 285, 6, 284, 283,
-	21, 11, 15, 280, 10, 13, 16, 20, 279, 0,
-	275, 12, 14, 8, 274, 2, 269, 66, 120, 266,
-	7, 265, 264, 3, 263, 258, 196, 255, 242, 223,
-	214, 211, 187,
+	0, 250, 5, 95, 297, 292, 288, 6, 287, 285,
+	21, 11, 15, 284, 10, 13, 16, 20, 283, 0,
+	280, 12, 14, 8, 279, 2, 275, 86, 157, 274,
+	7, 269, 266, 3, 265, 264, 238, 263, 258, 257,
+	255, 241, 223,
 }
 
 var yyR1 = [...]int8{
-- 
2.43.0


From 204411984872e48361b1a7a9da1051a58814dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 02/31] =?UTF-8?q?fix:=20keep=20=D0=98=D0=BD=D0=B0=D1=87?=
 =?UTF-8?q?=D0=B5=D0=95=D1=81=D0=BB=D0=B8=20branches=20in=20source=20order?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The list is built from the last branch to the first, and each branch was
appended after the ones that follow it, so the tree and the printed text had
them reversed.
---
 ast/grammar.y | 4 ++--
 ast/y.go      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index ea414ec..ae8255f 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -203,10 +203,10 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
         | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append($5, &IfStatement{
+             $$ = append(Statements{&IfStatement{
                 Expression: $2,
                 TrueBlock:  $4,
-            })
+            }}, $5...)
         };
 
 /* Иначе */
diff --git a/ast/y.go b/ast/y.go
index 647124d..f6b038f 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -921,10 +921,10 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:205
 		{
-			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
+			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
 				TrueBlock:  yyDollar[4].opt_body,
-			})
+			}}, yyDollar[5].opt_elseif_list...)
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-- 
2.43.0


From bfcd89d0766091c37b58be2eb8d6ee244c143d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 03/31] fix: do not reuse statements of an earlier block in a
 body starting with ;

The rule appended to the implicit $$, which for an empty opt_body is whatever
the parser stack slot last held. A body starting with an empty statement got
the statements of a previous routine or block prepended (or was replaced by
them).
---
 ast/grammar.y | 2 +-
 ast/y.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index ae8255f..b2d5626 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -154,7 +154,7 @@ body: stmt { $$ = Statements{$1}}
                 yylex.Error("semicolon (;) is expected")
             }
         }
-        if $3 != nil {
+        if $$ = $1; $3 != nil {
             $$ = append($$, $3) 
         }
     }
diff --git a/ast/y.go b/ast/y.go
index f6b038f..cd9d2d6 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -840,7 +840,7 @@ yydefault:
 					yylex.Error("semicolon (;) is expected")
 				}
 			}
-			if yyDollar[3].stmt != nil {
+			if yyVAL.body = yyDollar[1].opt_body; yyDollar[3].stmt != nil {
 				yyVAL.body = append(yyVAL.body, yyDollar[3].stmt)
 			}
 		}
-- 
2.43.0


From 406d6792699ac906c49915ef4bd256e1012c4b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 04/31] =?UTF-8?q?fix:=20leave=20loop=20context=20after=20a?=
 =?UTF-8?q?=20=D0=9F=D0=BE=D0=BA=D0=B0=20loop?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The While rule raised the loop counter and never lowered it, so Прервать and
Продолжить were accepted anywhere after such a loop.
---
 ast/grammar.y | 2 +-
 ast/y.go      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index b2d5626..eb1a2c2 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -244,7 +244,7 @@ stmt_loop: For Each token_identifier In loopExp Loop { setLoopFlag(true, yylex)
             WhileExpr: $2,
             Body: $5,
         }
-};
+        setLoopFlag(false, yylex) };
 
 
 /* описыввает выражения которые можно использовать в циккле Для Каждого */
diff --git a/ast/y.go b/ast/y.go
index cd9d2d6..0a37f7b 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -996,6 +996,7 @@ yydefault:
 				WhileExpr: yyDollar[2].stmt,
 				Body:      yyDollar[5].opt_body,
 			}
+			setLoopFlag(false, yylex)
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From a1bb9df26c2b3dfba45c9d26ed3a19525b80dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 05/31] fix: print numbers with their fractional part

Numbers were printed with %.0f, so 2.5 became 2.
---
 ast/ast_print.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index f071ccb..a09c068 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -150,8 +151,10 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
-	case float64, float32:
-		return fmt.Sprintf("%.0f", val)
+	case float64:
+		return strconv.FormatFloat(val, 'f', -1, 64)
+	case float32:
+		return strconv.FormatFloat(float64(val), 'f', -1, 32)
 	case int, int64, int32:
 		return fmt.Sprintf("%d", val)
 	case string:
-- 
2.43.0


From 58c6d9a200d3984c518e3a3676b4b766017bae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 06/31] fix: print module variables always, and in a fixed
 order

A module with variables only was printed as an empty text, and several
variables came in random (map) order, different from call to call.
---
 ast/ast_print.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index a09c068..c0eb96d 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -48,14 +49,11 @@ func (ast *AstNode) PrintStatementWithConf(stat Statement, conf PrintConf) strin
 }
 
 func (p *astPrint) print() string {
-	if len(p.ast.ModuleStatement.Body) == 0 {
-		return ""
-	}
-
 	builder := &strings.Builder{}
 
-	for _, v := range p.ast.ModuleStatement.GlobalVariables {
-		builder.WriteString(p.printGlobalVariables(v))
+	globals := p.ast.ModuleStatement.GlobalVariables
+	for _, name := range sortedKeys(globals) {
+		builder.WriteString(p.printGlobalVariables(globals[name]))
 		builder.WriteString(p.newLine(1))
 	}
 
@@ -72,6 +70,17 @@ func (p *astPrint) print() string {
 	return builder.String()
 }
 
+// sortedKeys возвращает ключи в постоянном порядке, чтобы вывод не зависел от порядка обхода map
+func sortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+
+	sort.Strings(keys)
+	return keys
+}
+
 func (p *astPrint) printGlobalVariables(variables GlobalVariables) string {
 	builder := strings.Builder{}
 
-- 
2.43.0


From dba5f8ee65b1c8767cd14d70e2b0a91eb34d53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 07/31] fix: print local variable declarations of routines
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Перем declarations inside a procedure or function were dropped.
---
 ast/ast_print.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index c0eb96d..5180014 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -153,6 +153,10 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 	builder.WriteString(" ")
 	builder.WriteString(export)
 	builder.WriteString(p.newLine(1))
+	if names := sortedKeys(pf.ExplicitVariables); len(names) > 0 {
+		builder.WriteString(strings.Repeat(" ", p.conf.Margin*depth))
+		builder.WriteString("Перем " + strings.Join(names, ", ") + ";")
+	}
 	builder.WriteString(p.printBody(pf.Body, depth))
 
 	return
-- 
2.43.0


From 7f39f2b767fe8fc2e577ba49fa719577fb707d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 08/31] =?UTF-8?q?fix:=20separate=20=D0=9F=D0=BE=D0=BF?=
 =?UTF-8?q?=D1=8B=D1=82=D0=BA=D0=B0=20and=20=D0=98=D1=81=D0=BA=D0=BB=D1=8E?=
 =?UTF-8?q?=D1=87=D0=B5=D0=BD=D0=B8=D0=B5=20from=20the=20next=20word=20in?=
 =?UTF-8?q?=20one=20line?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With OneLine and no margin the text ran together (Попыткаа = 1;) and could
not be parsed back.
---
 ast/ast_print.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 5180014..6dd08f4 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -420,6 +420,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 
 	spaces := strings.Repeat(" ", p.conf.Margin*depth)
 	builder.WriteString("Попытка")
+	builder.WriteString(p.oneLineSpace())
 
 	if try.Body != nil {
 		builder.WriteString(p.printBody(try.Body, depth+1))
@@ -429,6 +430,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 
 	builder.WriteString(spaces)
 	builder.WriteString("Исключение")
+	builder.WriteString(p.oneLineSpace())
 	if try.Catch != nil {
 		builder.WriteString(p.printBody(try.Catch, depth+1))
 	} else {
@@ -462,6 +464,11 @@ func (p *astPrint) printGoTo(gotoStat Statement, depth int) string {
 	return builder.String()
 }
 
+// oneLineSpace отделяет ключевое слово от следующего, когда перевода строки между ними не будет
+func (p *astPrint) oneLineSpace() string {
+	return IF(p.conf.OneLine, " ", "")
+}
+
 func (p *astPrint) newLine(count int) string {
 	if p.conf.OneLine {
 		return ""
-- 
2.43.0


From 3a6d5087a95b5965be28f25f6f9900d334f6282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 09/31] fix: keep negation and unary minus on every operand

Calls, indexing, ternaries and bracketed expressions lost one or both marks
when parsed or printed, and a second mark on the same operand replaced or
duplicated the first one.
---
 ast/ast.go        | 12 ++++++++++--
 ast/ast_print.go  | 36 ++++++++++--------------------------
 ast/ast_struct.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index baec22e..a043333 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -158,6 +158,10 @@ func appendVarStatements(existingVariables map[string]VarStatement, newVariables
 }
 
 func unaryMinus(iv interface{}) interface{} {
+	if marked(iv) {
+		return ExprStatements{Statements: Statements{iv}}.UnaryMinus()
+	}
+
 	switch v := iv.(type) {
 	case int:
 		return -v
@@ -172,17 +176,21 @@ func unaryMinus(iv interface{}) interface{} {
 	case IUnary:
 		return v.UnaryMinus()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{v}}.UnaryMinus()
 	}
 }
 
 func not(iv interface{}) interface{} {
+	if marked(iv) {
+		return ExprStatements{Statements: Statements{iv}}.Not()
+	}
+
 	switch v := iv.(type) {
 	case bool:
 		return !v
 	case INot:
 		return v.Not()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{v}}.Not()
 	}
 }
diff --git a/ast/ast_print.go b/ast/ast_print.go
index 6dd08f4..74ac52a 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -177,19 +177,17 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	case time.Time:
 		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))
 	case CallChainStatement:
-		not := IF[string](val.not, "Не ", "")
-		return not + p.printCallChainStatement(val)
+		return val.prefix() + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
 	case MethodStatement:
-		not := IF[string](val.not, "Не ", "")
-		return not + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
+		return val.prefix() + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
 	case VarStatement:
-		return val.Name
+		return val.prefix() + val.Name
 	case ItemStatement:
-		return p.printVarStatement(val.Object) + "[" + p.printExpression(val.Item, 0) + "]"
+		return val.prefix() + p.printVarStatement(val.Object) + "[" + p.printExpression(val.Item, 0) + "]"
 	case TernaryStatement:
-		return fmt.Sprintf("?(%s, %s, %s)", p.printExpression(val.Expression, 0), p.printExpression(val.TrueBlock, 0), p.printExpression(val.ElseBlock, 0))
+		return val.prefix() + fmt.Sprintf("?(%s, %s, %s)", p.printExpression(val.Expression, 0), p.printExpression(val.TrueBlock, 0), p.printExpression(val.ElseBlock, 0))
 	case NewObjectStatement:
 		return fmt.Sprintf("Новый %s(%s)", val.Constructor, p.printParams(val.Param.Statements))
 	case AssignmentStatement:
@@ -255,7 +253,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ThrowStatement:
 		builder.WriteString("ВызватьИсключение")
 		if v.Param != nil {
-			if param, ok := v.Param.(ExprStatements); ok {
+			if param, ok := v.Param.(ExprStatements); ok && !param.hasMark() {
 				builder.WriteString("(" + p.printParams(param.Statements) + ")")
 			} else {
 				builder.WriteString("(" + p.printParams(Statements{v.Param}) + ")")
@@ -346,8 +344,8 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 
 	switch v := expr.(type) {
 	case ExprStatements:
-		if v.not {
-			builder.WriteString("Не ")
+		if v.hasMark() {
+			builder.WriteString(v.prefix())
 			builder.WriteString("(")
 		}
 
@@ -355,7 +353,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-		if v.not {
+		if v.hasMark() {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
@@ -363,13 +361,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString("(")
 		}
 
-		if v.not {
-			builder.WriteString("Не ")
-		}
-		if v.unaryMinus {
-			builder.WriteString("-")
-		}
-
+		builder.WriteString(v.prefix())
 		if v.unaryMinus || v.not {
 			builder.WriteString("(")
 		}
@@ -387,14 +379,6 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		if level > 0 {
 			builder.WriteString(")")
 		}
-	case VarStatement:
-		if v.not {
-			builder.WriteString("Не ")
-		}
-		if v.unaryMinus {
-			builder.WriteString("-")
-		}
-		builder.WriteString(p.printVarStatement(v))
 	default:
 		builder.WriteString(p.printVarStatement(v))
 	}
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 913dec1..7dbf258 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -93,6 +93,21 @@ type addStatementField struct {
 	not        bool
 }
 
+// marked вернет true если к выражению уже применено отрицание или унарный минус
+func marked(stm interface{}) bool {
+	v, ok := stm.(interface{ hasMark() bool })
+	return ok && v.hasMark()
+}
+
+func (f addStatementField) hasMark() bool {
+	return f.unaryMinus || f.not
+}
+
+// prefix возвращает знаки, которые нужно вывести перед выражением
+func (f addStatementField) prefix() string {
+	return IF(f.not, "Не ", "") + IF(f.unaryMinus, "-", "")
+}
+
 type ExpStatement struct {
 	Left      interface{}
 	Right     interface{}
@@ -162,11 +177,13 @@ type TernaryStatement struct {
 	Expression Statement
 	TrueBlock  Statement
 	ElseBlock  Statement
+	addStatementField
 }
 
 type ItemStatement struct {
 	Item   Statement
 	Object Statement
+	addStatementField
 }
 
 type GoToStatement struct {
@@ -203,6 +220,11 @@ func (e *ExpStatement) Not() interface{} {
 	return e
 }
 
+func (e ExprStatements) UnaryMinus() interface{} {
+	e.unaryMinus = true
+	return e
+}
+
 func (e ExprStatements) Not() interface{} {
 	e.not = true
 	return e
@@ -234,11 +256,36 @@ func (e CallChainStatement) IsMethod() bool {
 	return ok
 }
 
+func (n MethodStatement) UnaryMinus() interface{} {
+	n.unaryMinus = true
+	return n
+}
+
 func (n MethodStatement) Not() interface{} {
 	n.not = true
 	return n
 }
 
+func (n ItemStatement) UnaryMinus() interface{} {
+	n.unaryMinus = true
+	return n
+}
+
+func (n ItemStatement) Not() interface{} {
+	n.not = true
+	return n
+}
+
+func (n TernaryStatement) UnaryMinus() interface{} {
+	n.unaryMinus = true
+	return n
+}
+
+func (n TernaryStatement) Not() interface{} {
+	n.not = true
+	return n
+}
+
 func (n NewObjectStatement) Params() ExprStatements {
 	return n.Param
 }
-- 
2.43.0


From 368f50709cb9a3a9cc2ecaaa8cb6218606b432df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 10/31] fix: print brackets around a negated operand of a
 stronger operation

---
 ast/ast_print.go  | 28 ++++++++++++++++++++++++++--
 ast/ast_struct.go |  4 ++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 74ac52a..781ee76 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -366,11 +366,11 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString("(")
 		}
 
-		builder.WriteString(p.printExpression(v.Left, level+1))
+		builder.WriteString(p.printOperand(v.Left, v.Operation, level+1))
 		builder.WriteString(" ")
 		builder.WriteString(v.Operation.String())
 		builder.WriteString(" ")
-		builder.WriteString(p.printExpression(v.Right, level+1))
+		builder.WriteString(p.printOperand(v.Right, v.Operation, level+1))
 
 		if v.unaryMinus || v.not {
 			builder.WriteString(")")
@@ -386,6 +386,30 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	return builder.String()
 }
 
+// printOperand берет в скобки операнд с отрицанием, если операция связывает сильнее чем Не
+func (p *astPrint) printOperand(operand Statement, operation OperationType, level int) string {
+	text := p.printExpression(operand, level)
+	if operation != OpAnd && operation != OpOr && isNegated(operand) {
+		return "(" + text + ")"
+	}
+
+	return text
+}
+
+// isNegated вернет true если вывод операнда начинается с Не (двоичные операции в операнде уже выводятся в скобках)
+func isNegated(operand Statement) bool {
+	switch v := operand.(type) {
+	case ExprStatements:
+		return v.not || !v.hasMark() && len(v.Statements) == 1 && isNegated(v.Statements[0])
+	case *ExpStatement:
+		return false
+	case interface{ isNot() bool }:
+		return v.isNot()
+	default:
+		return false
+	}
+}
+
 func (p *astPrint) printCallChainStatement(call Statement) string {
 	switch v := call.(type) {
 	case CallChainStatement:
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 7dbf258..dd18897 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -103,6 +103,10 @@ func (f addStatementField) hasMark() bool {
 	return f.unaryMinus || f.not
 }
 
+func (f addStatementField) isNot() bool {
+	return f.not
+}
+
 // prefix возвращает знаки, которые нужно вывести перед выражением
 func (f addStatementField) prefix() string {
 	return IF(f.not, "Не ", "") + IF(f.unaryMinus, "-", "")
-- 
2.43.0


From 6b367f4ba69c7a449b183a11acbaafe33066811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 11/31] fix: report a syntax error where the unexpected token
 starts

The column was computed by subtracting the literal length from the position
behind the token, which is wrong for strings, dates and labels.
---
 ast/ast.go    |  4 ++--
 ast/tokens.go | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index a043333..7f4d297 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -73,8 +73,8 @@ func (ast *AstNode) SrsCode() string {
 }
 
 func (ast *AstNode) Error(s string) {
-	pos := ast.currentToken.GetPosition()
-	pos.Column -= len([]rune(ast.currentToken.literal)) + 1
+	pos := ast.currentToken.positionAt(ast.currentToken.start)
+	pos.Column--
 
 	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
 }
diff --git a/ast/tokens.go b/ast/tokens.go
index 8ae885c..d09c906 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -27,6 +27,7 @@ type Token struct {
 	literal  string
 	position Position
 	offset   int
+	start    int // смещение первого символа токена
 	prevDot  bool
 }
 
@@ -124,6 +125,7 @@ func (t *Token) next() (int, string, error) {
 	t.skipSpace()
 	t.skipComment()
 	t.skipRegions()
+	t.start = t.offset
 
 	if t.prevDot {
 		defer func() { t.prevDot = false }()
@@ -368,13 +370,17 @@ func (t *Token) currentLet() rune {
 }
 
 func (t *Token) GetPosition() Position {
+	return t.positionAt(t.offset)
+}
+
+func (t *Token) positionAt(offset int) Position {
 	srsCode := t.ast.SrsCode()
-	eol := strings.LastIndex(srsCode[:t.offset], "\n") + 1
+	eol := strings.LastIndex(srsCode[:offset], "\n") + 1
 	lineBegin := IF[int](eol < 0, 0, eol)
 
 	return Position{
-		Line:   strings.Count(srsCode[:t.offset], "\n") + 1,
-		Column: len([]rune(srsCode[lineBegin:t.offset])) + 1,
+		Line:   strings.Count(srsCode[:offset], "\n") + 1,
+		Column: len([]rune(srsCode[lineBegin:offset])) + 1,
 	}
 }
 
-- 
2.43.0


From 23505262c1afac2cf1facf2c03d3bcba3ff8bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 12/31] fix: lower-case ASCII letters and survive invalid UTF-8
 in FastToLower

The ASCII branch lower-cased the next character, an invalid leading byte
looped forever, and a truncated sequence was read past the terminator.
---
 ast/fast_tolower/gowrap.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 1729e20..42f6263 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -7,6 +7,16 @@ package fast_tolower
 #include <stdint.h>
 #include <stdio.h> // for printf
 
+// isTail проверяет что за str следует count продолжающих байт UTF-8
+static int isTail(const char* str, int count) {
+    for (int i = 1; i <= count; i++) {
+        if ((str[i] & 0xC0) != 0x80) {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 void fastToLower(char* str) {
      for (int i = 0; str[i] != '\0';) {
         unsigned char byte = str[i];
@@ -15,24 +25,26 @@ void fastToLower(char* str) {
         if (byte <= 0x7F) {
             currentChar = byte; // Один байт (ASCII)
             i++;
-        } else if (byte >= 0xC0 && byte <= 0xDF) {
+        } else if (byte >= 0xC0 && byte <= 0xDF && isTail(str + i, 1)) {
             currentChar = (str[i] & 0x1F) << 6 | (str[i+1] & 0x3F);
             i += 2;
-        } else if (byte >= 0xE0 && byte <= 0xEF) {
+        } else if (byte >= 0xE0 && byte <= 0xEF && isTail(str + i, 2)) {
             currentChar = (str[i] & 0x0F) << 12 | (str[i+1] & 0x3F) << 6 | (str[i+2] & 0x3F);
             i += 3;
-        } else if (byte >= 0xF0 && byte <= 0xF7) {
+        } else if (byte >= 0xF0 && byte <= 0xF7 && isTail(str + i, 3)) {
             currentChar = (str[i] & 0x07) << 18 | (str[i+1] & 0x3F) << 12 | (str[i+2] & 0x3F) << 6 | (str[i+3] & 0x3F);
             i += 4;
+        } else {
+            i++; // некорректный UTF-8, байт остается как есть
         }
 
-		if (currentChar >= 'A' && currentChar <= 'Z') {
-			str[i-1] = tolower(str[i]);
-		} else if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
+		if (byte <= 0x7F && currentChar >= 'A' && currentChar <= 'Z') {
+			str[i-1] = tolower(currentChar);
+		} else if (byte <= 0xDF && currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
 			int codepoint = currentChar + 32;
 	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт
 			str[i-1] = 0x80 | (codepoint & 0x3F); // Младший байт
-		} else if (currentChar == 1025) { // Ё
+		} else if (byte <= 0xDF && currentChar == 1025) { // Ё
 			str[i-2] = 209;
 			str[i-1] = 145;
 		}
-- 
2.43.0


From f240bcd45cc9c0c37134390e7300d1f6d6a1c87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 13/31] fix: do not name the last routine as root of
 module-level statements in Walk

---
 ast/ast_struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index dd18897..3d991a3 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -382,7 +382,9 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 // }
 
 func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Statements, callBack fCallBack) {
+	enclosing := parent
 	for i, item := range statements {
+		parent = enclosing
 		switch v := item.(type) {
 		case *IfStatement:
 			walkHelper(parent, v, Statements{v.Expression}, callBack)
-- 
2.43.0


From e2230e4cf0e566707138a29bddfee7a96b65ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 14/31] fix: walk assigned and raised values, loop headers,
 brackets and indexes

Walk skipped the operands and calls written there.
---
 ast/ast_struct.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 3d991a3..07a077a 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -395,6 +395,14 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, v.Body, callBack)
 			walkHelper(parent, v, v.Catch, callBack)
 		case *LoopStatement:
+			if _, ok := v.For.(string); !ok && v.For != nil { // в Для Каждого это имя переменной
+				walkHelper(parent, v, Statements{v.For}, callBack)
+			}
+			for _, header := range (Statements{v.To, v.In, v.WhileExpr}) {
+				if header != nil {
+					walkHelper(parent, v, Statements{header}, callBack)
+				}
+			}
 			walkHelper(parent, v, v.Body, callBack)
 		case *FunctionOrProcedure:
 			walkHelper(v, v, v.Body, callBack)
@@ -412,6 +420,19 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, Statements{v.ElseBlock}, callBack)
 		case *ReturnStatement:
 			walkHelper(parent, v, Statements{v.Param}, callBack)
+		case ThrowStatement:
+			if v.Param != nil {
+				walkHelper(parent, v, Statements{v.Param}, callBack)
+			}
+		case AssignmentStatement:
+			walkHelper(parent, v, v.Expr.Statements, callBack)
+		case NewObjectStatement:
+			walkHelper(parent, v, v.Param.Statements, callBack)
+		case ItemStatement:
+			walkHelper(parent, v, Statements{v.Object}, callBack)
+			walkHelper(parent, v, Statements{v.Item}, callBack)
+		case ExprStatements:
+			walkHelper(parent, v, v.Statements, callBack)
 		}
 
 		callBack(parent, &parentStm, &statements[i])
-- 
2.43.0


From fed28f814af983e534b7f352c5d4f6c19157f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 15/31] fix: end a date literal at its closing quote

A string literal written right behind a date was read as part of the date.
---
 ast/tokens.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index d09c906..91011d1 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -279,12 +279,15 @@ eos:
 			return "", fmt.Errorf("unexpected EOF")
 		case cl == end:
 			// пропускаем двойные "
-			if t.nextLet() == '"' {
+			if end == '"' && t.nextLet() == '"' {
 				t.nextPos()
 				ret = append(ret, '"', '"')
 				continue
 			}
 			t.nextPos()
+			if end != '"' { // дата не продолжается следующей строкой
+				break eos
+			}
 			t.skipSpace()
 
 			// для случаев (в 1с такое допускается, считается одна строка)
-- 
2.43.0


From 106fc024aa9c29a7928535338ed07be7cbee451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 16/31] fix: reject a colon at the beginning of a block

---
 ast/ast.go    | 10 ++++++++++
 ast/grammar.y |  4 ++--
 ast/y.go      |  4 ++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 7f4d297..72c667c 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -109,6 +109,16 @@ func checkReturnParam(param Statement, yylex yyLexer) {
 	}
 }
 
+// endsWithLabel вернет true если последняя инструкция блока метка, только после нее может стоять двоеточие
+func endsWithLabel(body Statements) bool {
+	if len(body) == 0 {
+		return false
+	}
+
+	_, ok := body[len(body)-1].(*GoToLabelStatement)
+	return ok
+}
+
 func setLoopFlag(flag bool, yylex yyLexer) {
 	if ast, ok := yylex.(*AstNode); ok {
 		if flag {
diff --git a/ast/grammar.y b/ast/grammar.y
index eb1a2c2..2614d35 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -149,8 +149,8 @@ opt_body: { $$ = nil }
 
 body: stmt { $$ = Statements{$1}}
     | opt_body separator opt_stmt { 
-        if $2.literal == ":" && len($1) > 0 {
-            if _, ok := $1[len($1)-1].(*GoToLabelStatement); !ok {
+        if $2.literal == ":" {
+            if !endsWithLabel($1) {
                 yylex.Error("semicolon (;) is expected")
             }
         }
diff --git a/ast/y.go b/ast/y.go
index 0a37f7b..6955352 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -835,8 +835,8 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:151
 		{
-			if yyDollar[2].token.literal == ":" && len(yyDollar[1].opt_body) > 0 {
-				if _, ok := yyDollar[1].opt_body[len(yyDollar[1].opt_body)-1].(*GoToLabelStatement); !ok {
+			if yyDollar[2].token.literal == ":" {
+				if !endsWithLabel(yyDollar[1].opt_body) {
 					yylex.Error("semicolon (;) is expected")
 				}
 			}
-- 
2.43.0


From 42c2cb2297023cc4a6a08c06ee524f75ba4f62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 17/31] fix: do not crash on declarations behind a duplicate
 local variable

---
 ast/grammar.y | 12 ++++++------
 ast/y.go      | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 2614d35..183ac29 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -174,18 +174,18 @@ opt_explicit_variables: { $$ = map[string]VarStatement{} }
 ;
 
 explicit_variables: Var identifiers semicolon { 
-                    if vars, err := appendVarStatements(map[string]VarStatement{}, $2); err != nil {
+                    vars, err := appendVarStatements(map[string]VarStatement{}, $2)
+                    if err != nil {
                         yylex.Error(err.Error()) 
-                    } else {
-                        $$ = vars
                     }
+                    $$ = vars
                 }
             | explicit_variables Var identifiers semicolon {
-                    if vars, err := appendVarStatements($1, $3); err != nil {
+                    vars, err := appendVarStatements($1, $3)
+                    if err != nil {
                         yylex.Error(err.Error()) 
-                    } else {
-                        $$ = vars
                     }
+                    $$ = vars
                 }
 ;
 
diff --git a/ast/y.go b/ast/y.go
index 6955352..2e90747 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -884,21 +884,21 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:176
 		{
-			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
+			vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers)
+			if err != nil {
 				yylex.Error(err.Error())
-			} else {
-				yyVAL.explicit_variables = vars
 			}
+			yyVAL.explicit_variables = vars
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line .\grammar.y:183
 		{
-			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
+			vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers)
+			if err != nil {
 				yylex.Error(err.Error())
-			} else {
-				yyVAL.explicit_variables = vars
 			}
+			yyVAL.explicit_variables = vars
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-- 
2.43.0


From ff1d4cd1b5ec66da4c7e189e1a47a153bace9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 18/31] fix: print the brackets of a negated operation the same
 way on every pass

---
 ast/ast_print.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 781ee76..ff2432c 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -357,12 +357,13 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
-		if level > 0 {
+		// знак всегда снаружи скобок, так же как у выражения в скобках, иначе повторный вывод даст другой текст
+		builder.WriteString(v.prefix())
+		if v.unaryMinus || v.not {
 			builder.WriteString("(")
 		}
 
-		builder.WriteString(v.prefix())
-		if v.unaryMinus || v.not {
+		if level > 0 {
 			builder.WriteString("(")
 		}
 
@@ -396,13 +397,11 @@ func (p *astPrint) printOperand(operand Statement, operation OperationType, leve
 	return text
 }
 
-// isNegated вернет true если вывод операнда начинается с Не (двоичные операции в операнде уже выводятся в скобках)
+// isNegated вернет true если вывод операнда начинается с Не
 func isNegated(operand Statement) bool {
 	switch v := operand.(type) {
 	case ExprStatements:
 		return v.not || !v.hasMark() && len(v.Statements) == 1 && isNegated(v.Statements[0])
-	case *ExpStatement:
-		return false
 	case interface{ isNot() bool }:
 		return v.isNot()
 	default:
-- 
2.43.0


From d807d5ec3de61b56d3775ee156832d1ddfaa6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 19/31] fix: read a word behind a second dot as a name too

---
 ast/tokens.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 91011d1..42d03c8 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -127,16 +127,15 @@ func (t *Token) next() (int, string, error) {
 	t.skipRegions()
 	t.start = t.offset
 
-	if t.prevDot {
-		defer func() { t.prevDot = false }()
-	}
+	prevDot := t.prevDot
+	t.prevDot = false
 
 	switch let := t.currentLet(); {
 	case isLetter(let):
 		literal := t.scanIdentifier()
 		lowLit := fastToLower(literal)
 
-		if tName, ok := tokens[lowLit]; ok && !t.prevDot {
+		if tName, ok := tokens[lowLit]; ok && !prevDot {
 			return tName, literal, nil
 		} else {
 			return token_identifier, literal, nil
-- 
2.43.0


From 5e28f93e53ed56f4c2ccefc667151d5b4072e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 20/31] =?UTF-8?q?fix:=20collect=20=D0=98=D0=BD=D0=B0=D1=87?=
 =?UTF-8?q?=D0=B5=D0=95=D1=81=D0=BB=D0=B8=20branches=20in=20time=20linear?=
 =?UTF-8?q?=20in=20their=20number?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The list was built by putting each branch in front of a copy of the ones
behind it, so memory and time grew with the square of their number.
---
 ast/grammar.y |  10 +--
 ast/y.go      | 208 +++++++++++++++++++++++++-------------------------
 2 files changed, 110 insertions(+), 108 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 183ac29..fdd049b 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -202,11 +202,11 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
-        | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append(Statements{&IfStatement{
-                Expression: $2,
-                TrueBlock:  $4,
-            }}, $5...)
+        | opt_elseif_list ElseIf expr Then opt_body {
+             $$ = append($1, &IfStatement{
+                Expression: $3,
+                TrueBlock:  $5,
+            })
         };
 
 /* Иначе */
diff --git a/ast/y.go b/ast/y.go
index 2e90747..2d36e7a 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -182,99 +182,101 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 561
+const yyLast = 590
 
 var yyAct = [...]uint8{
-	71, 7, 122, 115, 7, 5, 148, 49, 196, 45,
-	19, 8, 22, 160, 24, 138, 161, 55, 73, 185,
-	75, 74, 142, 53, 116, 116, 70, 70, 141, 7,
-	93, 128, 70, 76, 82, 69, 72, 78, 80, 81,
-	66, 63, 67, 68, 64, 65, 91, 92, 95, 7,
-	55, 86, 116, 116, 61, 62, 56, 57, 58, 59,
-	60, 30, 140, 116, 116, 98, 177, 131, 100, 101,
-	102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
-	112, 179, 175, 44, 94, 113, 18, 41, 33, 32,
-	58, 59, 60, 41, 90, 4, 30, 44, 70, 170,
-	127, 36, 37, 39, 31, 38, 70, 130, 126, 165,
-	146, 35, 34, 52, 51, 153, 129, 42, 7, 89,
-	143, 114, 134, 133, 181, 116, 139, 70, 168, 123,
-	204, 135, 85, 83, 147, 151, 132, 7, 7, 31,
-	70, 99, 156, 157, 97, 210, 158, 152, 88, 154,
-	145, 56, 57, 58, 59, 60, 164, 40, 84, 166,
-	162, 169, 52, 51, 176, 198, 171, 140, 176, 7,
-	180, 52, 51, 7, 182, 51, 178, 163, 186, 159,
-	201, 77, 52, 51, 7, 7, 52, 51, 189, 192,
-	193, 187, 191, 188, 125, 190, 149, 7, 174, 200,
-	194, 205, 203, 7, 202, 43, 30, 208, 206, 139,
-	25, 124, 139, 209, 118, 26, 211, 51, 116, 52,
-	51, 13, 21, 137, 27, 44, 12, 28, 52, 51,
-	33, 32, 41, 52, 51, 15, 14, 173, 6, 52,
-	51, 54, 46, 36, 37, 39, 207, 38, 23, 31,
-	47, 2, 30, 35, 34, 136, 25, 172, 184, 121,
-	20, 26, 42, 195, 3, 1, 16, 13, 21, 50,
-	27, 44, 12, 28, 48, 11, 33, 32, 41, 197,
-	150, 15, 14, 87, 29, 96, 30, 167, 9, 36,
-	37, 39, 17, 38, 23, 31, 79, 10, 0, 35,
-	34, 0, 21, 0, 0, 44, 20, 0, 42, 0,
-	33, 32, 41, 0, 0, 0, 0, 0, 0, 30,
-	0, 0, 0, 36, 37, 39, 0, 38, 23, 31,
-	0, 0, 0, 35, 34, 21, 0, 0, 44, 0,
-	20, 0, 42, 33, 32, 41, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
-	38, 23, 31, 0, 0, 0, 35, 34, 0, 66,
-	63, 67, 68, 20, 65, 42, 66, 63, 67, 68,
-	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
-	61, 62, 56, 57, 58, 59, 60, 0, 0, 0,
-	199, 66, 63, 67, 68, 64, 65, 183, 116, 0,
-	0, 0, 0, 0, 0, 61, 62, 56, 57, 58,
-	59, 60, 0, 0, 0, 144, 0, 0, 0, 0,
+	71, 7, 115, 49, 7, 195, 19, 74, 122, 159,
+	8, 22, 138, 5, 24, 55, 53, 45, 160, 73,
+	184, 142, 141, 116, 75, 70, 70, 128, 116, 7,
+	116, 70, 76, 116, 116, 116, 78, 80, 81, 69,
+	72, 95, 82, 55, 86, 91, 92, 116, 18, 7,
+	56, 57, 58, 59, 60, 30, 93, 140, 90, 58,
+	59, 60, 44, 176, 98, 30, 41, 100, 101, 102,
+	103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
+	178, 41, 169, 89, 113, 174, 134, 164, 180, 140,
+	146, 143, 114, 203, 126, 44, 4, 70, 31, 127,
+	33, 32, 129, 99, 197, 70, 130, 123, 31, 152,
+	94, 42, 88, 36, 37, 39, 177, 38, 7, 167,
+	168, 52, 51, 35, 34, 139, 70, 51, 85, 83,
+	135, 133, 40, 147, 158, 150, 145, 7, 7, 70,
+	132, 125, 157, 52, 51, 97, 151, 52, 51, 153,
+	155, 156, 163, 209, 84, 124, 77, 161, 165, 52,
+	51, 118, 175, 6, 170, 137, 175, 46, 179, 7,
+	173, 54, 7, 121, 162, 52, 51, 200, 181, 136,
+	52, 51, 182, 188, 7, 185, 171, 186, 52, 51,
+	190, 189, 7, 193, 187, 206, 7, 192, 172, 183,
+	201, 194, 7, 51, 116, 199, 204, 139, 208, 202,
+	139, 210, 207, 43, 30, 205, 52, 51, 25, 47,
+	2, 3, 1, 26, 16, 50, 48, 11, 196, 13,
+	21, 149, 27, 44, 12, 28, 87, 29, 33, 32,
+	41, 96, 166, 15, 14, 148, 9, 17, 10, 0,
+	0, 36, 37, 39, 0, 38, 23, 31, 0, 0,
+	30, 35, 34, 0, 25, 0, 0, 0, 20, 26,
+	42, 0, 0, 0, 0, 13, 21, 0, 27, 44,
+	12, 28, 0, 0, 33, 32, 41, 0, 0, 15,
+	14, 0, 0, 0, 30, 0, 0, 36, 37, 39,
+	0, 38, 23, 31, 79, 0, 0, 35, 34, 0,
+	21, 0, 0, 44, 20, 0, 42, 0, 33, 32,
+	41, 0, 0, 0, 0, 0, 0, 30, 0, 0,
+	0, 36, 37, 39, 0, 38, 23, 31, 0, 0,
+	0, 35, 34, 21, 0, 0, 44, 0, 20, 0,
+	42, 33, 32, 41, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 36, 37, 39, 0, 38, 23,
+	31, 0, 0, 0, 35, 34, 0, 66, 63, 67,
+	68, 20, 65, 42, 66, 63, 67, 68, 64, 65,
+	0, 61, 62, 56, 57, 58, 59, 60, 61, 62,
+	56, 57, 58, 59, 60, 66, 63, 67, 68, 64,
+	65, 131, 0, 0, 0, 0, 0, 0, 0, 61,
+	62, 56, 57, 58, 59, 60, 0, 0, 0, 198,
+	66, 63, 67, 68, 64, 65, 191, 116, 0, 0,
+	0, 0, 0, 0, 61, 62, 56, 57, 58, 59,
+	60, 0, 0, 0, 144, 0, 0, 0, 0, 0,
+	0, 0, 66, 63, 67, 68, 64, 65, 0, 0,
+	66, 63, 67, 68, 64, 65, 61, 62, 56, 57,
+	58, 59, 60, 154, 61, 62, 56, 57, 58, 59,
+	60, 120, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 66, 63, 67, 68, 64, 65, 117, 0, 66,
+	63, 67, 68, 64, 65, 61, 62, 56, 57, 58,
+	59, 60, 119, 61, 62, 56, 57, 58, 59, 60,
 	0, 0, 0, 66, 63, 67, 68, 64, 65, 0,
 	0, 66, 63, 67, 68, 64, 65, 61, 62, 56,
-	57, 58, 59, 60, 155, 61, 62, 56, 57, 58,
-	59, 60, 120, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 66, 63, 67, 68, 64, 65, 117, 0,
-	66, 63, 67, 68, 64, 65, 61, 62, 56, 57,
-	58, 59, 60, 119, 61, 62, 56, 57, 58, 59,
-	60, 0, 0, 0, 66, 63, 67, 68, 64, 65,
-	0, 0, 66, 63, 67, 68, 64, 65, 61, 62,
-	56, 57, 58, 59, 60, 0, 61, 62, 56, 57,
-	58, 59, 60, 66, 63, 67, 68, 64, 65, 0,
-	66, 63, 67, 68, 0, 0, 0, 61, 62, 56,
-	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60,
+	57, 58, 59, 60, 0, 61, 62, 56, 57, 58,
+	59, 60, 66, 63, 67, 68, 64, 65, 0, 66,
+	63, 67, 68, 0, 0, 0, 61, 62, 56, 57,
+	58, 59, 60, 61, 62, 56, 57, 58, 59, 60,
 }
 
 var yyPact = [...]int16{
-	198, -1000, -1000, 198, -1000, 224, -1000, -17, 494, -1000,
-	-1000, -1000, -1000, -1000, 311, 311, -1000, -1000, -47, -1000,
-	311, 311, -1000, 70, -1000, 311, 278, 311, 244, 123,
-	-11, 86, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
-	-1000, 22, -14, -1000, -1000, 224, -1000, -1000, 244, -1000,
-	-1000, -1000, -1000, 311, 88, -1000, 311, 311, 311, 311,
-	311, 311, 311, 311, 311, 311, 311, 311, 311, -1000,
-	494, -50, -1000, 311, 58, -1000, 501, -1000, 465, 206,
-	473, 441, 229, 121, 203, 186, 311, -1000, 311, -1000,
-	-1000, -1000, -1000, -31, 311, 311, -1000, -1000, 494, -47,
-	33, 33, -1000, -1000, -1000, 96, 96, 96, 330, 501,
-	96, 96, 96, 1, -1000, 311, -1000, 244, 103, 311,
-	-1000, -1000, 119, -1000, -34, -40, 57, 362, 311, 47,
-	402, -1000, -1000, 182, 53, 433, 244, 244, 170, 171,
-	-1000, 152, 152, -1000, -1000, 46, -1000, 311, 113, 311,
-	78, -50, -1000, 59, -1000, -1000, 215, 167, -1000, -1000,
-	19, 26, -1000, 168, 18, -1000, 402, 108, 244, 394,
-	-1000, -44, 244, -1000, -1000, 14, 152, 56, -1000, 14,
-	311, -1000, 224, 244, 244, -1000, 178, -1000, 26, -1000,
-	155, 337, 182, 158, -1000, 155, 244, 120, 121, -1000,
-	-1000, -1000, 244, 235, 121, 212, 109, -1000, 212, -1000,
-	-1000, -1000,
+	206, -1000, -1000, 206, -1000, 212, -1000, -24, 523, -1000,
+	-1000, -1000, -1000, -1000, 319, 319, -1000, -1000, -46, -1000,
+	319, 319, -1000, 35, -1000, 319, 286, 319, 252, 119,
+	-18, 50, -1000, -1000, 319, 319, -1000, -1000, -1000, -1000,
+	-1000, 48, -21, -1000, -1000, 212, -1000, -1000, 252, -1000,
+	-1000, -1000, -1000, 319, 57, -1000, 319, 319, 319, 319,
+	319, 319, 319, 319, 319, 319, 319, 319, 319, -1000,
+	523, -52, -1000, 319, 29, -1000, 530, -1000, 494, 153,
+	502, 470, 143, 99, 147, 133, 319, -1000, 319, -1000,
+	-1000, -1000, -1000, -35, 319, 319, -1000, -1000, 523, -46,
+	2, 2, -1000, -1000, -1000, -5, -5, -5, 338, 530,
+	-5, -5, -5, 345, -1000, 319, -1000, 252, 67, 319,
+	-1000, -1000, 41, -1000, -40, -41, 28, 391, 319, 27,
+	431, -1000, -1000, 212, 47, 462, 252, 252, 122, 126,
+	-1000, 149, 149, -1000, -1000, 24, -1000, 319, 105, 61,
+	-52, -1000, 32, -1000, -1000, 176, 139, -1000, -1000, 22,
+	23, -1000, 108, 17, -1000, 431, 72, 319, 252, -1000,
+	-43, 252, -1000, -1000, 9, 149, 68, -1000, 9, 319,
+	-1000, 423, 212, 252, -1000, 171, -1000, 23, -1000, 94,
+	366, 252, 155, -1000, 94, 252, 83, 99, -1000, 212,
+	-1000, 252, 184, 99, 198, 117, -1000, 198, -1000, -1000,
+	-1000,
 }
 
-var yyPgo = [...]int16{
-	0, 250, 5, 95, 297, 292, 288, 6, 287, 285,
-	21, 11, 15, 284, 10, 13, 16, 20, 283, 0,
-	280, 12, 14, 8, 279, 2, 275, 86, 157, 274,
-	7, 269, 266, 3, 265, 264, 238, 263, 258, 257,
-	255, 241, 223,
+var yyPgo = [...]uint8{
+	0, 219, 13, 96, 248, 247, 246, 245, 242, 241,
+	7, 10, 12, 237, 6, 9, 18, 24, 236, 0,
+	231, 11, 14, 5, 228, 8, 227, 48, 132, 226,
+	3, 225, 224, 2, 222, 221, 163, 201, 199, 186,
+	179, 171, 165,
 }
 
 var yyR1 = [...]int8{
@@ -322,14 +324,14 @@ var yyChk = [...]int16{
 	-11, -11, -11, -11, 63, -33, 6, 13, 8, 20,
 	21, 30, -25, 8, 8, 8, -10, -11, 62, -10,
 	-11, 66, -17, -2, 19, -11, -40, -42, -12, -33,
-	48, 62, 62, 63, 63, -10, 63, -33, -7, 14,
-	-20, -19, -21, 62, -22, 21, -2, -2, -30, 8,
-	-15, -16, 8, 25, -15, 63, -11, -8, 15, -11,
-	21, -21, -39, 22, 31, 63, -33, 40, 8, 63,
-	-33, 16, -2, 13, -38, 63, -2, -12, -16, -14,
-	-12, -11, -2, -2, 22, -37, -23, -24, 10, 63,
-	-7, 22, -23, -2, 10, -25, -2, 11, -25, -30,
-	36, -30,
+	48, 62, 62, 63, 63, -10, 63, -33, -7, -20,
+	-19, -21, 62, -22, 21, -2, -2, -30, 8, -15,
+	-16, 8, 25, -15, 63, -11, -8, 14, 15, 21,
+	-21, -39, 22, 31, 63, -33, 40, 8, 63, -33,
+	16, -11, -2, -38, 63, -2, -12, -16, -14, -12,
+	-11, 13, -2, 22, -37, -23, -24, 10, 63, -2,
+	22, -23, -2, 10, -25, -2, 11, -25, -30, 36,
+	-30,
 }
 
 var yyDef = [...]int8{
@@ -348,13 +350,13 @@ var yyDef = [...]int8{
 	38, 62, 10, 107, 0, 0, 0, 0, 84, 0,
 	0, 57, 87, 29, 0, 0, 16, 16, 0, 0,
 	11, 100, 100, 56, 59, 0, 105, 0, 31, 0,
-	0, 40, 41, 0, 43, 36, 0, 0, 12, 108,
-	0, 101, 97, 0, 0, 104, 0, 0, 16, 0,
-	34, 0, 16, 39, 63, 10, 0, 0, 98, 10,
-	0, 28, 32, 16, 16, 42, 0, 13, 102, 99,
-	24, 0, 29, 0, 37, 24, 16, 25, 0, 33,
-	30, 35, 16, 0, 0, 0, 0, 15, 0, 26,
-	14, 27,
+	40, 41, 0, 43, 36, 0, 0, 12, 108, 0,
+	101, 97, 0, 0, 104, 0, 0, 0, 16, 34,
+	0, 16, 39, 63, 10, 0, 0, 98, 10, 0,
+	28, 0, 32, 16, 42, 0, 13, 102, 99, 24,
+	0, 16, 0, 37, 24, 16, 25, 0, 33, 30,
+	35, 16, 0, 0, 0, 0, 15, 0, 26, 14,
+	27,
 }
 
 var yyTok1 = [...]int8{
@@ -921,10 +923,10 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:205
 		{
-			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
-				Expression: yyDollar[2].stmt,
-				TrueBlock:  yyDollar[4].opt_body,
-			}}, yyDollar[5].opt_elseif_list...)
+			yyVAL.opt_elseif_list = append(yyDollar[1].opt_elseif_list, &IfStatement{
+				Expression: yyDollar[3].stmt,
+				TrueBlock:  yyDollar[5].opt_body,
+			})
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-- 
2.43.0


From 9a3c29f3090a6eb1971f8cd4cc6b2db18e13ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 21/31] fix: skip runs of comment and region lines in a loop

Each line took a stack frame of its own, so a text with some 40 million of
them in a row ended in a stack overflow that cannot be recovered from.
---
 ast/tokens.go | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 42d03c8..f76c45a 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -313,37 +313,23 @@ func (t *Token) skipSpace() {
 
 func (t *Token) skipComment() {
 	if t.currentLet() == '/' && t.nextLet() == '/' {
-		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
-			t.nextPos()
-		}
-		t.skipSpace()
-	} else {
-		return
-	}
-
-	// проверяем что на новой строке нет комментария или новой области, если есть, рекурсия
-	if cl := t.currentLet(); cl == '/' {
-		t.skipComment()
-	} else if cl := t.currentLet(); cl == '#' {
-		t.skipRegions()
+		t.skipLines()
 	}
 }
 
 func (t *Token) skipRegions() {
 	// todo пока будут пропускаться и условия типа #Если Не ВебКлиент Тогда, потом надо будет доработать
-	if t.currentLet() == '#' {
+	t.skipLines()
+}
+
+// skipLines пропускает идущие подряд строки комментариев и областей, циклом, что бы не зависеть от их количества
+func (t *Token) skipLines() {
+	for cl := t.currentLet(); cl == '#' || cl == '/' && t.nextLet() == '/'; cl = t.currentLet() {
 		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
 			t.nextPos()
 		}
 		t.skipSpace()
 	}
-
-	// проверяем что на новой строке нет комментария или новой области, если есть, рекурсия
-	if cl := t.currentLet(); cl == '/' {
-		t.skipComment()
-	} else if cl := t.currentLet(); cl == '#' {
-		t.skipRegions()
-	}
 }
 
 func (t *Token) nextLet() rune {
-- 
2.43.0


From 831eb548370a6819eccfa33b3f0727cc03527295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 22/31] fix: print the mark of a call chain that stands as a
 statement

---
 ast/ast_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index ff2432c..1a92085 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -244,7 +244,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ContinueStatement:
 		builder.WriteString("Продолжить;")
 	case CallChainStatement:
-		builder.WriteString(p.printCallChainStatement(v))
+		builder.WriteString(p.printVarStatement(v))
 		builder.WriteString(";")
 	case TryStatement:
 		builder.WriteString(p.printTryStatement(v, depth))
-- 
2.43.0


From 34a2df7e10ac59b0fd01392be96b952ad9493cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 23/31] fix: print a routine that is printed on its own

---
 ast/ast_print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 1a92085..7e2dad0 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -228,6 +228,8 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	builder.WriteString(spaces)
 
 	switch v := item.(type) {
+	case *FunctionOrProcedure:
+		builder.WriteString(p.printFunctionOrProcedure(v))
 	case *IfStatement:
 		builder.WriteString(p.printIfStatement(v, depth))
 		builder.WriteString(";")
-- 
2.43.0


From bccd0290ac7b6e423b639ccd0ec9564c4d6ed00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 24/31] fix: let U+FFFD in a text pass without a note of a
 decoding error

---
 ast/tokens.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index f76c45a..272a778 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -348,8 +348,8 @@ func (t *Token) currentLet() rune {
 		return EOF
 	}
 
-	char, _ := utf8.DecodeRuneInString(srsCode[t.offset:])
-	if char == utf8.RuneError {
+	char, size := utf8.DecodeRuneInString(srsCode[t.offset:])
+	if char == utf8.RuneError && size <= 1 { // сам символ U+FFFD в тексте допустим
 		fmt.Println(fmt.Errorf("error decoding the character"))
 		return char
 	}
-- 
2.43.0


From 36bb3a7d819b29a47ed7bdc7269af9ad8b99f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 25/31] fix: start every Parse anew

---
 ast/ast.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ast/ast.go b/ast/ast.go
index 72c667c..b25a9f2 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -35,6 +35,8 @@ func NewAST(code string) *AstNode {
 }
 
 func (ast *AstNode) Parse() error {
+	ast.reset()
+
 	if len(strings.TrimSpace(ast.code)) == 0 {
 		return nil
 	}
@@ -46,6 +48,17 @@ func (ast *AstNode) Parse() error {
 	return ast.err
 }
 
+// reset убирает следы предыдущего разбора, что бы повторный вызов Parse дал тот же результат
+func (ast *AstNode) reset() {
+	ast.err = nil
+	ast.GlobalVariables = nil
+	ast.Body = nil
+	ast.currentToken = Token{}
+	ast.isLoop.Store(0)
+	ast.isTry.Store(0)
+	ast.isFunction = false
+}
+
 func (ast *AstNode) JSON() ([]byte, error) {
 	return json.Marshal(&ast.ModuleStatement)
 }
-- 
2.43.0


From 5f27499888036566d2ffccff6267c9aff2f63dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:54 +0000
Subject: [PATCH 26/31] fix: do not go on parsing behind a token that cannot be
 read

---
 ast/ast.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index b25a9f2..d7458da 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -20,10 +20,13 @@ type AstNode struct {
 	isLoop       atomic.Int32
 	isTry        atomic.Int32
 	isFunction   bool
-	mode         int // StmtStart или Expr
+	isUnread     bool // встретился токен, который не удалось прочитать
+	mode         int  // StmtStart или Expr
 }
 
 const EOF = -1 // end of file
+
+const unknownToken = 1 // такого токена нет в грамматике
 var (
 	errVariableAlreadyDefined = fmt.Errorf("variable has already been defined")
 )
@@ -57,6 +60,7 @@ func (ast *AstNode) reset() {
 	ast.isLoop.Store(0)
 	ast.isTry.Store(0)
 	ast.isFunction = false
+	ast.isUnread = false
 }
 
 func (ast *AstNode) JSON() ([]byte, error) {
@@ -70,7 +74,10 @@ func (ast *AstNode) Lex(lval *yySymType) int {
 
 	token, err := lval.token.Next(ast)
 	if err != nil {
-		ast.err = errors.Wrap(err, "get token error")
+		if !ast.isUnread {
+			ast.err = errors.Wrap(err, "get token error")
+		}
+		ast.isUnread = true
 		return EOF
 	}
 	if token == EOF {
@@ -78,6 +85,10 @@ func (ast *AstNode) Lex(lval *yySymType) int {
 	}
 
 	ast.currentToken = lval.token
+	if ast.isUnread { // yacc просит токен и после ошибки, но продолжать разбор за ней нельзя
+		return unknownToken
+	}
+
 	return token
 }
 
-- 
2.43.0


From 09444c212d497bb46713d296e29820d72bab13ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 27/31] fix: print expressions held by value or by pointer
 without endless recursion

---
 ast/ast_print.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 7e2dad0..df6ac2e 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -345,6 +345,10 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	builder := &strings.Builder{}
 
 	switch v := expr.(type) {
+	case *ExprStatements:
+		return p.printExpression(*v, level)
+	case ExpStatement:
+		return p.printExpression(&v, level)
 	case ExprStatements:
 		if v.hasMark() {
 			builder.WriteString(v.prefix())
@@ -402,6 +406,8 @@ func (p *astPrint) printOperand(operand Statement, operation OperationType, leve
 // isNegated вернет true если вывод операнда начинается с Не
 func isNegated(operand Statement) bool {
 	switch v := operand.(type) {
+	case *ExprStatements:
+		return isNegated(*v)
 	case ExprStatements:
 		return v.not || !v.hasMark() && len(v.Statements) == 1 && isNegated(v.Statements[0])
 	case interface{ isNot() bool }:
-- 
2.43.0


From 9f8a2669852814aa39600009d1d5ee5263715857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 28/31] fix: take as blank only what the scanner skips

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index d7458da..dad60f7 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -40,7 +40,7 @@ func NewAST(code string) *AstNode {
 func (ast *AstNode) Parse() error {
 	ast.reset()
 
-	if len(strings.TrimSpace(ast.code)) == 0 {
+	if len(strings.TrimFunc(ast.code, isSpace)) == 0 {
 		return nil
 	}
 
-- 
2.43.0


From 000e506e007b6861a91e1ffd51d6b804efbf3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 29/31] =?UTF-8?q?fix:=20read=20the=20start=20value=20of=20?=
 =?UTF-8?q?a=20=D0=94=D0=BB=D1=8F=20loop=20as=20one=20expression?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/grammar.y |   8 +-
 ast/y.go      | 209 +++++++++++++++++++++++++-------------------------
 2 files changed, 107 insertions(+), 110 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index fdd049b..773afe3 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -231,11 +231,11 @@ stmt_loop: For Each token_identifier In loopExp Loop { setLoopFlag(true, yylex)
         }
         setLoopFlag(false, yylex) 
     } 
-    | For expr To expr Loop { setLoopFlag(true, yylex) } opt_body EndLoop {
+    | For token_identifier EQUAL expr To expr Loop { setLoopFlag(true, yylex) } opt_body EndLoop {
         $$ = &LoopStatement{
-            For: $2,
-            To: $4,
-            Body: $7,
+            For: &ExpStatement{Operation: OpEq, Left: VarStatement{ Name: $2.literal }, Right: $4 },
+            To: $6,
+            Body: $9,
         }
         setLoopFlag(false, yylex)
     }
diff --git a/ast/y.go b/ast/y.go
index 2d36e7a..a526fd8 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -182,101 +182,98 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 590
+const yyLast = 551
 
 var yyAct = [...]uint8{
-	71, 7, 115, 49, 7, 195, 19, 74, 122, 159,
-	8, 22, 138, 5, 24, 55, 53, 45, 160, 73,
-	184, 142, 141, 116, 75, 70, 70, 128, 116, 7,
-	116, 70, 76, 116, 116, 116, 78, 80, 81, 69,
-	72, 95, 82, 55, 86, 91, 92, 116, 18, 7,
-	56, 57, 58, 59, 60, 30, 93, 140, 90, 58,
-	59, 60, 44, 176, 98, 30, 41, 100, 101, 102,
-	103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
-	178, 41, 169, 89, 113, 174, 134, 164, 180, 140,
-	146, 143, 114, 203, 126, 44, 4, 70, 31, 127,
-	33, 32, 129, 99, 197, 70, 130, 123, 31, 152,
-	94, 42, 88, 36, 37, 39, 177, 38, 7, 167,
-	168, 52, 51, 35, 34, 139, 70, 51, 85, 83,
-	135, 133, 40, 147, 158, 150, 145, 7, 7, 70,
-	132, 125, 157, 52, 51, 97, 151, 52, 51, 153,
-	155, 156, 163, 209, 84, 124, 77, 161, 165, 52,
-	51, 118, 175, 6, 170, 137, 175, 46, 179, 7,
-	173, 54, 7, 121, 162, 52, 51, 200, 181, 136,
-	52, 51, 182, 188, 7, 185, 171, 186, 52, 51,
-	190, 189, 7, 193, 187, 206, 7, 192, 172, 183,
-	201, 194, 7, 51, 116, 199, 204, 139, 208, 202,
-	139, 210, 207, 43, 30, 205, 52, 51, 25, 47,
-	2, 3, 1, 26, 16, 50, 48, 11, 196, 13,
-	21, 149, 27, 44, 12, 28, 87, 29, 33, 32,
-	41, 96, 166, 15, 14, 148, 9, 17, 10, 0,
+	115, 71, 7, 122, 138, 7, 8, 49, 195, 22,
+	19, 74, 160, 159, 24, 5, 53, 55, 73, 45,
+	116, 70, 70, 184, 116, 116, 116, 70, 76, 116,
+	7, 75, 78, 30, 81, 116, 142, 66, 63, 67,
+	68, 91, 92, 55, 82, 93, 69, 72, 141, 128,
+	7, 61, 62, 56, 57, 58, 59, 60, 95, 41,
+	98, 86, 176, 100, 101, 102, 103, 104, 105, 106,
+	107, 108, 109, 110, 111, 112, 31, 178, 116, 18,
+	113, 174, 164, 146, 30, 44, 143, 152, 4, 42,
+	33, 32, 114, 70, 140, 127, 90, 119, 126, 94,
+	41, 70, 130, 36, 37, 39, 129, 38, 56, 57,
+	58, 59, 60, 35, 34, 161, 58, 59, 60, 7,
+	140, 89, 70, 139, 44, 169, 135, 31, 134, 85,
+	83, 147, 162, 133, 99, 70, 150, 97, 7, 7,
+	145, 52, 51, 180, 151, 40, 157, 132, 204, 153,
+	88, 197, 155, 156, 165, 84, 163, 52, 51, 123,
+	175, 171, 170, 177, 175, 158, 179, 52, 51, 77,
+	7, 52, 51, 211, 181, 206, 52, 51, 125, 186,
+	52, 51, 80, 189, 182, 7, 190, 188, 187, 200,
+	124, 118, 79, 7, 173, 7, 51, 7, 172, 192,
+	137, 205, 121, 202, 7, 54, 139, 199, 209, 201,
+	139, 203, 6, 210, 43, 30, 46, 212, 207, 25,
+	167, 168, 52, 51, 26, 51, 116, 52, 51, 208,
+	13, 21, 136, 27, 44, 12, 28, 47, 2, 33,
+	32, 41, 193, 183, 15, 14, 194, 3, 1, 16,
+	50, 48, 36, 37, 39, 11, 38, 23, 31, 196,
+	149, 30, 35, 34, 87, 25, 29, 96, 166, 20,
+	26, 42, 148, 9, 17, 10, 13, 21, 0, 27,
+	44, 12, 28, 0, 0, 33, 32, 41, 0, 0,
+	15, 14, 0, 0, 30, 0, 0, 0, 36, 37,
+	39, 0, 38, 23, 31, 0, 0, 0, 35, 34,
+	21, 0, 0, 44, 0, 20, 0, 42, 33, 32,
+	41, 0, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 36, 37, 39, 0, 38, 23, 31, 0, 0,
-	30, 35, 34, 0, 25, 0, 0, 0, 20, 26,
-	42, 0, 0, 0, 0, 13, 21, 0, 27, 44,
-	12, 28, 0, 0, 33, 32, 41, 0, 0, 15,
-	14, 0, 0, 0, 30, 0, 0, 36, 37, 39,
-	0, 38, 23, 31, 79, 0, 0, 35, 34, 0,
-	21, 0, 0, 44, 20, 0, 42, 0, 33, 32,
-	41, 0, 0, 0, 0, 0, 0, 30, 0, 0,
-	0, 36, 37, 39, 0, 38, 23, 31, 0, 0,
-	0, 35, 34, 21, 0, 0, 44, 0, 20, 0,
-	42, 33, 32, 41, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 36, 37, 39, 0, 38, 23,
-	31, 0, 0, 0, 35, 34, 0, 66, 63, 67,
-	68, 20, 65, 42, 66, 63, 67, 68, 64, 65,
-	0, 61, 62, 56, 57, 58, 59, 60, 61, 62,
-	56, 57, 58, 59, 60, 66, 63, 67, 68, 64,
-	65, 131, 0, 0, 0, 0, 0, 0, 0, 61,
-	62, 56, 57, 58, 59, 60, 0, 0, 0, 198,
-	66, 63, 67, 68, 64, 65, 191, 116, 0, 0,
-	0, 0, 0, 0, 61, 62, 56, 57, 58, 59,
-	60, 0, 0, 0, 144, 0, 0, 0, 0, 0,
-	0, 0, 66, 63, 67, 68, 64, 65, 0, 0,
-	66, 63, 67, 68, 64, 65, 61, 62, 56, 57,
-	58, 59, 60, 154, 61, 62, 56, 57, 58, 59,
-	60, 120, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 66, 63, 67, 68, 64, 65, 117, 0, 66,
-	63, 67, 68, 64, 65, 61, 62, 56, 57, 58,
-	59, 60, 119, 61, 62, 56, 57, 58, 59, 60,
-	0, 0, 0, 66, 63, 67, 68, 64, 65, 0,
-	0, 66, 63, 67, 68, 64, 65, 61, 62, 56,
-	57, 58, 59, 60, 0, 61, 62, 56, 57, 58,
-	59, 60, 66, 63, 67, 68, 64, 65, 0, 66,
-	63, 67, 68, 0, 0, 0, 61, 62, 56, 57,
+	0, 35, 34, 0, 66, 63, 67, 68, 20, 65,
+	42, 66, 63, 67, 68, 64, 65, 0, 61, 62,
+	56, 57, 58, 59, 60, 61, 62, 56, 57, 58,
+	59, 60, 66, 63, 67, 68, 64, 65, 131, 0,
+	0, 0, 0, 0, 0, 0, 61, 62, 56, 57,
+	58, 59, 60, 0, 0, 0, 198, 66, 63, 67,
+	68, 64, 65, 191, 185, 0, 0, 0, 0, 0,
+	0, 61, 62, 56, 57, 58, 59, 60, 116, 0,
+	0, 144, 66, 63, 67, 68, 64, 65, 0, 66,
+	63, 67, 68, 64, 65, 0, 61, 62, 56, 57,
 	58, 59, 60, 61, 62, 56, 57, 58, 59, 60,
+	0, 66, 63, 67, 68, 64, 65, 154, 0, 0,
+	0, 0, 0, 0, 0, 61, 62, 56, 57, 58,
+	59, 60, 0, 0, 0, 0, 66, 63, 67, 68,
+	64, 65, 120, 0, 0, 0, 0, 0, 0, 0,
+	61, 62, 56, 57, 58, 59, 60, 117, 0, 0,
+	66, 63, 67, 68, 64, 65, 0, 0, 0, 0,
+	0, 0, 0, 0, 61, 62, 56, 57, 58, 59,
+	60, 0, 0, 66, 63, 67, 68, 64, 65, 0,
+	66, 63, 67, 68, 64, 65, 0, 61, 62, 56,
+	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
+	60,
 }
 
 var yyPact = [...]int16{
-	206, -1000, -1000, 206, -1000, 212, -1000, -24, 523, -1000,
-	-1000, -1000, -1000, -1000, 319, 319, -1000, -1000, -46, -1000,
-	319, 319, -1000, 35, -1000, 319, 286, 319, 252, 119,
-	-18, 50, -1000, -1000, 319, 319, -1000, -1000, -1000, -1000,
-	-1000, 48, -21, -1000, -1000, 212, -1000, -1000, 252, -1000,
-	-1000, -1000, -1000, 319, 57, -1000, 319, 319, 319, 319,
-	319, 319, 319, 319, 319, 319, 319, 319, 319, -1000,
-	523, -52, -1000, 319, 29, -1000, 530, -1000, 494, 153,
-	502, 470, 143, 99, 147, 133, 319, -1000, 319, -1000,
-	-1000, -1000, -1000, -35, 319, 319, -1000, -1000, 523, -46,
-	2, 2, -1000, -1000, -1000, -5, -5, -5, 338, 530,
-	-5, -5, -5, 345, -1000, 319, -1000, 252, 67, 319,
-	-1000, -1000, 41, -1000, -40, -41, 28, 391, 319, 27,
-	431, -1000, -1000, 212, 47, 462, 252, 252, 122, 126,
-	-1000, 149, 149, -1000, -1000, 24, -1000, 319, 105, 61,
-	-52, -1000, 32, -1000, -1000, 176, 139, -1000, -1000, 22,
-	23, -1000, 108, 17, -1000, 431, 72, 319, 252, -1000,
-	-43, 252, -1000, -1000, 9, 149, 68, -1000, 9, 319,
-	-1000, 423, 212, 252, -1000, 171, -1000, 23, -1000, 94,
-	366, 252, 155, -1000, 94, 252, 83, 99, -1000, 212,
-	-1000, 252, 184, 99, 198, 117, -1000, 198, -1000, -1000,
-	-1000,
+	207, -1000, -1000, 207, -1000, 223, -1000, -24, 491, -1000,
+	-1000, -1000, -1000, -1000, 286, 286, -1000, -1000, -47, -1000,
+	286, 286, -1000, 97, -1000, 286, 174, 286, 253, 120,
+	-1, 88, -1000, -1000, 286, 286, -1000, -1000, -1000, -1000,
+	-1000, 37, -4, -1000, -1000, 223, -1000, -1000, 253, -1000,
+	-1000, -1000, -1000, 286, 76, -1000, 286, 286, 286, 286,
+	286, 286, 286, 286, 286, 286, 286, 286, 286, -1000,
+	491, -50, -1000, 286, 29, -1000, -2, -1000, 484, 183,
+	57, 461, 172, 151, 182, 170, 286, -1000, 286, -1000,
+	-1000, -1000, -1000, -13, 286, 286, -1000, -1000, 491, -47,
+	59, 59, -1000, -1000, -1000, 53, 53, 53, 305, -2,
+	53, 53, 53, 312, -1000, 286, -1000, 253, 109, 286,
+	-1000, -1000, 72, -1000, -14, -26, 23, 358, 286, 20,
+	412, -1000, -1000, 223, 25, 437, 253, 253, 191, 157,
+	-1000, 107, 107, -1000, -1000, 19, -1000, 286, 206, 104,
+	-50, -1000, 66, -1000, 286, 176, 163, -1000, -1000, 18,
+	22, -1000, 155, 14, -1000, 412, 127, 286, 253, -1000,
+	-40, 383, -1000, -1000, 46, 107, 58, -1000, 46, 286,
+	-1000, 390, 223, 253, -1000, -1000, -1000, 22, -1000, 141,
+	333, 253, 167, 253, 141, 253, 138, 151, -1000, 223,
+	-1000, 153, 253, 218, 151, 220, -1000, 137, -1000, 220,
+	-1000, -1000, -1000,
 }
 
-var yyPgo = [...]uint8{
-	0, 219, 13, 96, 248, 247, 246, 245, 242, 241,
-	7, 10, 12, 237, 6, 9, 18, 24, 236, 0,
-	231, 11, 14, 5, 228, 8, 227, 48, 132, 226,
-	3, 225, 224, 2, 222, 221, 163, 201, 199, 186,
-	179, 171, 165,
+var yyPgo = [...]int16{
+	0, 237, 15, 88, 275, 274, 273, 272, 268, 267,
+	11, 6, 4, 266, 10, 13, 12, 31, 264, 1,
+	260, 9, 14, 8, 259, 3, 255, 79, 145, 251,
+	7, 250, 249, 0, 248, 247, 212, 246, 243, 242,
+	232, 205, 200,
 }
 
 var yyR1 = [...]int8{
@@ -298,7 +295,7 @@ var yyR2 = [...]int8{
 	0, 0, 1, 2, 1, 2, 1, 1, 0, 1,
 	0, 1, 5, 0, 11, 10, 0, 1, 1, 3,
 	0, 1, 1, 1, 0, 1, 3, 4, 7, 0,
-	5, 0, 2, 8, 0, 9, 0, 8, 0, 6,
+	5, 0, 2, 8, 0, 9, 0, 10, 0, 6,
 	1, 1, 3, 1, 3, 1, 1, 1, 1, 1,
 	1, 2, 2, 1, 3, 1, 4, 4, 2, 4,
 	1, 1, 0, 6, 1, 3, 3, 3, 3, 3,
@@ -318,20 +315,20 @@ var yyChk = [...]int16{
 	-31, 5, 4, 40, -41, 67, 55, 56, 57, 58,
 	59, 53, 54, 40, 43, 44, 39, 41, 42, -17,
 	-11, -19, -17, 65, -10, -17, -11, -28, -11, 18,
-	-11, -11, -2, 10, 35, 9, 62, -18, 62, 33,
+	8, -11, -2, 10, 35, 9, 62, -18, 62, 33,
 	8, -11, -11, 8, 62, 62, -9, -3, -11, -27,
 	-11, -11, -11, -11, -11, -11, -11, -11, -11, -11,
-	-11, -11, -11, -11, 63, -33, 6, 13, 8, 20,
+	-11, -11, -11, -11, 63, -33, 6, 13, 8, 40,
 	21, 30, -25, 8, 8, 8, -10, -11, 62, -10,
 	-11, 66, -17, -2, 19, -11, -40, -42, -12, -33,
 	48, 62, 62, 63, 63, -10, 63, -33, -7, -20,
-	-19, -21, 62, -22, 21, -2, -2, -30, 8, -15,
+	-19, -21, 62, -22, 20, -2, -2, -30, 8, -15,
 	-16, 8, 25, -15, 63, -11, -8, 14, 15, 21,
-	-21, -39, 22, 31, 63, -33, 40, 8, 63, -33,
-	16, -11, -2, -38, 63, -2, -12, -16, -14, -12,
-	-11, 13, -2, 22, -37, -23, -24, 10, 63, -2,
-	22, -23, -2, 10, -25, -2, 11, -25, -30, 36,
-	-30,
+	-21, -11, 22, 31, 63, -33, 40, 8, 63, -33,
+	16, -11, -2, -38, 63, 21, -12, -16, -14, -12,
+	-11, 13, -2, -39, -37, -23, -24, 10, 63, -2,
+	22, -2, -23, -2, 10, -25, 22, -2, 11, -25,
+	-30, 36, -30,
 }
 
 var yyDef = [...]int8{
@@ -350,13 +347,13 @@ var yyDef = [...]int8{
 	38, 62, 10, 107, 0, 0, 0, 0, 84, 0,
 	0, 57, 87, 29, 0, 0, 16, 16, 0, 0,
 	11, 100, 100, 56, 59, 0, 105, 0, 31, 0,
-	40, 41, 0, 43, 36, 0, 0, 12, 108, 0,
+	40, 41, 0, 43, 0, 0, 0, 12, 108, 0,
 	101, 97, 0, 0, 104, 0, 0, 0, 16, 34,
-	0, 16, 39, 63, 10, 0, 0, 98, 10, 0,
-	28, 0, 32, 16, 42, 0, 13, 102, 99, 24,
-	0, 16, 0, 37, 24, 16, 25, 0, 33, 30,
-	35, 16, 0, 0, 0, 0, 15, 0, 26, 14,
-	27,
+	0, 0, 39, 63, 10, 0, 0, 98, 10, 0,
+	28, 0, 32, 16, 42, 36, 13, 102, 99, 24,
+	0, 16, 0, 16, 24, 16, 25, 0, 33, 30,
+	35, 0, 16, 0, 0, 0, 37, 0, 15, 0,
+	26, 14, 27,
 }
 
 var yyTok1 = [...]int8{
@@ -968,19 +965,19 @@ yydefault:
 			setLoopFlag(false, yylex)
 		}
 	case 36:
-		yyDollar = yyS[yypt-5 : yypt+1]
+		yyDollar = yyS[yypt-7 : yypt+1]
 //line .\grammar.y:234
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 37:
-		yyDollar = yyS[yypt-8 : yypt+1]
+		yyDollar = yyS[yypt-10 : yypt+1]
 //line .\grammar.y:234
 		{
 			yyVAL.stmt_loop = &LoopStatement{
-				For:  yyDollar[2].stmt,
-				To:   yyDollar[4].stmt,
-				Body: yyDollar[7].opt_body,
+				For:  &ExpStatement{Operation: OpEq, Left: VarStatement{Name: yyDollar[2].token.literal}, Right: yyDollar[4].stmt},
+				To:   yyDollar[6].stmt,
+				Body: yyDollar[9].opt_body,
 			}
 			setLoopFlag(false, yylex)
 		}
-- 
2.43.0


From 9c8061b4629656bc036913cacbde9352059b4c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:38 +0000
Subject: [PATCH 30/31] fix: comparison in brackets printed as a statement
 keeps its brackets (it read as an assignment)

---
 ast/ast_print.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index df6ac2e..864d8b7 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -227,6 +227,11 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	spaces := strings.Repeat(" ", p.conf.Margin*depth)
 	builder.WriteString(spaces)
 
+	if readsAsAssignment(item) { // без скобок оно читается как присваивание
+		builder.WriteString("(" + p.printExpression(item, 0) + ");")
+		return builder.String()
+	}
+
 	switch v := item.(type) {
 	case *FunctionOrProcedure:
 		builder.WriteString(p.printFunctionOrProcedure(v))
@@ -403,6 +408,31 @@ func (p *astPrint) printOperand(operand Statement, operation OperationType, leve
 	return text
 }
 
+// readsAsAssignment вернет true если сравнение, которое было в скобках, без них станет присваиванием
+func readsAsAssignment(item Statement) bool {
+	switch v := item.(type) {
+	case *ExprStatements:
+		return readsAsAssignment(*v)
+	case ExprStatements: // (а = б)
+		if v.hasMark() || len(v.Statements) != 1 {
+			return false
+		}
+
+		if exp, ok := v.Statements[0].(*ExpStatement); ok {
+			return exp.Operation == OpEq && !exp.hasMark()
+		}
+
+		return readsAsAssignment(v.Statements[0])
+	case ExpStatement:
+		return readsAsAssignment(&v)
+	case *ExpStatement: // (а) = б
+		_, brackets := v.Left.(ExprStatements)
+		return brackets && v.Operation == OpEq && !v.hasMark()
+	default:
+		return false
+	}
+}
+
 // isNegated вернет true если вывод операнда начинается с Не
 func isNegated(operand Statement) bool {
 	switch v := operand.(type) {
-- 
2.43.0


From ab25868ee8c5f97e5962cbdd568542f20c45b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:16 +0000
Subject: [PATCH 31/31] fix: brackets in a printed statement do not depend on
 how its left side was written

---
 ast/ast_print.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 864d8b7..4cce49c 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -427,7 +427,23 @@ func readsAsAssignment(item Statement) bool {
 		return readsAsAssignment(&v)
 	case *ExpStatement: // (а) = б
 		_, brackets := v.Left.(ExprStatements)
-		return brackets && v.Operation == OpEq && !v.hasMark()
+		return brackets && v.Operation == OpEq && !v.hasMark() && readsAsTarget(v.Left)
+	default:
+		return false
+	}
+}
+
+// readsAsTarget вернет true если выведенный операнд может стоять слева от присваивания
+func readsAsTarget(operand Statement) bool {
+	switch v := operand.(type) {
+	case *ExprStatements:
+		return readsAsTarget(*v)
+	case ExprStatements:
+		return !v.hasMark() && len(v.Statements) == 1 && readsAsTarget(v.Statements[0])
+	case ExpStatement, *ExpStatement: // выводится в скобках
+		return false
+	case interface{ hasMark() bool }:
+		return !v.hasMark()
 	default:
 		return false
 	}
-- 
2.43.0

