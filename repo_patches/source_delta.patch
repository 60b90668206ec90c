From 7a80d4e2a35bb0d759cf5ca4b9f87dfa5d17b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 01/26] fix: a block that starts with a separator no longer
 inherits statements from an unrelated block

The reduction of 'opt_body separator opt_stmt' appended to the default $$, whose
body field is whatever an earlier block left in the reused parser stack slot.
---
 ast/grammar.y | 2 +-
 ast/y.go      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 364143f..228507b 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -148,7 +148,7 @@ opt_body: { $$ = nil }
     
 
 body: stmt { $$ = Statements{$1}}
-    | opt_body separator opt_stmt { 
+    | opt_body separator opt_stmt { $$ = $1
         if $2.literal == ":" && len($1) > 0 {
             if _, ok := $1[len($1)-1].(*GoToLabelStatement); !ok {
                 yylex.Error("semicolon (;) is expected")
diff --git a/ast/y.go b/ast/y.go
index 34afd52..e0a56e3 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -840,6 +840,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:151
 		{
+			yyVAL.body = yyDollar[1].opt_body
 			if yyDollar[2].token.literal == ":" && len(yyDollar[1].opt_body) > 0 {
 				if _, ok := yyDollar[1].opt_body[len(yyDollar[1].opt_body)-1].(*GoToLabelStatement); !ok {
 					yylex.Error("semicolon (;) is expected")
-- 
2.43.0


From 3a4b6916103216c7abedb169c505f109b060281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 02/26] =?UTF-8?q?fix:=20=D0=98=D0=BD=D0=B0=D1=87=D0=B5?=
 =?UTF-8?q?=D0=95=D1=81=D0=BB=D0=B8=20branches=20keep=20their=20source=20o?=
 =?UTF-8?q?rder=20in=20the=20AST?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The right-recursive rule appended every branch after the ones that follow it, so
IfElseBlock (and the printed code) listed the branches backwards. y.go is
regenerated with goyacc.
---
 ast/grammar.y |   8 +-
 ast/y.go      | 212 +++++++++++++++++++++++++-------------------------
 2 files changed, 110 insertions(+), 110 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 228507b..142bc50 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -202,10 +202,10 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
-        | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append($5, &IfStatement{
-                Expression: $2,
-                TrueBlock:  $4,
+        | opt_elseif_list ElseIf expr Then opt_body {
+             $$ = append($1, &IfStatement{
+                Expression: $3,
+                TrueBlock:  $5,
             })
         };
 
diff --git a/ast/y.go b/ast/y.go
index e0a56e3..096893f 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -182,104 +182,104 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 618
+const yyLast = 617
 
 var yyAct = [...]uint8{
-	71, 7, 122, 115, 7, 5, 148, 49, 196, 45,
-	19, 8, 22, 160, 24, 138, 161, 55, 73, 185,
-	75, 74, 142, 53, 116, 116, 70, 70, 141, 7,
-	93, 128, 70, 76, 82, 69, 72, 78, 80, 81,
-	66, 63, 67, 68, 64, 65, 91, 92, 116, 7,
-	55, 95, 116, 116, 61, 62, 56, 57, 58, 59,
-	60, 30, 116, 4, 86, 98, 18, 131, 100, 101,
-	102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
-	112, 179, 175, 116, 94, 113, 30, 41, 61, 62,
-	56, 57, 58, 59, 60, 177, 140, 90, 70, 41,
-	127, 58, 59, 60, 31, 165, 70, 130, 126, 146,
-	143, 44, 97, 52, 51, 153, 129, 42, 7, 114,
-	40, 99, 89, 133, 162, 140, 139, 70, 170, 31,
-	134, 135, 85, 83, 147, 151, 132, 7, 7, 204,
-	70, 163, 156, 157, 77, 210, 158, 152, 181, 154,
-	145, 88, 52, 51, 168, 198, 164, 123, 84, 166,
-	178, 169, 149, 159, 176, 125, 171, 124, 176, 7,
-	180, 52, 51, 7, 182, 51, 52, 51, 186, 56,
-	57, 58, 59, 60, 7, 7, 118, 137, 189, 192,
-	193, 187, 191, 188, 201, 190, 6, 7, 174, 200,
-	46, 205, 203, 7, 202, 43, 30, 208, 206, 139,
-	25, 54, 139, 209, 136, 26, 211, 51, 116, 52,
-	51, 13, 21, 172, 27, 44, 12, 28, 52, 51,
-	33, 32, 41, 52, 51, 15, 14, 194, 52, 51,
-	47, 2, 184, 36, 37, 39, 173, 38, 23, 31,
-	52, 51, 30, 35, 34, 195, 25, 207, 3, 121,
-	20, 26, 42, 1, 16, 50, 48, 13, 21, 11,
-	27, 44, 12, 28, 197, 150, 33, 32, 41, 87,
-	29, 15, 14, 96, 167, 9, 30, 17, 10, 36,
-	37, 39, 0, 38, 23, 31, 79, 0, 0, 35,
-	34, 0, 21, 0, 0, 44, 20, 0, 42, 0,
-	33, 32, 41, 0, 0, 0, 0, 0, 0, 30,
-	0, 0, 0, 36, 37, 39, 0, 38, 23, 31,
-	0, 0, 0, 35, 34, 21, 63, 0, 44, 0,
-	20, 0, 42, 33, 32, 41, 0, 0, 0, 61,
-	62, 56, 57, 58, 59, 60, 36, 37, 39, 0,
-	38, 23, 31, 0, 0, 0, 35, 34, 0, 66,
-	63, 67, 68, 20, 65, 42, 66, 63, 67, 68,
-	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
-	61, 62, 56, 57, 58, 59, 60, 0, 0, 0,
-	199, 66, 63, 67, 68, 64, 65, 183, 116, 0,
-	0, 0, 0, 0, 0, 61, 62, 56, 57, 58,
-	59, 60, 0, 0, 0, 144, 0, 0, 0, 0,
+	71, 7, 115, 49, 7, 195, 19, 74, 122, 159,
+	8, 22, 138, 5, 24, 55, 53, 45, 160, 73,
+	184, 142, 141, 116, 75, 70, 70, 128, 90, 7,
+	95, 70, 76, 86, 4, 116, 78, 80, 81, 69,
+	72, 18, 82, 55, 63, 91, 92, 116, 140, 7,
+	116, 116, 176, 89, 44, 30, 93, 61, 62, 56,
+	57, 58, 59, 60, 98, 116, 180, 100, 101, 102,
+	103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
+	178, 41, 88, 97, 113, 61, 62, 56, 57, 58,
+	59, 60, 174, 169, 126, 44, 99, 70, 31, 127,
+	33, 32, 129, 116, 164, 70, 130, 146, 143, 152,
+	94, 42, 41, 36, 37, 39, 30, 38, 7, 58,
+	59, 60, 114, 35, 34, 139, 70, 203, 52, 51,
+	135, 133, 134, 147, 123, 150, 145, 7, 7, 70,
+	132, 40, 157, 52, 51, 140, 151, 85, 83, 153,
+	155, 156, 163, 56, 57, 58, 59, 60, 165, 31,
+	209, 197, 175, 161, 170, 77, 175, 177, 179, 7,
+	173, 158, 7, 84, 125, 52, 51, 124, 181, 137,
+	162, 118, 182, 188, 7, 185, 51, 186, 167, 168,
+	190, 189, 7, 54, 187, 136, 7, 192, 52, 51,
+	201, 121, 7, 52, 51, 199, 204, 139, 208, 202,
+	139, 210, 207, 43, 30, 205, 200, 171, 25, 52,
+	51, 193, 183, 26, 52, 51, 51, 116, 194, 13,
+	21, 206, 27, 44, 12, 28, 3, 172, 33, 32,
+	41, 52, 51, 15, 14, 6, 47, 2, 1, 46,
+	16, 36, 37, 39, 50, 38, 23, 31, 48, 11,
+	30, 35, 34, 196, 25, 149, 87, 29, 20, 26,
+	42, 96, 166, 148, 9, 13, 21, 17, 27, 44,
+	12, 28, 10, 0, 33, 32, 41, 0, 0, 15,
+	14, 0, 0, 0, 30, 0, 0, 36, 37, 39,
+	0, 38, 23, 31, 79, 0, 0, 35, 34, 0,
+	21, 0, 0, 44, 20, 0, 42, 0, 33, 32,
+	41, 0, 0, 0, 0, 0, 0, 30, 0, 0,
+	0, 36, 37, 39, 0, 38, 23, 31, 0, 0,
+	0, 35, 34, 21, 0, 0, 44, 0, 20, 0,
+	42, 33, 32, 41, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 36, 37, 39, 0, 38, 23,
+	31, 0, 0, 0, 35, 34, 0, 66, 63, 67,
+	68, 20, 65, 42, 66, 63, 67, 68, 64, 65,
+	0, 61, 62, 56, 57, 58, 59, 60, 61, 62,
+	56, 57, 58, 59, 60, 66, 63, 67, 68, 64,
+	65, 131, 0, 0, 0, 0, 0, 0, 0, 61,
+	62, 56, 57, 58, 59, 60, 0, 0, 0, 198,
+	66, 63, 67, 68, 64, 65, 191, 116, 0, 0,
+	0, 0, 0, 0, 61, 62, 56, 57, 58, 59,
+	60, 0, 0, 0, 144, 0, 0, 0, 0, 0,
+	0, 0, 66, 63, 67, 68, 64, 65, 0, 0,
+	66, 63, 67, 68, 64, 65, 61, 62, 56, 57,
+	58, 59, 60, 154, 61, 62, 56, 57, 58, 59,
+	60, 120, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 66, 63, 67, 68, 64, 65, 117, 0, 66,
+	63, 67, 68, 64, 65, 61, 62, 56, 57, 58,
+	59, 60, 119, 61, 62, 56, 57, 58, 59, 60,
 	0, 0, 0, 66, 63, 67, 68, 64, 65, 0,
 	0, 66, 63, 67, 68, 64, 65, 61, 62, 56,
-	57, 58, 59, 60, 155, 61, 62, 56, 57, 58,
-	59, 60, 120, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 66, 63, 67, 68, 64, 65, 117, 0,
-	66, 63, 67, 68, 64, 65, 61, 62, 56, 57,
-	58, 59, 60, 119, 61, 62, 56, 57, 58, 59,
-	60, 0, 0, 0, 66, 63, 67, 68, 64, 65,
-	0, 0, 66, 63, 67, 68, 64, 65, 61, 62,
-	56, 57, 58, 59, 60, 0, 61, 62, 56, 57,
-	58, 59, 60, 66, 63, 67, 68, 64, 65, 0,
-	66, 63, 67, 68, 0, 0, 0, 61, 62, 56,
-	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60, 63, 67, 68, 0, 0, 0, 0, 63, 0,
-	68, 0, 0, 0, 61, 62, 56, 57, 58, 59,
-	60, 61, 62, 56, 57, 58, 59, 60, 44, 0,
-	0, 0, 0, 33, 32, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
-	38, 0, 0, 0, 0, 0, 35, 34,
+	57, 58, 59, 60, 0, 61, 62, 56, 57, 58,
+	59, 60, 66, 63, 67, 68, 64, 65, 0, 66,
+	63, 67, 68, 0, 0, 0, 61, 62, 56, 57,
+	58, 59, 60, 61, 62, 56, 57, 58, 59, 60,
+	63, 67, 68, 0, 0, 0, 0, 63, 0, 68,
+	0, 0, 0, 61, 62, 56, 57, 58, 59, 60,
+	61, 62, 56, 57, 58, 59, 60,
 }
 
 var yyPact = [...]int16{
-	198, -1000, -1000, 198, -1000, 234, -1000, -17, 494, -1000,
-	-1000, -1000, -1000, -1000, 311, 311, -1000, -1000, -47, -1000,
-	311, 311, -1000, 84, -1000, 311, 278, 311, 244, 123,
-	2, 89, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
-	-1000, 22, -11, -1000, -1000, 234, -1000, -1000, 244, -1000,
-	-1000, -1000, -1000, 311, 78, -1000, 311, 311, 311, 311,
-	311, 311, 311, 311, 311, 311, 311, 311, 311, -1000,
-	494, -50, -1000, 311, 56, -1000, 296, -1000, 465, 178,
-	473, 441, 229, 149, 159, 157, 311, -1000, 311, -1000,
-	-1000, -1000, -1000, -31, 311, 311, -1000, -1000, 494, -47,
-	44, 44, -1000, -1000, -1000, 124, 124, 35, 330, 501,
-	521, 528, 296, 1, -1000, 311, -1000, 244, 111, 311,
-	-1000, -1000, 77, -1000, -34, -40, 47, 362, 311, 46,
-	402, -1000, -1000, 148, 53, 433, 244, 244, 170, 155,
-	-1000, 116, 116, -1000, -1000, 42, -1000, 311, 139, 311,
-	107, -50, -1000, 65, -1000, -1000, 224, 167, -1000, -1000,
-	19, 55, -1000, 152, 18, -1000, 402, 132, 244, 394,
-	-1000, -44, 244, -1000, -1000, 48, 116, 561, -1000, 48,
-	311, -1000, 234, 244, 244, -1000, 215, -1000, 55, -1000,
-	145, 337, 148, 172, -1000, 145, 244, 129, 149, -1000,
-	-1000, -1000, 244, 246, 149, 212, 109, -1000, 212, -1000,
-	-1000, -1000,
+	206, -1000, -1000, 206, -1000, 237, -1000, -24, 523, -1000,
+	-1000, -1000, -1000, -1000, 319, 319, -1000, -1000, -46, -1000,
+	319, 319, -1000, 27, -1000, 319, 286, 319, 252, 138,
+	-29, 20, -1000, -1000, 319, 319, -1000, -1000, -1000, -1000,
+	-1000, 48, -32, -1000, -1000, 237, -1000, -1000, 252, -1000,
+	-1000, -1000, -1000, 319, 108, -1000, 319, 319, 319, 319,
+	319, 319, 319, 319, 319, 319, 319, 319, 319, -1000,
+	523, -52, -1000, 319, 59, -1000, 4, -1000, 494, 173,
+	502, 470, 171, 126, 169, 166, 319, -1000, 319, -1000,
+	-1000, -1000, -1000, -35, 319, 319, -1000, -1000, 523, -46,
+	62, 62, -1000, -1000, -1000, 98, 98, 32, 338, 530,
+	550, 557, 4, 345, -1000, 319, -1000, 252, 113, 319,
+	-1000, -1000, 97, -1000, -40, -41, 45, 391, 319, 44,
+	431, -1000, -1000, 237, 47, 462, 252, 252, 181, 163,
+	-1000, 155, 155, -1000, -1000, 41, -1000, 319, 174, 72,
+	-52, -1000, 78, -1000, -1000, 215, 139, -1000, -1000, 29,
+	12, -1000, 159, 17, -1000, 431, 50, 319, 252, -1000,
+	-43, 252, -1000, -1000, 0, 155, 68, -1000, 0, 319,
+	-1000, 423, 237, 252, -1000, 199, -1000, 12, -1000, 151,
+	366, 252, 194, -1000, 151, 252, 117, 126, -1000, 237,
+	-1000, 252, 220, 126, 221, 124, -1000, 221, -1000, -1000,
+	-1000,
 }
 
 var yyPgo = [...]int16{
-	0, 240, 5, 63, 288, 287, 285, 6, 284, 283,
-	21, 11, 15, 280, 10, 13, 16, 20, 279, 0,
-	275, 12, 14, 8, 274, 2, 269, 66, 120, 266,
-	7, 265, 264, 3, 263, 258, 196, 255, 242, 223,
-	214, 211, 187,
+	0, 246, 13, 34, 282, 277, 274, 273, 272, 271,
+	7, 10, 12, 267, 6, 9, 18, 24, 266, 0,
+	265, 11, 14, 5, 263, 8, 259, 41, 141, 258,
+	3, 254, 250, 2, 248, 236, 245, 228, 222, 217,
+	195, 193, 179,
 }
 
 var yyR1 = [...]int8{
@@ -327,14 +327,14 @@ var yyChk = [...]int16{
 	-11, -11, -11, -11, 63, -33, 6, 13, 8, 20,
 	21, 30, -25, 8, 8, 8, -10, -11, 62, -10,
 	-11, 66, -17, -2, 19, -11, -40, -42, -12, -33,
-	48, 62, 62, 63, 63, -10, 63, -33, -7, 14,
-	-20, -19, -21, 62, -22, 21, -2, -2, -30, 8,
-	-15, -16, 8, 25, -15, 63, -11, -8, 15, -11,
-	21, -21, -39, 22, 31, 63, -33, 40, 8, 63,
-	-33, 16, -2, 13, -38, 63, -2, -12, -16, -14,
-	-12, -11, -2, -2, 22, -37, -23, -24, 10, 63,
-	-7, 22, -23, -2, 10, -25, -2, 11, -25, -30,
-	36, -30,
+	48, 62, 62, 63, 63, -10, 63, -33, -7, -20,
+	-19, -21, 62, -22, 21, -2, -2, -30, 8, -15,
+	-16, 8, 25, -15, 63, -11, -8, 14, 15, 21,
+	-21, -39, 22, 31, 63, -33, 40, 8, 63, -33,
+	16, -11, -2, -38, 63, -2, -12, -16, -14, -12,
+	-11, 13, -2, 22, -37, -23, -24, 10, 63, -2,
+	22, -23, -2, 10, -25, -2, 11, -25, -30, 36,
+	-30,
 }
 
 var yyDef = [...]int8{
@@ -353,13 +353,13 @@ var yyDef = [...]int8{
 	38, 62, 10, 107, 0, 0, 0, 0, 84, 0,
 	0, 57, 87, 29, 0, 0, 16, 16, 0, 0,
 	11, 100, 100, 56, 59, 0, 105, 0, 31, 0,
-	0, 40, 41, 0, 43, 36, 0, 0, 12, 108,
-	0, 101, 97, 0, 0, 104, 0, 0, 16, 0,
-	34, 0, 16, 39, 63, 10, 0, 0, 98, 10,
-	0, 28, 32, 16, 16, 42, 0, 13, 102, 99,
-	24, 0, 29, 0, 37, 24, 16, 25, 0, 33,
-	30, 35, 16, 0, 0, 0, 0, 15, 0, 26,
-	14, 27,
+	40, 41, 0, 43, 36, 0, 0, 12, 108, 0,
+	101, 97, 0, 0, 104, 0, 0, 0, 16, 34,
+	0, 16, 39, 63, 10, 0, 0, 98, 10, 0,
+	28, 0, 32, 16, 42, 0, 13, 102, 99, 24,
+	0, 16, 0, 37, 24, 16, 25, 0, 33, 30,
+	35, 16, 0, 0, 0, 0, 15, 0, 26, 14,
+	27,
 }
 
 var yyTok1 = [...]int8{
@@ -927,9 +927,9 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:205
 		{
-			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
-				Expression: yyDollar[2].stmt,
-				TrueBlock:  yyDollar[4].opt_body,
+			yyVAL.opt_elseif_list = append(yyDollar[1].opt_elseif_list, &IfStatement{
+				Expression: yyDollar[3].stmt,
+				TrueBlock:  yyDollar[5].opt_body,
 			})
 		}
 	case 31:
-- 
2.43.0


From 341902be6374d48548af6fdf4db9fdf3c003d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 03/26] =?UTF-8?q?fix:=20comparison=20operators=20share=20o?=
 =?UTF-8?q?ne=20precedence=20level=20that=20binds=20tighter=20than=20?=
 =?UTF-8?q?=D0=9D=D0=B5?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'Не а <> б', 'Не а <= б' and 'Не а >= б' were parsed as '(Не а) <> б', unlike
'Не а = б', and 'а <> б = с' as 'а <> (б = с)'. y.go is regenerated with goyacc.
---
 ast/grammar.y |   6 +-
 ast/y.go      | 325 +++++++++++++++++++++++++-------------------------
 2 files changed, 162 insertions(+), 169 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 142bc50..24cc65f 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -68,12 +68,8 @@ package ast
 %nonassoc LOW_PREC /* самый низкий приоритет */
 %left OR
 %left And
-%left NeEQ
-%left LE
-%left GE
 %right Not
-%left EQUAL
-%left '>' '<'
+%left NeEQ LE GE EQUAL '>' '<' /* все операции сравнения имеют один приоритет, выше чем НЕ */
 %left '+' '-'
 %left '*' '/' '%'
 %right UNARMinus UNARYPlus /* самый высокий приоритет */
diff --git a/ast/y.go b/ast/y.go
index 096893f..c0fd284 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:380
+//line .\grammar.y:376
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -182,38 +182,38 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 617
+const yyLast = 590
 
 var yyAct = [...]uint8{
 	71, 7, 115, 49, 7, 195, 19, 74, 122, 159,
 	8, 22, 138, 5, 24, 55, 53, 45, 160, 73,
-	184, 142, 141, 116, 75, 70, 70, 128, 90, 7,
-	95, 70, 76, 86, 4, 116, 78, 80, 81, 69,
-	72, 18, 82, 55, 63, 91, 92, 116, 140, 7,
-	116, 116, 176, 89, 44, 30, 93, 61, 62, 56,
-	57, 58, 59, 60, 98, 116, 180, 100, 101, 102,
+	184, 142, 141, 116, 75, 70, 70, 128, 116, 7,
+	116, 70, 76, 116, 116, 116, 78, 80, 81, 69,
+	72, 95, 82, 55, 86, 91, 92, 116, 18, 7,
+	56, 57, 58, 59, 60, 30, 93, 140, 90, 58,
+	59, 60, 44, 176, 98, 30, 41, 100, 101, 102,
 	103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
-	178, 41, 88, 97, 113, 61, 62, 56, 57, 58,
-	59, 60, 174, 169, 126, 44, 99, 70, 31, 127,
-	33, 32, 129, 116, 164, 70, 130, 146, 143, 152,
-	94, 42, 41, 36, 37, 39, 30, 38, 7, 58,
-	59, 60, 114, 35, 34, 139, 70, 203, 52, 51,
-	135, 133, 134, 147, 123, 150, 145, 7, 7, 70,
-	132, 40, 157, 52, 51, 140, 151, 85, 83, 153,
-	155, 156, 163, 56, 57, 58, 59, 60, 165, 31,
-	209, 197, 175, 161, 170, 77, 175, 177, 179, 7,
-	173, 158, 7, 84, 125, 52, 51, 124, 181, 137,
-	162, 118, 182, 188, 7, 185, 51, 186, 167, 168,
-	190, 189, 7, 54, 187, 136, 7, 192, 52, 51,
-	201, 121, 7, 52, 51, 199, 204, 139, 208, 202,
-	139, 210, 207, 43, 30, 205, 200, 171, 25, 52,
-	51, 193, 183, 26, 52, 51, 51, 116, 194, 13,
-	21, 206, 27, 44, 12, 28, 3, 172, 33, 32,
-	41, 52, 51, 15, 14, 6, 47, 2, 1, 46,
-	16, 36, 37, 39, 50, 38, 23, 31, 48, 11,
-	30, 35, 34, 196, 25, 149, 87, 29, 20, 26,
-	42, 96, 166, 148, 9, 13, 21, 17, 27, 44,
-	12, 28, 10, 0, 33, 32, 41, 0, 0, 15,
+	178, 41, 169, 89, 113, 174, 134, 164, 180, 140,
+	146, 143, 114, 203, 126, 44, 4, 70, 31, 127,
+	33, 32, 129, 99, 197, 70, 130, 123, 31, 152,
+	94, 42, 88, 36, 37, 39, 177, 38, 7, 167,
+	168, 52, 51, 35, 34, 139, 70, 51, 85, 83,
+	135, 133, 40, 147, 158, 150, 145, 7, 7, 70,
+	132, 125, 157, 52, 51, 97, 151, 52, 51, 153,
+	155, 156, 163, 209, 84, 124, 77, 161, 165, 52,
+	51, 118, 175, 6, 170, 137, 175, 46, 179, 7,
+	173, 54, 7, 121, 162, 52, 51, 200, 181, 136,
+	52, 51, 182, 188, 7, 185, 171, 186, 52, 51,
+	190, 189, 7, 193, 187, 206, 7, 192, 172, 183,
+	201, 194, 7, 51, 116, 199, 204, 139, 208, 202,
+	139, 210, 207, 43, 30, 205, 52, 51, 25, 47,
+	2, 3, 1, 26, 16, 50, 48, 11, 196, 13,
+	21, 149, 27, 44, 12, 28, 87, 29, 33, 32,
+	41, 96, 166, 15, 14, 148, 9, 17, 10, 0,
+	0, 36, 37, 39, 0, 38, 23, 31, 0, 0,
+	30, 35, 34, 0, 25, 0, 0, 0, 20, 26,
+	42, 0, 0, 0, 0, 13, 21, 0, 27, 44,
+	12, 28, 0, 0, 33, 32, 41, 0, 0, 15,
 	14, 0, 0, 0, 30, 0, 0, 36, 37, 39,
 	0, 38, 23, 31, 79, 0, 0, 35, 34, 0,
 	21, 0, 0, 44, 20, 0, 42, 0, 33, 32,
@@ -244,42 +244,39 @@ var yyAct = [...]uint8{
 	59, 60, 66, 63, 67, 68, 64, 65, 0, 66,
 	63, 67, 68, 0, 0, 0, 61, 62, 56, 57,
 	58, 59, 60, 61, 62, 56, 57, 58, 59, 60,
-	63, 67, 68, 0, 0, 0, 0, 63, 0, 68,
-	0, 0, 0, 61, 62, 56, 57, 58, 59, 60,
-	61, 62, 56, 57, 58, 59, 60,
 }
 
 var yyPact = [...]int16{
-	206, -1000, -1000, 206, -1000, 237, -1000, -24, 523, -1000,
+	206, -1000, -1000, 206, -1000, 212, -1000, -24, 523, -1000,
 	-1000, -1000, -1000, -1000, 319, 319, -1000, -1000, -46, -1000,
-	319, 319, -1000, 27, -1000, 319, 286, 319, 252, 138,
-	-29, 20, -1000, -1000, 319, 319, -1000, -1000, -1000, -1000,
-	-1000, 48, -32, -1000, -1000, 237, -1000, -1000, 252, -1000,
-	-1000, -1000, -1000, 319, 108, -1000, 319, 319, 319, 319,
+	319, 319, -1000, 35, -1000, 319, 286, 319, 252, 119,
+	-18, 50, -1000, -1000, 319, 319, -1000, -1000, -1000, -1000,
+	-1000, 48, -21, -1000, -1000, 212, -1000, -1000, 252, -1000,
+	-1000, -1000, -1000, 319, 57, -1000, 319, 319, 319, 319,
 	319, 319, 319, 319, 319, 319, 319, 319, 319, -1000,
-	523, -52, -1000, 319, 59, -1000, 4, -1000, 494, 173,
-	502, 470, 171, 126, 169, 166, 319, -1000, 319, -1000,
+	523, -52, -1000, 319, 29, -1000, 530, -1000, 494, 153,
+	502, 470, 143, 99, 147, 133, 319, -1000, 319, -1000,
 	-1000, -1000, -1000, -35, 319, 319, -1000, -1000, 523, -46,
-	62, 62, -1000, -1000, -1000, 98, 98, 32, 338, 530,
-	550, 557, 4, 345, -1000, 319, -1000, 252, 113, 319,
-	-1000, -1000, 97, -1000, -40, -41, 45, 391, 319, 44,
-	431, -1000, -1000, 237, 47, 462, 252, 252, 181, 163,
-	-1000, 155, 155, -1000, -1000, 41, -1000, 319, 174, 72,
-	-52, -1000, 78, -1000, -1000, 215, 139, -1000, -1000, 29,
-	12, -1000, 159, 17, -1000, 431, 50, 319, 252, -1000,
-	-43, 252, -1000, -1000, 0, 155, 68, -1000, 0, 319,
-	-1000, 423, 237, 252, -1000, 199, -1000, 12, -1000, 151,
-	366, 252, 194, -1000, 151, 252, 117, 126, -1000, 237,
-	-1000, 252, 220, 126, 221, 124, -1000, 221, -1000, -1000,
+	2, 2, -1000, -1000, -1000, -5, -5, -5, 338, 530,
+	-5, -5, -5, 345, -1000, 319, -1000, 252, 67, 319,
+	-1000, -1000, 41, -1000, -40, -41, 28, 391, 319, 27,
+	431, -1000, -1000, 212, 47, 462, 252, 252, 122, 126,
+	-1000, 149, 149, -1000, -1000, 24, -1000, 319, 105, 61,
+	-52, -1000, 32, -1000, -1000, 176, 139, -1000, -1000, 22,
+	23, -1000, 108, 17, -1000, 431, 72, 319, 252, -1000,
+	-43, 252, -1000, -1000, 9, 149, 68, -1000, 9, 319,
+	-1000, 423, 212, 252, -1000, 171, -1000, 23, -1000, 94,
+	366, 252, 155, -1000, 94, 252, 83, 99, -1000, 212,
+	-1000, 252, 184, 99, 198, 117, -1000, 198, -1000, -1000,
 	-1000,
 }
 
-var yyPgo = [...]int16{
-	0, 246, 13, 34, 282, 277, 274, 273, 272, 271,
-	7, 10, 12, 267, 6, 9, 18, 24, 266, 0,
-	265, 11, 14, 5, 263, 8, 259, 41, 141, 258,
-	3, 254, 250, 2, 248, 236, 245, 228, 222, 217,
-	195, 193, 179,
+var yyPgo = [...]uint8{
+	0, 219, 13, 96, 248, 247, 246, 245, 242, 241,
+	7, 10, 12, 237, 6, 9, 18, 24, 236, 0,
+	231, 11, 14, 5, 228, 8, 227, 48, 132, 226,
+	3, 225, 224, 2, 222, 221, 163, 201, 199, 186,
+	179, 171, 165,
 }
 
 var yyR1 = [...]int8{
@@ -726,12 +723,12 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:85
+//line .\grammar.y:81
 		{
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:86
+//line .\grammar.y:82
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].body, yylex)
@@ -739,7 +736,7 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:91
+//line .\grammar.y:87
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[2].opt_body, yylex)
@@ -747,7 +744,7 @@ yydefault:
 		}
 	case 6:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:101
+//line .\grammar.y:97
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].global_variables, yylex)
@@ -755,7 +752,7 @@ yydefault:
 		}
 	case 7:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:106
+//line .\grammar.y:102
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].funcProc, yylex)
@@ -763,31 +760,31 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:113
+//line .\grammar.y:109
 		{
 			yyVAL.opt_directive = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:114
+//line .\grammar.y:110
 		{
 			yyVAL.opt_directive = &yyDollar[1].token
 		}
 	case 10:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:117
+//line .\grammar.y:113
 		{
 			yyVAL.opt_export = nil
 		}
 	case 11:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:118
+//line .\grammar.y:114
 		{
 			yyVAL.opt_export = &yyDollar[1].token
 		}
 	case 12:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:121
+//line .\grammar.y:117
 		{
 			yyVAL.global_variables = make([]GlobalVariables, len(yyDollar[3].identifiers), len(yyDollar[3].identifiers))
 			for i, v := range yyDollar[3].identifiers {
@@ -801,44 +798,44 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:134
+//line .\grammar.y:130
 		{
 			isFunction(true, yylex)
 		}
 	case 14:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line .\grammar.y:135
+//line .\grammar.y:131
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeFunction, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[9].opt_explicit_variables, yyDollar[10].opt_body)
 			isFunction(false, yylex)
 		}
 	case 15:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line .\grammar.y:140
+//line .\grammar.y:136
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeProcedure, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[8].opt_explicit_variables, yyDollar[9].opt_body)
 		}
 	case 16:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:145
+//line .\grammar.y:141
 		{
 			yyVAL.opt_body = nil
 		}
 	case 17:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:146
+//line .\grammar.y:142
 		{
 			yyVAL.opt_body = yyDollar[1].body
 		}
 	case 18:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:150
+//line .\grammar.y:146
 		{
 			yyVAL.body = Statements{yyDollar[1].stmt}
 		}
 	case 19:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:151
+//line .\grammar.y:147
 		{
 			yyVAL.body = yyDollar[1].opt_body
 			if yyDollar[2].token.literal == ":" && len(yyDollar[1].opt_body) > 0 {
@@ -852,43 +849,43 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:164
+//line .\grammar.y:160
 		{
 			yyVAL.stmt = nil
 		}
 	case 21:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:165
+//line .\grammar.y:161
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 22:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:168
+//line .\grammar.y:164
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 23:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:168
+//line .\grammar.y:164
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:172
+//line .\grammar.y:168
 		{
 			yyVAL.opt_explicit_variables = map[string]VarStatement{}
 		}
 	case 25:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:173
+//line .\grammar.y:169
 		{
 			yyVAL.opt_explicit_variables = yyDollar[1].explicit_variables
 		}
 	case 26:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:176
+//line .\grammar.y:172
 		{
 			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -898,7 +895,7 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:183
+//line .\grammar.y:179
 		{
 			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -908,7 +905,7 @@ yydefault:
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:194
+//line .\grammar.y:190
 		{
 			yyVAL.stmt_if = &IfStatement{
 				Expression:  yyDollar[2].stmt,
@@ -919,13 +916,13 @@ yydefault:
 		}
 	case 29:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:204
+//line .\grammar.y:200
 		{
 			yyVAL.opt_elseif_list = Statements{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:205
+//line .\grammar.y:201
 		{
 			yyVAL.opt_elseif_list = append(yyDollar[1].opt_elseif_list, &IfStatement{
 				Expression: yyDollar[3].stmt,
@@ -934,19 +931,19 @@ yydefault:
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:213
+//line .\grammar.y:209
 		{
 			yyVAL.opt_else = nil
 		}
 	case 32:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:214
+//line .\grammar.y:210
 		{
 			yyVAL.opt_else = yyDollar[2].opt_body
 		}
 	case 33:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:217
+//line .\grammar.y:213
 		{
 			yyVAL.stmt = TernaryStatement{
 				Expression: yyDollar[3].stmt,
@@ -956,13 +953,13 @@ yydefault:
 		}
 	case 34:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:226
+//line .\grammar.y:222
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 35:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line .\grammar.y:226
+//line .\grammar.y:222
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[3].token.literal,
@@ -973,13 +970,13 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:234
+//line .\grammar.y:230
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 37:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:234
+//line .\grammar.y:230
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[2].stmt,
@@ -990,13 +987,13 @@ yydefault:
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:242
+//line .\grammar.y:238
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 39:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:242
+//line .\grammar.y:238
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				WhileExpr: yyDollar[2].stmt,
@@ -1005,31 +1002,31 @@ yydefault:
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:251
+//line .\grammar.y:247
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:252
+//line .\grammar.y:248
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:253
+//line .\grammar.y:249
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:254
+//line .\grammar.y:250
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:258
+//line .\grammar.y:254
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1039,240 +1036,240 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:265
+//line .\grammar.y:261
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:266
+//line .\grammar.y:262
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:267
+//line .\grammar.y:263
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:268
+//line .\grammar.y:264
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:269
+//line .\grammar.y:265
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:270
+//line .\grammar.y:266
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 51:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:271
+//line .\grammar.y:267
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:272
+//line .\grammar.y:268
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:277
+//line .\grammar.y:273
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:278
+//line .\grammar.y:274
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:284
+//line .\grammar.y:280
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:285
+//line .\grammar.y:281
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:286
+//line .\grammar.y:282
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 58:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:287
+//line .\grammar.y:283
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:284
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 60:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:291
+//line .\grammar.y:287
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 61:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:288
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 62:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:291
 		{
 			setTryFlag(true, yylex)
 		}
 	case 63:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:291
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:301
+//line .\grammar.y:297
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:302
+//line .\grammar.y:298
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:299
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:304
+//line .\grammar.y:300
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:301
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
+//line .\grammar.y:302
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:304
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:307
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:308
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:309
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:310
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:318
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:319
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:320
+//line .\grammar.y:316
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1282,169 +1279,169 @@ yydefault:
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:329
+//line .\grammar.y:325
 		{
 			yyVAL.stmt = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:329
+//line .\grammar.y:325
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:331
+//line .\grammar.y:327
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 87:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:332
+//line .\grammar.y:328
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:335
+//line .\grammar.y:331
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:332
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:333
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:334
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:335
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:336
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:341
+//line .\grammar.y:337
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:342
+//line .\grammar.y:338
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:343
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:347
+//line .\grammar.y:343
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 98:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:348
+//line .\grammar.y:344
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:345
 		{
 			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 100:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:352
+//line .\grammar.y:348
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:353
+//line .\grammar.y:349
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:354
+//line .\grammar.y:350
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
 	case 103:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:362
+//line .\grammar.y:358
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
 	case 104:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:363
+//line .\grammar.y:359
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
 	case 105:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:364
+//line .\grammar.y:360
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:369
+//line .\grammar.y:365
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:371
+//line .\grammar.y:367
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
 	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:372
+//line .\grammar.y:368
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:375
+//line .\grammar.y:371
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:376
+//line .\grammar.y:372
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:377
+//line .\grammar.y:373
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From 53ed720e69ded92998e40fe77cbaa77903fd9c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 04/26] =?UTF-8?q?fix:=20=D0=9F=D1=80=D0=B5=D1=80=D0=B2?=
 =?UTF-8?q?=D0=B0=D1=82=D1=8C=20and=20=D0=9F=D1=80=D0=BE=D0=B4=D0=BE=D0=BB?=
 =?UTF-8?q?=D0=B6=D0=B8=D1=82=D1=8C=20after=20a=20=D0=9F=D0=BE=D0=BA=D0=B0?=
 =?UTF-8?q?=20loop=20are=20rejected=20again?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The Пока rule raised the loop counter and never lowered it.
---
 ast/grammar.y |   1 +
 ast/y.go      | 147 +++++++++++++++++++++++++-------------------------
 2 files changed, 75 insertions(+), 73 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 24cc65f..6512b05 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -240,6 +240,7 @@ stmt_loop: For Each token_identifier In loopExp Loop { setLoopFlag(true, yylex)
             WhileExpr: $2,
             Body: $5,
         }
+        setLoopFlag(false, yylex)
 };
 
 
diff --git a/ast/y.go b/ast/y.go
index c0fd284..b0aa4be 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:376
+//line .\grammar.y:377
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -999,34 +999,35 @@ yydefault:
 				WhileExpr: yyDollar[2].stmt,
 				Body:      yyDollar[5].opt_body,
 			}
+			setLoopFlag(false, yylex)
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:247
+//line .\grammar.y:248
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:248
+//line .\grammar.y:249
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:249
+//line .\grammar.y:250
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:250
+//line .\grammar.y:251
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:254
+//line .\grammar.y:255
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1036,240 +1037,240 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:261
+//line .\grammar.y:262
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:262
+//line .\grammar.y:263
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:263
+//line .\grammar.y:264
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:264
+//line .\grammar.y:265
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:265
+//line .\grammar.y:266
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:266
+//line .\grammar.y:267
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 51:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:267
+//line .\grammar.y:268
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:268
+//line .\grammar.y:269
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:273
+//line .\grammar.y:274
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:274
+//line .\grammar.y:275
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:280
+//line .\grammar.y:281
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:281
+//line .\grammar.y:282
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:282
+//line .\grammar.y:283
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 58:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:283
+//line .\grammar.y:284
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:284
+//line .\grammar.y:285
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 60:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:287
+//line .\grammar.y:288
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 61:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:289
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 62:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:291
+//line .\grammar.y:292
 		{
 			setTryFlag(true, yylex)
 		}
 	case 63:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:291
+//line .\grammar.y:292
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:297
+//line .\grammar.y:298
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:298
+//line .\grammar.y:299
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:299
+//line .\grammar.y:300
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:300
+//line .\grammar.y:301
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:301
+//line .\grammar.y:302
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:302
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:304
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:304
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
+//line .\grammar.y:307
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:308
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:309
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:310
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:316
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:317
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1279,169 +1280,169 @@ yydefault:
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:325
+//line .\grammar.y:326
 		{
 			yyVAL.stmt = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:325
+//line .\grammar.y:326
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:327
+//line .\grammar.y:328
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 87:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:328
+//line .\grammar.y:329
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:331
+//line .\grammar.y:332
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:332
+//line .\grammar.y:333
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:333
+//line .\grammar.y:334
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:334
+//line .\grammar.y:335
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:335
+//line .\grammar.y:336
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:337
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:338
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:340
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:343
+//line .\grammar.y:344
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 98:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:344
+//line .\grammar.y:345
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:345
+//line .\grammar.y:346
 		{
 			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 100:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:348
+//line .\grammar.y:349
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:350
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:350
+//line .\grammar.y:351
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
 	case 103:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:358
+//line .\grammar.y:359
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
 	case 104:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:359
+//line .\grammar.y:360
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
 	case 105:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:360
+//line .\grammar.y:361
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:365
+//line .\grammar.y:366
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:367
+//line .\grammar.y:368
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
 	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:368
+//line .\grammar.y:369
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:371
+//line .\grammar.y:372
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:372
+//line .\grammar.y:373
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:373
+//line .\grammar.y:374
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From baf84a152550856afa71180cb34db0b107db0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 05/26] =?UTF-8?q?fix:=20unary=20minus=20and=20=D0=9D=D0=B5?=
 =?UTF-8?q?=20are=20no=20longer=20dropped=20from=20the=20AST?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

They were lost in front of a call, an indexed value, a ternary, an object
creation and (for the minus) a parenthesised expression, and a repeated sign
collapsed into one: '-(а + б)' was parsed as 'а + б', 'Не Не а' as 'Не а'.
---
 ast/ast.go        | 11 +++++++++--
 ast/ast_struct.go | 23 +++++++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index baec22e..6976af7 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -170,9 +170,13 @@ func unaryMinus(iv interface{}) interface{} {
 	case float64:
 		return -v
 	case IUnary:
+		if m := getMarks(v); m.unaryMinus || m.not {
+			return ExprStatements{Statements: Statements{v}}.UnaryMinus()
+		}
 		return v.UnaryMinus()
 	default:
-		return v
+		// у узла нет своего признака, навешиваем его на выражение в скобках
+		return ExprStatements{Statements: Statements{v}}.UnaryMinus()
 	}
 }
 
@@ -181,8 +185,11 @@ func not(iv interface{}) interface{} {
 	case bool:
 		return !v
 	case INot:
+		if getMarks(v).not {
+			return ExprStatements{Statements: Statements{v}}.Not()
+		}
 		return v.Not()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{v}}.Not()
 	}
 }
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 913dec1..74c9cc7 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -177,6 +177,19 @@ type GoToLabelStatement struct {
 	Name string
 }
 
+func (f addStatementField) marks() addStatementField {
+	return f
+}
+
+// getMarks возвращает признаки унарных операций, навешенных на узел
+func getMarks(stm Statement) addStatementField {
+	if v, ok := stm.(interface{ marks() addStatementField }); ok {
+		return v.marks()
+	}
+
+	return addStatementField{}
+}
+
 func (p *ParamStatement) Fill(valueParam *Token, identifier Token) *ParamStatement {
 	p.IsValue = valueParam != nil
 	p.Name = identifier.literal
@@ -208,6 +221,11 @@ func (e ExprStatements) Not() interface{} {
 	return e
 }
 
+func (e ExprStatements) UnaryMinus() interface{} {
+	e.unaryMinus = true
+	return e
+}
+
 func (e VarStatement) UnaryMinus() interface{} {
 	e.unaryMinus = true
 	return e
@@ -239,6 +257,11 @@ func (n MethodStatement) Not() interface{} {
 	return n
 }
 
+func (n MethodStatement) UnaryMinus() interface{} {
+	n.unaryMinus = true
+	return n
+}
+
 func (n NewObjectStatement) Params() ExprStatements {
 	return n.Param
 }
-- 
2.43.0


From 1d08ff904e31db3c5b3282b90ef0221921dd6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 06/26] =?UTF-8?q?fix:=20Print=20keeps=20unary=20minus,=20?=
 =?UTF-8?q?=D0=9D=D0=B5=20and=20the=20parentheses=20they=20need?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

In call arguments 'Ф(-а)' and 'Ф(Не а)' were printed as 'Ф(а)', '-а.б' as 'а.б',
and '(Не а) = б' as 'Не а = б', which means something else.
---
 ast/ast_print.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index f071ccb..55c2c9f 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -161,15 +161,13 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	case time.Time:
 		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))
 	case CallChainStatement:
-		not := IF[string](val.not, "Не ", "")
-		return not + p.printCallChainStatement(val)
+		return p.printMarks(val) + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
 	case MethodStatement:
-		not := IF[string](val.not, "Не ", "")
-		return not + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
+		return p.printMarks(val) + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
 	case VarStatement:
-		return val.Name
+		return p.printMarks(val) + val.Name
 	case ItemStatement:
 		return p.printVarStatement(val.Object) + "[" + p.printExpression(val.Item, 0) + "]"
 	case TernaryStatement:
@@ -185,6 +183,12 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	}
 }
 
+// printMarks выводит унарные операции навешенные на узел
+func (p *astPrint) printMarks(stm Statement) string {
+	m := getMarks(stm)
+	return IF[string](m.not, "Не ", "") + IF[string](m.unaryMinus, "-", "")
+}
+
 func (p *astPrint) printParams(Params Statements) string {
 	params := make([]string, len(Params), len(Params))
 	for i, parm := range Params {
@@ -239,7 +243,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ThrowStatement:
 		builder.WriteString("ВызватьИсключение")
 		if v.Param != nil {
-			if param, ok := v.Param.(ExprStatements); ok {
+			if param, ok := v.Param.(ExprStatements); ok && !param.not && !param.unaryMinus {
 				builder.WriteString("(" + p.printParams(param.Statements) + ")")
 			} else {
 				builder.WriteString("(" + p.printParams(Statements{v.Param}) + ")")
@@ -330,8 +334,16 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 
 	switch v := expr.(type) {
 	case ExprStatements:
-		if v.not {
-			builder.WriteString("Не ")
+		// скобки вокруг операнда с НЕ терять нельзя: (Не а) = б и Не а = б это разные выражения
+		parens := v.not || v.unaryMinus
+		if level > 0 && len(v.Statements) == 1 {
+			if _, ok := v.Statements[0].(*ExpStatement); !ok && getMarks(v.Statements[0]).not {
+				parens = true
+			}
+		}
+
+		builder.WriteString(p.printMarks(v))
+		if parens {
 			builder.WriteString("(")
 		}
 
@@ -339,7 +351,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-		if v.not {
+		if parens {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
@@ -371,14 +383,6 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		if level > 0 {
 			builder.WriteString(")")
 		}
-	case VarStatement:
-		if v.not {
-			builder.WriteString("Не ")
-		}
-		if v.unaryMinus {
-			builder.WriteString("-")
-		}
-		builder.WriteString(p.printVarStatement(v))
 	default:
 		builder.WriteString(p.printVarStatement(v))
 	}
-- 
2.43.0


From 0fee597ac0c20f92be8ec5baf66f197cbd01db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 07/26] fix: Print keeps the fractional part of numbers

1.5 was printed as 2.
---
 ast/ast_print.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 55c2c9f..b651d54 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -150,8 +151,10 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
-	case float64, float32:
-		return fmt.Sprintf("%.0f", val)
+	case float64:
+		return strconv.FormatFloat(val, 'f', -1, 64)
+	case float32:
+		return strconv.FormatFloat(float64(val), 'f', -1, 32)
 	case int, int64, int32:
 		return fmt.Sprintf("%d", val)
 	case string:
-- 
2.43.0


From 2a3387cd055305fcb914a744191284e30e106cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 08/26] fix: Print outputs module variables in a stable order
 and never drops them

The order followed the map iteration, so two prints of one module differed, and
a module holding only variables was printed as an empty string.
---
 ast/ast_print.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index b651d54..d8dfff4 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -48,14 +49,10 @@ func (ast *AstNode) PrintStatementWithConf(stat Statement, conf PrintConf) strin
 }
 
 func (p *astPrint) print() string {
-	if len(p.ast.ModuleStatement.Body) == 0 {
-		return ""
-	}
-
 	builder := &strings.Builder{}
 
-	for _, v := range p.ast.ModuleStatement.GlobalVariables {
-		builder.WriteString(p.printGlobalVariables(v))
+	for _, name := range sortedNames(p.ast.ModuleStatement.GlobalVariables) {
+		builder.WriteString(p.printGlobalVariables(p.ast.ModuleStatement.GlobalVariables[name]))
 		builder.WriteString(p.newLine(1))
 	}
 
@@ -72,6 +69,17 @@ func (p *astPrint) print() string {
 	return builder.String()
 }
 
+// sortedNames имена в постоянном порядке, что бы вывод не зависел от обхода map
+func sortedNames[T any](vars map[string]T) []string {
+	names := make([]string, 0, len(vars))
+	for name := range vars {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+	return names
+}
+
 func (p *astPrint) printGlobalVariables(variables GlobalVariables) string {
 	builder := strings.Builder{}
 
-- 
2.43.0


From c667b46c80f1f7bb3565f3c783388901cc5676f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 09/26] fix: Print outputs the local variable declarations of a
 routine
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'Перем' sections were dropped, so the printed routine used the module variable of
the same name instead of its own.
---
 ast/ast_print.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index d8dfff4..1955663 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -152,6 +152,11 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 	builder.WriteString(" ")
 	builder.WriteString(export)
 	builder.WriteString(p.newLine(1))
+	if names := sortedNames(pf.ExplicitVariables); len(names) > 0 {
+		builder.WriteString(strings.Repeat(" ", p.conf.Margin*depth))
+		builder.WriteString("Перем " + strings.Join(names, ", ") + ";")
+		builder.WriteString(p.newLine(1))
+	}
 	builder.WriteString(p.printBody(pf.Body, depth))
 
 	return
-- 
2.43.0


From 9c97009e3fd32110edc8649df47877b73fade9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 10/26] =?UTF-8?q?fix:=20Print=20separates=20=D0=9F=D0=BE?=
 =?UTF-8?q?=D0=BF=D1=8B=D1=82=D0=BA=D0=B0=20and=20=D0=98=D1=81=D0=BA=D0=BB?=
 =?UTF-8?q?=D1=8E=D1=87=D0=B5=D0=BD=D0=B8=D0=B5=20from=20what=20follows=20?=
 =?UTF-8?q?in=20OneLine=20mode?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'Попытка а = 1' was printed as 'Попыткаа = 1', which does not parse back.
---
 ast/ast_print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 1955663..f9faef1 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -423,7 +423,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	builder := &strings.Builder{}
 
 	spaces := strings.Repeat(" ", p.conf.Margin*depth)
-	builder.WriteString("Попытка")
+	builder.WriteString("Попытка ")
 
 	if try.Body != nil {
 		builder.WriteString(p.printBody(try.Body, depth+1))
@@ -432,7 +432,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	}
 
 	builder.WriteString(spaces)
-	builder.WriteString("Исключение")
+	builder.WriteString("Исключение ")
 	if try.Catch != nil {
 		builder.WriteString(p.printBody(try.Catch, depth+1))
 	} else {
-- 
2.43.0


From bdd687ffda68ed51c473e69de9b56186bdc9edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 11/26] fix: Walk no longer attributes module body statements
 to the last routine

The root passed for a statement that follows the routines was the last of them.
---
 ast/ast_struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 74c9cc7..441e363 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -368,7 +368,8 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, v.Body, callBack)
 		case *FunctionOrProcedure:
 			walkHelper(v, v, v.Body, callBack)
-			parent = v
+			callBack(v, &parentStm, &statements[i])
+			continue // последующие операторы модуля не принадлежат этой процедуре
 		case MethodStatement:
 			walkHelper(parent, v, v.Param.Statements, callBack)
 		//case CallChainStatement:
-- 
2.43.0


From bdf9182365c4025dcdc095fb2f5bc7651afc7d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 12/26] fix: FastToLower lowers Latin letters and stays inside
 its buffer on any input

It replaced an ASCII capital with the lower case of the following byte, never
returned on a stray continuation byte, read and wrote past the terminator after a
truncated sequence, and cut the string at an embedded NUL.
---
 ast/fast_tolower/gowrap.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 1729e20..240ab09 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -7,28 +7,24 @@ package fast_tolower
 #include <stdint.h>
 #include <stdio.h> // for printf
 
-void fastToLower(char* str) {
-     for (int i = 0; str[i] != '\0';) {
+void fastToLower(char* str, int len) {
+     for (int i = 0; i < len;) {
         unsigned char byte = str[i];
 		int currentChar = 0;
 
-        if (byte <= 0x7F) {
-            currentChar = byte; // Один байт (ASCII)
+        if (byte <= 0x7F) { // Один байт (ASCII)
+            str[i] = tolower(byte);
             i++;
-        } else if (byte >= 0xC0 && byte <= 0xDF) {
+            continue;
+        } else if (byte >= 0xC0 && byte <= 0xDF && i + 1 < len && (str[i+1] & 0xC0) == 0x80) {
             currentChar = (str[i] & 0x1F) << 6 | (str[i+1] & 0x3F);
             i += 2;
-        } else if (byte >= 0xE0 && byte <= 0xEF) {
-            currentChar = (str[i] & 0x0F) << 12 | (str[i+1] & 0x3F) << 6 | (str[i+2] & 0x3F);
-            i += 3;
-        } else if (byte >= 0xF0 && byte <= 0xF7) {
-            currentChar = (str[i] & 0x07) << 18 | (str[i+1] & 0x3F) << 12 | (str[i+2] & 0x3F) << 6 | (str[i+3] & 0x3F);
-            i += 4;
+        } else { // остальные символы не меняются, их байты (и некорректные тоже) пропускаем по одному
+            i++;
+            continue;
         }
 
-		if (currentChar >= 'A' && currentChar <= 'Z') {
-			str[i-1] = tolower(str[i]);
-		} else if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
+		if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
 			int codepoint = currentChar + 32;
 	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт
 			str[i-1] = 0x80 | (codepoint & 0x3F); // Младший байт
@@ -48,8 +44,8 @@ import "unsafe"
 func FastToLower(str string) string {
 	cs := C.CString(str)
 
-	C.fastToLower(cs)
-	result := C.GoString(cs)
+	C.fastToLower(cs, C.int(len(str)))
+	result := C.GoStringN(cs, C.int(len(str)))
 	C.free(unsafe.Pointer(cs))
 
 	return result // *(*string)(unsafe.Pointer(&runes))
-- 
2.43.0


From a15444760b2cf7a5f6e0f5232c048ee08fedf5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 13/26] fix: errors at a string, date or label report where
 that token starts

The position was that of the end of the token minus the length of its literal,
which for strings and dates is neither its source length nor on its line.
---
 ast/ast.go    |  4 ++--
 ast/tokens.go | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 6976af7..3dc913a 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -73,8 +73,8 @@ func (ast *AstNode) SrsCode() string {
 }
 
 func (ast *AstNode) Error(s string) {
-	pos := ast.currentToken.GetPosition()
-	pos.Column -= len([]rune(ast.currentToken.literal)) + 1
+	pos := ast.currentToken.positionAt(ast.currentToken.begin)
+	pos.Column-- // в сообщениях колонка считается с нуля
 
 	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
 }
diff --git a/ast/tokens.go b/ast/tokens.go
index 8ae885c..abb53ad 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -27,6 +27,7 @@ type Token struct {
 	literal  string
 	position Position
 	offset   int
+	begin    int // смещение начала последнего прочитанного токена
 	prevDot  bool
 }
 
@@ -124,6 +125,7 @@ func (t *Token) next() (int, string, error) {
 	t.skipSpace()
 	t.skipComment()
 	t.skipRegions()
+	t.begin = t.offset
 
 	if t.prevDot {
 		defer func() { t.prevDot = false }()
@@ -368,13 +370,17 @@ func (t *Token) currentLet() rune {
 }
 
 func (t *Token) GetPosition() Position {
+	return t.positionAt(t.offset)
+}
+
+func (t *Token) positionAt(offset int) Position {
 	srsCode := t.ast.SrsCode()
-	eol := strings.LastIndex(srsCode[:t.offset], "\n") + 1
+	eol := strings.LastIndex(srsCode[:offset], "\n") + 1
 	lineBegin := IF[int](eol < 0, 0, eol)
 
 	return Position{
-		Line:   strings.Count(srsCode[:t.offset], "\n") + 1,
-		Column: len([]rune(srsCode[lineBegin:t.offset])) + 1,
+		Line:   strings.Count(srsCode[:offset], "\n") + 1,
+		Column: len([]rune(srsCode[lineBegin:offset])) + 1,
 	}
 }
 
-- 
2.43.0


From a09efe5eb502be0cc35c080860ea29641b4488f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 14/26] fix: a variable declared twice is reported whatever the
 letter case
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'Перем а; Перем А;' declares one variable twice, names are case-insensitive.
---
 ast/ast.go        | 15 ++++++++++++++-
 ast/ast_struct.go |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 3dc913a..820e3bf 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -146,9 +146,22 @@ func createFunctionOrProcedure(Type StatementType, directive Statement, name str
 	return result
 }
 
+// hasName проверяет наличие имени без учета регистра, имена в языке 1С регистронезависимые
+func hasName[T any](variables map[string]T, name string) bool {
+	if _, ok := variables[name]; ok {
+		return true
+	}
+	for key := range variables {
+		if strings.EqualFold(key, name) {
+			return true
+		}
+	}
+	return false
+}
+
 func appendVarStatements(existingVariables map[string]VarStatement, newVariables []Token) (map[string]VarStatement, error) {
 	for _, v := range newVariables {
-		if _, ok := existingVariables[v.literal]; ok {
+		if hasName(existingVariables, v.literal) {
 			return map[string]VarStatement{}, fmt.Errorf("%w: with the specified name %q", errVariableAlreadyDefined, v.literal)
 		} else {
 			existingVariables[v.literal] = VarStatement{Name: v.literal}
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 441e363..0bb1747 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -323,7 +323,7 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 			m.GlobalVariables = map[string]GlobalVariables{}
 		}
 
-		if _, ok := m.GlobalVariables[v.Var.Name]; ok {
+		if hasName(m.GlobalVariables, v.Var.Name) {
 			yylex.Error(fmt.Sprintf("%v: with the specified name %q", errVariableAlreadyDefined, v.Var.Name))
 		} else {
 			m.GlobalVariables[v.Var.Name] = v
-- 
2.43.0


From 4dc2a60bfba9716badd2fb0b7ed4e5abb4606e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 15/26] =?UTF-8?q?fix:=20JSON=20keeps=20unary=20minus=20and?=
 =?UTF-8?q?=20=D0=9D=D0=B5?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast.go        |  4 ++--
 ast/ast_print.go  | 16 ++++++++--------
 ast/ast_struct.go | 26 +++++++++++++-------------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 820e3bf..888f081 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -183,7 +183,7 @@ func unaryMinus(iv interface{}) interface{} {
 	case float64:
 		return -v
 	case IUnary:
-		if m := getMarks(v); m.unaryMinus || m.not {
+		if m := getMarks(v); m.IsUnaryMinus || m.IsNot {
 			return ExprStatements{Statements: Statements{v}}.UnaryMinus()
 		}
 		return v.UnaryMinus()
@@ -198,7 +198,7 @@ func not(iv interface{}) interface{} {
 	case bool:
 		return !v
 	case INot:
-		if getMarks(v).not {
+		if getMarks(v).IsNot {
 			return ExprStatements{Statements: Statements{v}}.Not()
 		}
 		return v.Not()
diff --git a/ast/ast_print.go b/ast/ast_print.go
index f9faef1..471b9ca 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -202,7 +202,7 @@ func (p *astPrint) printVarStatement(v Statement) string {
 // printMarks выводит унарные операции навешенные на узел
 func (p *astPrint) printMarks(stm Statement) string {
 	m := getMarks(stm)
-	return IF[string](m.not, "Не ", "") + IF[string](m.unaryMinus, "-", "")
+	return IF[string](m.IsNot, "Не ", "") + IF[string](m.IsUnaryMinus, "-", "")
 }
 
 func (p *astPrint) printParams(Params Statements) string {
@@ -259,7 +259,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ThrowStatement:
 		builder.WriteString("ВызватьИсключение")
 		if v.Param != nil {
-			if param, ok := v.Param.(ExprStatements); ok && !param.not && !param.unaryMinus {
+			if param, ok := v.Param.(ExprStatements); ok && !param.IsNot && !param.IsUnaryMinus {
 				builder.WriteString("(" + p.printParams(param.Statements) + ")")
 			} else {
 				builder.WriteString("(" + p.printParams(Statements{v.Param}) + ")")
@@ -351,9 +351,9 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	switch v := expr.(type) {
 	case ExprStatements:
 		// скобки вокруг операнда с НЕ терять нельзя: (Не а) = б и Не а = б это разные выражения
-		parens := v.not || v.unaryMinus
+		parens := v.IsNot || v.IsUnaryMinus
 		if level > 0 && len(v.Statements) == 1 {
-			if _, ok := v.Statements[0].(*ExpStatement); !ok && getMarks(v.Statements[0]).not {
+			if _, ok := v.Statements[0].(*ExpStatement); !ok && getMarks(v.Statements[0]).IsNot {
 				parens = true
 			}
 		}
@@ -375,14 +375,14 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString("(")
 		}
 
-		if v.not {
+		if v.IsNot {
 			builder.WriteString("Не ")
 		}
-		if v.unaryMinus {
+		if v.IsUnaryMinus {
 			builder.WriteString("-")
 		}
 
-		if v.unaryMinus || v.not {
+		if v.IsUnaryMinus || v.IsNot {
 			builder.WriteString("(")
 		}
 
@@ -392,7 +392,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		builder.WriteString(" ")
 		builder.WriteString(p.printExpression(v.Right, level+1))
 
-		if v.unaryMinus || v.not {
+		if v.IsUnaryMinus || v.IsNot {
 			builder.WriteString(")")
 		}
 
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 0bb1747..d28e6cf 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -88,9 +88,9 @@ type ParamStatement struct {
 }
 
 type addStatementField struct {
-	unaryMinus bool
-	unaryPlus  bool
-	not        bool
+	IsUnaryMinus bool `json:"UnaryMinus,omitempty"`
+	unaryPlus    bool
+	IsNot        bool `json:"Not,omitempty"`
 }
 
 type ExpStatement struct {
@@ -207,42 +207,42 @@ func (p *ParamStatement) DefaultValue(value Statement) *ParamStatement {
 }
 
 func (e *ExpStatement) UnaryMinus() interface{} {
-	e.unaryMinus = true
+	e.IsUnaryMinus = true
 	return e
 }
 
 func (e *ExpStatement) Not() interface{} {
-	e.not = true
+	e.IsNot = true
 	return e
 }
 
 func (e ExprStatements) Not() interface{} {
-	e.not = true
+	e.IsNot = true
 	return e
 }
 
 func (e ExprStatements) UnaryMinus() interface{} {
-	e.unaryMinus = true
+	e.IsUnaryMinus = true
 	return e
 }
 
 func (e VarStatement) UnaryMinus() interface{} {
-	e.unaryMinus = true
+	e.IsUnaryMinus = true
 	return e
 }
 
 func (e VarStatement) Not() interface{} {
-	e.not = true
+	e.IsNot = true
 	return e
 }
 
 func (e CallChainStatement) UnaryMinus() interface{} {
-	e.unaryMinus = true
+	e.IsUnaryMinus = true
 	return e
 }
 
 func (e CallChainStatement) Not() interface{} {
-	e.not = true
+	e.IsNot = true
 	return e
 }
 
@@ -253,12 +253,12 @@ func (e CallChainStatement) IsMethod() bool {
 }
 
 func (n MethodStatement) Not() interface{} {
-	n.not = true
+	n.IsNot = true
 	return n
 }
 
 func (n MethodStatement) UnaryMinus() interface{} {
-	n.unaryMinus = true
+	n.IsUnaryMinus = true
 	return n
 }
 
-- 
2.43.0


From 51fe69f89f7269113228418b0bb68a8470ff3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 16/26] fix: a date literal ends at its closing quote even when
 a string follows

---
 ast/tokens.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ast/tokens.go b/ast/tokens.go
index abb53ad..0860b6f 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -278,6 +278,11 @@ eos:
 		case cl == EOF:
 			return "", fmt.Errorf("unexpected EOF")
 		case cl == end:
+			if end != '"' { // у даты нет ни удвоенных кавычек, ни склейки с соседним литералом
+				t.nextPos()
+				break eos
+			}
+
 			// пропускаем двойные "
 			if t.nextLet() == '"' {
 				t.nextPos()
-- 
2.43.0


From 08cac4b3fe58930d42b5a9707866709509232dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 17/26] fix: a repeated local variable no longer panics when
 another declaration follows
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The error path left the variables of the routine nil and the next Перем wrote to them.
Repeated names are now found through a set, not by comparing with every earlier name.
---
 ast/ast.go        |  43 +++++++----
 ast/ast_struct.go |   7 +-
 ast/grammar.y     |  12 +--
 ast/y.go          | 184 ++++++++++++++++++++++------------------------
 4 files changed, 123 insertions(+), 123 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 888f081..cfda481 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -20,6 +20,8 @@ type AstNode struct {
 	isLoop       atomic.Int32
 	isTry        atomic.Int32
 	isFunction   bool
+	globalNames  nameSet
+	localNames   nameSet
 	mode         int // StmtStart или Expr
 }
 
@@ -146,28 +148,37 @@ func createFunctionOrProcedure(Type StatementType, directive Statement, name str
 	return result
 }
 
-// hasName проверяет наличие имени без учета регистра, имена в языке 1С регистронезависимые
-func hasName[T any](variables map[string]T, name string) bool {
-	if _, ok := variables[name]; ok {
-		return true
-	}
-	for key := range variables {
-		if strings.EqualFold(key, name) {
-			return true
-		}
+// nameSet имена без учета регистра, имена в языке 1С регистронезависимые
+type nameSet map[string]struct{}
+
+// add возвращает false если такое имя уже есть
+func (s nameSet) add(name string) bool {
+	key := strings.ToLower(name)
+	if _, ok := s[key]; ok {
+		return false
 	}
-	return false
+	s[key] = struct{}{}
+	return true
 }
 
-func appendVarStatements(existingVariables map[string]VarStatement, newVariables []Token) (map[string]VarStatement, error) {
+func appendVarStatements(existingVariables map[string]VarStatement, newVariables []Token, yylex yyLexer) map[string]VarStatement {
+	ast, ok := yylex.(*AstNode)
+	if !ok {
+		return existingVariables
+	}
+	if existingVariables == nil {
+		existingVariables = map[string]VarStatement{}
+		ast.localNames = nameSet{}
+	}
+
 	for _, v := range newVariables {
-		if hasName(existingVariables, v.literal) {
-			return map[string]VarStatement{}, fmt.Errorf("%w: with the specified name %q", errVariableAlreadyDefined, v.literal)
-		} else {
-			existingVariables[v.literal] = VarStatement{Name: v.literal}
+		if !ast.localNames.add(v.literal) {
+			yylex.Error(fmt.Sprintf("%v: with the specified name %q", errVariableAlreadyDefined, v.literal))
+			break
 		}
+		existingVariables[v.literal] = VarStatement{Name: v.literal}
 	}
-	return existingVariables, nil
+	return existingVariables
 }
 
 func unaryMinus(iv interface{}) interface{} {
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index d28e6cf..92b96a0 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -323,7 +323,12 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 			m.GlobalVariables = map[string]GlobalVariables{}
 		}
 
-		if hasName(m.GlobalVariables, v.Var.Name) {
+		ast, ok := yylex.(*AstNode)
+		if ok && ast.globalNames == nil {
+			ast.globalNames = nameSet{}
+		}
+
+		if ok && !ast.globalNames.add(v.Var.Name) {
 			yylex.Error(fmt.Sprintf("%v: with the specified name %q", errVariableAlreadyDefined, v.Var.Name))
 		} else {
 			m.GlobalVariables[v.Var.Name] = v
diff --git a/ast/grammar.y b/ast/grammar.y
index 6512b05..a948be9 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -170,18 +170,10 @@ opt_explicit_variables: { $$ = map[string]VarStatement{} }
 ;
 
 explicit_variables: Var identifiers semicolon { 
-                    if vars, err := appendVarStatements(map[string]VarStatement{}, $2); err != nil {
-                        yylex.Error(err.Error()) 
-                    } else {
-                        $$ = vars
-                    }
+                    $$ = appendVarStatements(nil, $2, yylex)
                 }
             | explicit_variables Var identifiers semicolon {
-                    if vars, err := appendVarStatements($1, $3); err != nil {
-                        yylex.Error(err.Error()) 
-                    } else {
-                        $$ = vars
-                    }
+                    $$ = appendVarStatements($1, $3, yylex)
                 }
 ;
 
diff --git a/ast/y.go b/ast/y.go
index b0aa4be..a1fc4fb 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:377
+//line .\grammar.y:369
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -887,25 +887,17 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:172
 		{
-			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
-				yylex.Error(err.Error())
-			} else {
-				yyVAL.explicit_variables = vars
-			}
+			yyVAL.explicit_variables = appendVarStatements(nil, yyDollar[2].identifiers, yylex)
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:179
+//line .\grammar.y:175
 		{
-			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
-				yylex.Error(err.Error())
-			} else {
-				yyVAL.explicit_variables = vars
-			}
+			yyVAL.explicit_variables = appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers, yylex)
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:190
+//line .\grammar.y:182
 		{
 			yyVAL.stmt_if = &IfStatement{
 				Expression:  yyDollar[2].stmt,
@@ -916,13 +908,13 @@ yydefault:
 		}
 	case 29:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:200
+//line .\grammar.y:192
 		{
 			yyVAL.opt_elseif_list = Statements{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:201
+//line .\grammar.y:193
 		{
 			yyVAL.opt_elseif_list = append(yyDollar[1].opt_elseif_list, &IfStatement{
 				Expression: yyDollar[3].stmt,
@@ -931,19 +923,19 @@ yydefault:
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:209
+//line .\grammar.y:201
 		{
 			yyVAL.opt_else = nil
 		}
 	case 32:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:210
+//line .\grammar.y:202
 		{
 			yyVAL.opt_else = yyDollar[2].opt_body
 		}
 	case 33:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:213
+//line .\grammar.y:205
 		{
 			yyVAL.stmt = TernaryStatement{
 				Expression: yyDollar[3].stmt,
@@ -953,13 +945,13 @@ yydefault:
 		}
 	case 34:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:222
+//line .\grammar.y:214
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 35:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line .\grammar.y:222
+//line .\grammar.y:214
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[3].token.literal,
@@ -970,13 +962,13 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:230
+//line .\grammar.y:222
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 37:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:230
+//line .\grammar.y:222
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[2].stmt,
@@ -987,13 +979,13 @@ yydefault:
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:238
+//line .\grammar.y:230
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 39:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:238
+//line .\grammar.y:230
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				WhileExpr: yyDollar[2].stmt,
@@ -1003,31 +995,31 @@ yydefault:
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:248
+//line .\grammar.y:240
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:249
+//line .\grammar.y:241
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:250
+//line .\grammar.y:242
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:251
+//line .\grammar.y:243
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:255
+//line .\grammar.y:247
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1037,240 +1029,240 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:262
+//line .\grammar.y:254
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:263
+//line .\grammar.y:255
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:264
+//line .\grammar.y:256
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:265
+//line .\grammar.y:257
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:266
+//line .\grammar.y:258
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:267
+//line .\grammar.y:259
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 51:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:268
+//line .\grammar.y:260
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:269
+//line .\grammar.y:261
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:274
+//line .\grammar.y:266
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:275
+//line .\grammar.y:267
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:281
+//line .\grammar.y:273
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:282
+//line .\grammar.y:274
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:283
+//line .\grammar.y:275
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 58:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:284
+//line .\grammar.y:276
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:285
+//line .\grammar.y:277
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 60:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:280
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 61:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:289
+//line .\grammar.y:281
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 62:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:284
 		{
 			setTryFlag(true, yylex)
 		}
 	case 63:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:284
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:298
+//line .\grammar.y:290
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:299
+//line .\grammar.y:291
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:300
+//line .\grammar.y:292
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:301
+//line .\grammar.y:293
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:302
+//line .\grammar.y:294
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:295
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:304
+//line .\grammar.y:296
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:297
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
+//line .\grammar.y:298
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:299
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:300
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:301
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:302
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:304
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:307
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:308
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:309
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1280,169 +1272,169 @@ yydefault:
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:326
+//line .\grammar.y:318
 		{
 			yyVAL.stmt = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:326
+//line .\grammar.y:318
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:328
+//line .\grammar.y:320
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 87:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:329
+//line .\grammar.y:321
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:332
+//line .\grammar.y:324
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:333
+//line .\grammar.y:325
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:334
+//line .\grammar.y:326
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:335
+//line .\grammar.y:327
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:328
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:329
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:330
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:331
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:332
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:344
+//line .\grammar.y:336
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 98:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:345
+//line .\grammar.y:337
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:346
+//line .\grammar.y:338
 		{
 			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 100:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:341
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:350
+//line .\grammar.y:342
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:351
+//line .\grammar.y:343
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
 	case 103:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:359
+//line .\grammar.y:351
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
 	case 104:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:360
+//line .\grammar.y:352
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
 	case 105:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:361
+//line .\grammar.y:353
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:366
+//line .\grammar.y:358
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:368
+//line .\grammar.y:360
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
 	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:369
+//line .\grammar.y:361
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:372
+//line .\grammar.y:364
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:373
+//line .\grammar.y:365
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:374
+//line .\grammar.y:366
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From 1121c025fc1c1451b67789e93973d29d0de017c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 18/26] fix: Print does not add parentheses around an operand
 that already has them

---
 ast/ast_print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 471b9ca..4b4f5ae 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -364,6 +364,9 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		}
 
 		for _, s := range v.Statements {
+			if _, ok := s.(*ExpStatement); ok && parens {
+				level = 0 // скобки уже есть, вторые не нужны
+			}
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-- 
2.43.0


From 927393588c8b7bb338089ce60b45808f4edc1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 19/26] fix: any number of consecutive comment and region lines
 can be skipped without exhausting the stack

---
 ast/tokens.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 0860b6f..a539016 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -316,37 +316,32 @@ func (t *Token) skipSpace() {
 
 func (t *Token) skipComment() {
 	if t.currentLet() == '/' && t.nextLet() == '/' {
-		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
-			t.nextPos()
-		}
-		t.skipSpace()
-	} else {
-		return
-	}
+		t.skipLine()
 
-	// проверяем что на новой строке нет комментария или новой области, если есть, рекурсия
-	if cl := t.currentLet(); cl == '/' {
-		t.skipComment()
-	} else if cl := t.currentLet(); cl == '#' {
+		// на новой строке тоже может быть комментарий или область
 		t.skipRegions()
 	}
 }
 
 func (t *Token) skipRegions() {
 	// todo пока будут пропускаться и условия типа #Если Не ВебКлиент Тогда, потом надо будет доработать
-	if t.currentLet() == '#' {
-		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
-			t.nextPos()
+	// именно цикл, а не рекурсия, что бы большое количество строк подряд не исчерпало стек
+	for {
+		cl := t.currentLet()
+		if cl != '#' && !(cl == '/' && t.nextLet() == '/') {
+			return
 		}
-		t.skipSpace()
+
+		t.skipLine()
 	}
+}
 
-	// проверяем что на новой строке нет комментария или новой области, если есть, рекурсия
-	if cl := t.currentLet(); cl == '/' {
-		t.skipComment()
-	} else if cl := t.currentLet(); cl == '#' {
-		t.skipRegions()
+// skipLine пропускает все до конца строки и пробелы за ней
+func (t *Token) skipLine() {
+	for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {
+		t.nextPos()
 	}
+	t.skipSpace()
 }
 
 func (t *Token) nextLet() rune {
-- 
2.43.0


From d8cc7aa189bb533aca29ef97defa23fea2d79d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 20/26] fix: many semantic errors in one module no longer take
 quadratic time

---
 ast/ast.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index cfda481..4114a67 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -75,10 +75,24 @@ func (ast *AstNode) SrsCode() string {
 }
 
 func (ast *AstNode) Error(s string) {
-	pos := ast.currentToken.positionAt(ast.currentToken.begin)
-	pos.Column-- // в сообщениях колонка считается с нуля
+	ast.err = &positionError{msg: s, token: ast.currentToken}
+}
+
+// positionError ошибка с указанием места. Позиция вычисляется только когда нужен текст ошибки:
+// для этого просматривается весь предшествующий код, а ошибок при разборе может быть много
+type positionError struct {
+	msg   string
+	token Token
+}
+
+func (e *positionError) Error() string {
+	var pos Position
+	if e.token.ast != nil {
+		pos = e.token.positionAt(e.token.begin)
+		pos.Column-- // в сообщениях колонка считается с нуля
+	}
 
-	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
+	return fmt.Sprintf("%s. line: %d, column: %d (unexpected literal: %q)", e.msg, pos.Line, pos.Column, e.token.literal)
 }
 
 func checkLoopOperator(token Token, yylex yyLexer) {
-- 
2.43.0


From 3ba5f94d4de3c5b2a8f240b9f62beb5e52dfd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 21/26] fix: FastToLower handles strings of 2 GiB and more

---
 ast/fast_tolower/gowrap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 240ab09..1d81c9d 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -7,8 +7,8 @@ package fast_tolower
 #include <stdint.h>
 #include <stdio.h> // for printf
 
-void fastToLower(char* str, int len) {
-     for (int i = 0; i < len;) {
+void fastToLower(char* str, size_t len) {
+     for (size_t i = 0; i < len;) {
         unsigned char byte = str[i];
 		int currentChar = 0;
 
@@ -44,8 +44,8 @@ import "unsafe"
 func FastToLower(str string) string {
 	cs := C.CString(str)
 
-	C.fastToLower(cs, C.int(len(str)))
-	result := C.GoStringN(cs, C.int(len(str)))
+	C.fastToLower(cs, C.size_t(len(str)))
+	result := string(unsafe.Slice((*byte)(unsafe.Pointer(cs)), len(str)))
 	C.free(unsafe.Pointer(cs))
 
 	return result // *(*string)(unsafe.Pointer(&runes))
-- 
2.43.0


From 429cf75f9882875ee9cce8b539f1384fb3a7cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:53 +0000
Subject: [PATCH 22/26] fix: printing an expression node given by value or by
 pointer no longer recurses forever

---
 ast/ast_print.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 4b4f5ae..9ad5ff9 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -349,6 +349,10 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	builder := &strings.Builder{}
 
 	switch v := expr.(type) {
+	case *ExprStatements: // printVarStatement вернул бы такой узел сюда же
+		return p.printExpression(*v, level)
+	case ExpStatement:
+		return p.printExpression(&v, level)
 	case ExprStatements:
 		// скобки вокруг операнда с НЕ терять нельзя: (Не а) = б и Не а = б это разные выражения
 		parens := v.IsNot || v.IsUnaryMinus
-- 
2.43.0


From d678607f088d2e131d1fe1aa5ca309df5761c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 23/26] =?UTF-8?q?fix:=20Print=20puts=20brackets=20around?=
 =?UTF-8?q?=20a=20left=20operand=20with=20=D0=9D=D0=B5=20that=20a=20progra?=
 =?UTF-8?q?m=20put=20into=20the=20tree?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 9ad5ff9..2c5d55d 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -393,7 +393,12 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString("(")
 		}
 
-		builder.WriteString(p.printExpression(v.Left, level+1))
+		left := p.printExpression(v.Left, level+1)
+		if _, ok := v.Left.(*ExpStatement); !ok && v.Operation != OpAnd && v.Operation != OpOr && getMarks(v.Left).IsNot {
+			left = "(" + left + ")" // без скобок НЕ относилось бы ко всей операции
+		}
+
+		builder.WriteString(left)
 		builder.WriteString(" ")
 		builder.WriteString(v.Operation.String())
 		builder.WriteString(" ")
-- 
2.43.0


From d36bc4b8bdf746406ca7cb0cd5e51ee759405eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:46 +0000
Subject: [PATCH 24/26] fix: a U+FFFD character in the text was reported on
 standard output as a decoding error

---
 ast/tokens.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index a539016..342fbda 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -360,8 +360,8 @@ func (t *Token) currentLet() rune {
 		return EOF
 	}
 
-	char, _ := utf8.DecodeRuneInString(srsCode[t.offset:])
-	if char == utf8.RuneError {
+	char, size := utf8.DecodeRuneInString(srsCode[t.offset:])
+	if char == utf8.RuneError && size <= 1 { // сам символ U+FFFD в тексте это не ошибка
 		fmt.Println(fmt.Errorf("error decoding the character"))
 		return char
 	}
-- 
2.43.0


From 4cb300e7d42796b0c99b3a29850212f5e28b418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 25/26] fix: Parse called again on one object added to the
 module it had read before

---
 ast/ast.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ast/ast.go b/ast/ast.go
index 4114a67..9a18153 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -37,6 +37,8 @@ func NewAST(code string) *AstNode {
 }
 
 func (ast *AstNode) Parse() error {
+	ast.reset()
+
 	if len(strings.TrimSpace(ast.code)) == 0 {
 		return nil
 	}
@@ -48,6 +50,18 @@ func (ast *AstNode) Parse() error {
 	return ast.err
 }
 
+// reset забывает результат предыдущего разбора, чтобы повторный Parse не дополнял его
+func (ast *AstNode) reset() {
+	ast.err = nil
+	ast.ModuleStatement = ModuleStatement{Name: ast.ModuleStatement.Name}
+	ast.currentToken = Token{}
+	ast.isLoop.Store(0)
+	ast.isTry.Store(0)
+	ast.isFunction = false
+	ast.globalNames = nil
+	ast.localNames = nil
+}
+
 func (ast *AstNode) JSON() ([]byte, error) {
 	return json.Marshal(&ast.ModuleStatement)
 }
-- 
2.43.0


From 4eade9794787881feb52bb8f5013251d8e8edd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:38 +0000
Subject: [PATCH 26/26] fix: Append refuses a variable the module already has,
 and only then

---
 ast/ast.go        | 14 ++++++++++++--
 ast/ast_struct.go | 10 +++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 9a18153..ad10eab 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -177,7 +177,7 @@ func createFunctionOrProcedure(Type StatementType, directive Statement, name str
 }
 
 // nameSet имена без учета регистра, имена в языке 1С регистронезависимые
-type nameSet map[string]struct{}
+type nameSet map[string]string
 
 // add возвращает false если такое имя уже есть
 func (s nameSet) add(name string) bool {
@@ -185,10 +185,20 @@ func (s nameSet) add(name string) bool {
 	if _, ok := s[key]; ok {
 		return false
 	}
-	s[key] = struct{}{}
+	s[key] = name
 	return true
 }
 
+// replace вернет true если в модуле есть переменная с таким именем в другом написании, иначе запоминает новое написание
+func (s nameSet) replace(name string, variables map[string]GlobalVariables) bool {
+	key := strings.ToLower(name)
+	if _, ok := variables[s[key]]; ok {
+		return true
+	}
+	s[key] = name
+	return false
+}
+
 func appendVarStatements(existingVariables map[string]VarStatement, newVariables []Token, yylex yyLexer) map[string]VarStatement {
 	ast, ok := yylex.(*AstNode)
 	if !ok {
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 92b96a0..1eb9958 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -326,9 +326,17 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 		ast, ok := yylex.(*AstNode)
 		if ok && ast.globalNames == nil {
 			ast.globalNames = nameSet{}
+			for name := range m.GlobalVariables { // модуль мог быть собран не этим разбором
+				ast.globalNames.add(name)
+			}
+		}
+
+		_, exist := m.GlobalVariables[v.Var.Name]
+		if ok && !exist && !ast.globalNames.add(v.Var.Name) {
+			exist = ast.globalNames.replace(v.Var.Name, m.GlobalVariables)
 		}
 
-		if ok && !ast.globalNames.add(v.Var.Name) {
+		if exist {
 			yylex.Error(fmt.Sprintf("%v: with the specified name %q", errVariableAlreadyDefined, v.Var.Name))
 		} else {
 			m.GlobalVariables[v.Var.Name] = v
-- 
2.43.0

