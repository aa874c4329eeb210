From fcd64ea9443ea3d1946d66b048e1b32a27a87765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 01/15] fix: DEFAULT values and OID references must not point
 into the parser stack

The address of a parser stack slot was stored in the AST, so parsing a later
component overwrote the DEFAULT value (or leading OID reference) of an earlier one.
---
 asn1.y | 4 ++--
 y.go   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1.y b/asn1.y
index e3ebfb9..c32c9c4 100644
--- a/asn1.y
+++ b/asn1.y
@@ -735,7 +735,7 @@ ComponentTypeList : ComponentType  { $$ = append(make(ComponentTypeList, 0), $1)
 
 ComponentType : NamedType  { $$ = NamedComponentType{NamedType: $1} }
               | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
-              | NamedType DEFAULT Value  { $$ = NamedComponentType{NamedType: $1, Default: &$3} }
+              | NamedType DEFAULT Value  { cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }
               | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }
 ;
 
@@ -825,7 +825,7 @@ ObjectIdentifierType : OBJECT IDENTIFIER  { $$ = ObjectIdentifierType{} }
 // 31.3
 
 ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
-                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &$2}}, $3...) }
+                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { cpy := $2; $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, $3...) }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
diff --git a/y.go b/y.go
index 89762b0..7a09dd6 100644
--- a/y.go
+++ b/y.go
@@ -1670,7 +1670,8 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:738
 		{
-			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &yyDollar[3].Value}
+			cpy := yyDollar[3].Value
+			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -1874,7 +1875,8 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:828
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &yyDollar[2].DefinedValue}}, yyDollar[3].ObjectIdentifierValue...)
+			cpy := yyDollar[2].DefinedValue
+			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 3734e74d3fa1457b27ea37eb74d50abe89eb90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 02/15] fix: parse REAL literals from their decimal notation

The digits after the point were taken as an integer, so leading zeros were lost
(1.05 became 1.5) and 1.1 became 2. Literals out of range are errors now.
---
 asn1.y    |  6 +++---
 parser.go | 27 ++++++++++++++++++---------
 y.go      |  6 +++---
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/asn1.y b/asn1.y
index c32c9c4..f15bce3 100644
--- a/asn1.y
+++ b/asn1.y
@@ -648,9 +648,9 @@ SpecialRealValue : PLUS_INFINITY  { $$ = Real(math.Inf(1)) }
 
 // TODO this seem to be not strict enough (spaces can sneak in into composite value)
 realnumber : NUMBER  { $$ = parseRealNumber($1, 0, 0) }
-           | NUMBER DOT NUMBER  { $$ = parseRealNumber($1, $3, 0) }
-           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, $3, $5) }
-           | NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, 0, $3) }
+           | NUMBER DOT NUMBER  { $$ = parseReal(yylex, $<numberRepr>1, $<numberRepr>3, 0) }
+           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseReal(yylex, $<numberRepr>1, $<numberRepr>3, $5) }
+           | NUMBER EXPONENT SignedExponent  { $$ = parseReal(yylex, $<numberRepr>1, "0", $3) }
 ;
 
 SignedExponent : NUMBER
diff --git a/parser.go b/parser.go
index 47b1bc6..dc97093 100644
--- a/parser.go
+++ b/parser.go
@@ -2,9 +2,10 @@ package asn1go
 
 import (
 	"bufio"
+	"fmt"
 	"io"
-	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -39,13 +40,21 @@ func ParseFile(name string) (*ModuleDefinition, error) {
 }
 
 func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
-	value := float64(integer)
-	if fraction != 0 {
-		shift := float64(math.Pow10(int(math.Ceil(math.Log10(float64(fraction))))))
-		value += float64(fraction) / shift
-	}
-	if exponent != 0 {
-		value *= math.Pow10(int(exponent))
+	value, _ := decimalToReal(strconv.Itoa(integer.IntValue()), strconv.Itoa(fraction.IntValue()), exponent)
+	return value
+}
+
+// parseReal returns the number written as integer "." fraction "E" exponent, where integer and fraction are digit strings.
+// Number which does not fit into Real is reported to yylex.
+func parseReal(yylex yyLexer, integer string, fraction string, exponent Number) Real {
+	value, err := decimalToReal(integer, fraction, exponent)
+	if err != nil {
+		yylex.Error(fmt.Sprintf("Failed to parse number: %v", err.Error()))
 	}
-	return Real(value)
+	return value
+}
+
+func decimalToReal(integer string, fraction string, exponent Number) (Real, error) {
+	value, err := strconv.ParseFloat(fmt.Sprintf("%s.%se%d", integer, fraction, exponent.IntValue()), 64)
+	return Real(value), err
 }
diff --git a/y.go b/y.go
index 7a09dd6..9ceac02 100644
--- a/y.go
+++ b/y.go
@@ -1502,19 +1502,19 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:651
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, 0)
+			yyVAL.Real = parseReal(yylex, yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line asn1.y:652
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, yyDollar[5].Number)
+			yyVAL.Real = parseReal(yylex, yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:653
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
+			yyVAL.Real = parseReal(yylex, yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-- 
2.43.0


From 018319f852ab8ba223be7b6beade73f4b73d556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 03/15] fix: resolve UTCTime as a useful type

References to UTCTime could not be resolved, so every module using it was rejected.
---
 ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 075e99d..5ac5cb1 100644
--- a/ast.go
+++ b/ast.go
@@ -729,10 +729,12 @@ const (
 var (
 	// USEFUL_TYPES are defined in X.680, section 41.
 	// These are built-in types that behave like type assignments that are always in scope.
-	// TODO: clarify why UTCTimeName is missing here.
 	USEFUL_TYPES map[string]Type = map[string]Type{
 		GeneralizedTimeName: TaggedType{ // [UNIVERSAL 24] IMPLICIT VisibleString
 			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(24)},
 			Type: RestrictedStringType{VisibleString}},
+		UTCTimeName: TaggedType{ // [UNIVERSAL 23] IMPLICIT VisibleString
+			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(23)},
+			Type: RestrictedStringType{VisibleString}},
 	}
 )
-- 
2.43.0


From a28ccb190a7e0e24f598ebfd42f57f53e1bfdf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 04/15] fix: import encoding/asn1 for CHOICE with tagged
 alternatives

---
 codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.go b/codegen.go
index 005441d..e25b6a2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -336,6 +336,7 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
+		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
 	if len(t.AlternativeTypeList) == 1 {
-- 
2.43.0


From 47cae24d82b19ba66994d3658dccfa9a4597a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 05/15] fix: SEQUENCE OF SET is not a SET

The element's SET made the list type a ...SET type, which encoding/asn1 encodes as SET OF.
---
 codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index e25b6a2..d6c97e0 100644
--- a/codegen.go
+++ b/codegen.go
@@ -247,7 +247,8 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 		*isSet = true
 		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
 	case SequenceOfType:
-		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+		var stubBool bool // element being a SET does not make a list one
+		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &stubBool)}
 	case SetOfType:
 		*isSet = true
 		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
-- 
2.43.0


From ee0e2883c12c9e83bca756d2b1c512a960f778bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 06/15] fix: opening and closing pairs of a comment do not
 share a character

--- and /*/ were taken as complete comments.
---
 lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer.go b/lexer.go
index 235197c..7e9f512 100644
--- a/lexer.go
+++ b/lexer.go
@@ -131,10 +131,12 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			lastWasNumber = false
 			continue
 		} else if r == '-' && lex.peekRune() == '-' {
+			lex.discard(1)
 			lex.skipLineComment()
 			lastWasNumber = false
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
+			lex.discard(1)
 			lex.skipBlockComment()
 			lastWasNumber = false
 			continue
-- 
2.43.0


From 2b7041f157d9a310d937ed500481b2f87097bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 07/15] fix: report the first error found

A lexical error was replaced by the 'unexpected $end' it causes in the parser.
---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 7e9f512..aabeaa0 100644
--- a/lexer.go
+++ b/lexer.go
@@ -409,7 +409,11 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 }
 
 // Error implements yyLexer, and is used by the parser to communicate errors.
+// First error is kept, as errors following it are often caused by it.
 func (lex *MyLexer) Error(e string) {
+	if lex.err != nil {
+		return
+	}
 	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
 }
 
-- 
2.43.0


From ff5167cdfaad1715583dae75f3c20b978b74053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 08/15] fix: do not hang or panic in the lexer when reading
 fails

Comments were skipped forever when the reader failed, and peekRunes looped
forever or sliced beyond the buffer when fewer bytes were available.
---
 lexer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lexer.go b/lexer.go
index aabeaa0..9688c1a 100644
--- a/lexer.go
+++ b/lexer.go
@@ -275,17 +275,17 @@ func (lex *MyLexer) peekRunes(n int) string {
 	for n > 0 {
 		for l := 1; l <= utf8.UTFMax; l++ {
 			buf, err := lex.bufReader.Peek(pos + l)
+			if err != nil { // buf is too short, next read will report the error
+				return acc.String()
+			}
 			slice := buf[pos : pos+l]
-			if pos+l <= len(buf) && utf8.FullRune(slice) {
+			if utf8.FullRune(slice) {
 				r, size := utf8.DecodeRune(slice)
 				acc.WriteRune(r)
 				pos += size
 				n -= 1
 				break
 			}
-			if err == io.EOF { // TODO if it is not a full rune, will swallow the error
-				return acc.String()
-			}
 		}
 	}
 	return acc.String()
@@ -303,7 +303,7 @@ func (lex *MyLexer) skipLineComment() {
 	lastIsHyphen := false
 	for {
 		r, _, err := lex.readRune()
-		if isNewline(r) || err == io.EOF {
+		if isNewline(r) || err != nil {
 			return
 		} else if r == '-' {
 			if lastIsHyphen {
@@ -321,7 +321,7 @@ func (lex *MyLexer) skipBlockComment() {
 	lastIsClosingStar := false
 	for {
 		r, _, err := lex.readRune()
-		if err == io.EOF {
+		if err != nil {
 			return
 		}
 		if r == '/' {
-- 
2.43.0


From e09ee4385ecb312dd86b38e843ee230fdcfdd963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 09/15] fix: generate valid Go for infinite REAL values

PLUS-INFINITY was generated as +Inf, which does not compile.
---
 codegen.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index d6c97e0..150d2fe 100644
--- a/codegen.go
+++ b/codegen.go
@@ -7,6 +7,7 @@ import (
 	goprint "go/printer"
 	gotoken "go/token"
 	"io"
+	"math"
 	"strings"
 )
 
@@ -202,7 +203,7 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 			valExpr = &goast.BasicLit{Value: "false"}
 		}
 	case Real:
-		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		valExpr = ctx.realToExpr(val)
 	default:
 		// TODO: produce a warning?
 		return nil
@@ -335,6 +336,18 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 	return valueExpr
 }
 
+func (ctx *moduleContext) realToExpr(val Real) goast.Expr {
+	if math.IsInf(float64(val), 0) { // there is no literal for it
+		ctx.requireModule("math")
+		sign := "1"
+		if val < 0 {
+			sign = "-1"
+		}
+		return &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: sign}}}
+	}
+	return &goast.BasicLit{Value: fmt.Sprint(val)}
+}
+
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
 		ctx.requireModule("encoding/asn1")
-- 
2.43.0


From b7e85544cfc3a686d302b951dc5d27eb632f2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 10/15] fix: circular type references are an error

unwrapToLeafType followed them until the stack overflowed.
---
 codegen.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/codegen.go b/codegen.go
index 150d2fe..7cabb14 100644
--- a/codegen.go
+++ b/codegen.go
@@ -559,14 +559,19 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 }
 
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
+// yields assignment without type if there is no such assignment, or if references are circular
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil {
-		t := assignment.Type
-		if tt, ok := ctx.removeWrapperTypes(t).(TypeReference); ok {
-			return ctx.unwrapToLeafType(tt)
-		} else {
+	// references which are not circular pass each assignment at most once
+	for range ctx.lookupContext.AssignmentList {
+		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
+		if assignment == nil {
+			break
+		}
+		tt, ok := ctx.removeWrapperTypes(assignment.Type).(TypeReference)
+		if !ok {
 			return *assignment
 		}
+		reference = tt
 	}
 	return TypeAssignment{reference, nil}
 }
-- 
2.43.0


From eee8521c585032d5dcbaffb914c0643fcbaa002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 11/15] fix: see tags of CHOICE alternatives through all
 references

A tag was missed when the tagged type was itself a reference, and an alias of
GeneralizedTime was taken as tagged.
---
 codegen.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codegen.go b/codegen.go
index 7cabb14..a1cc013 100644
--- a/codegen.go
+++ b/codegen.go
@@ -376,11 +376,14 @@ func (ctx *moduleContext) taggedChoiceTypeAlternative(name Identifier, t Type) b
 		if t.Name() == GeneralizedTimeName || t.Name() == UTCTimeName {
 			return false
 		}
-		realType := ctx.resolveTypeReference(t)
-		if realType == nil {
+		if ctx.resolveTypeReference(t) == nil {
 			return false
 		}
-		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
+		// resolved type is behind all the references, look for a tag at each of them
+		if assignment := ctx.lookupContext.AssignmentList.GetType(t.Name()); assignment != nil {
+			return ctx.taggedChoiceTypeAlternative(name, assignment.Type)
+		}
+		return false
 	case ConstraintedType:
 		return ctx.taggedChoiceTypeAlternative(name, t.Type)
 	default:
-- 
2.43.0


From e7437fbfcef4d63ebcb828094a6eff12a794bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 12/15] fix: asn1go keeps existing output on failure and prints
 errors verbatim

The output file was truncated before the input was parsed, and error texts were
used as format strings.
---
 cmd/asn1go/main.go | 60 +++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index b86b2da..8f22f17 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -2,6 +2,7 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"github.com/chemikadze/asn1go"
@@ -49,46 +50,57 @@ func parseFlags(args []string) (res flagsType) {
 	return res
 }
 
-func openChannels(inputName, outputName string) (input, output *os.File) {
-	var err error
-	input = os.Stdin
-	output = os.Stdout
-	if len(inputName) != 0 {
-		input, err = os.Open(inputName)
-		if err != nil {
-			failWithError("Can't open %s for reading: %v", inputName, err.Error())
-		}
+func openInput(inputName string) *os.File {
+	if len(inputName) == 0 {
+		return os.Stdin
 	}
-	if len(outputName) != 0 {
-		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
-		if err != nil {
-			failWithError("File %v can not be written: %v", inputName, err.Error())
-		}
-		if err := output.Truncate(0); err != nil {
-			failWithError("Failed to truncate file: %v", err.Error())
-		}
+	input, err := os.Open(inputName)
+	if err != nil {
+		failWithError("Can't open %s for reading: %v", inputName, err.Error())
 	}
-	return input, output
+	return input
+}
+
+func openOutput(outputName string) *os.File {
+	if len(outputName) == 0 {
+		return os.Stdout
+	}
+	output, err := os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
+	if err != nil {
+		failWithError("File %v can not be written: %v", outputName, err.Error())
+	}
+	if err := output.Truncate(0); err != nil {
+		failWithError("Failed to truncate file: %v", err.Error())
+	}
+	return output
 }
 
 func main() {
 	flags := parseFlags(os.Args)
-	input, output := openChannels(flags.inputName, flags.outputName)
+	input := openInput(flags.inputName)
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
+	input.Close()
 	params := asn1go.GenParams{
 		Package:     flags.packageName,
 		IntegerRepr: asn1go.IntegerRepr(flags.defaultIntRepr),
 	}
 	gen := asn1go.NewCodeGenerator(params)
-	err = gen.Generate(*module, output)
+	code := &bytes.Buffer{}
+	err = gen.Generate(*module, code)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 
-	output.Close()
-	input.Close()
+	// output is only touched when there is something to write
+	output := openOutput(flags.outputName)
+	if _, err := output.Write(code.Bytes()); err != nil {
+		failWithError("Failed to write output: %v", err.Error())
+	}
+	if err := output.Close(); err != nil {
+		failWithError("Failed to write output: %v", err.Error())
+	}
 }
-- 
2.43.0


From fc85421bc82fe78712f4916936aea9c6bf70c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 13/15] fix: refuse columns of a hex dump which are not two
 hexadecimal digits

Signed and longer columns like -5 or +5 were decoded to some byte.
---
 internal/utils/dump.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/utils/dump.go b/internal/utils/dump.go
index aaaab7e..8f07e74 100644
--- a/internal/utils/dump.go
+++ b/internal/utils/dump.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"bytes"
+	"fmt"
 	"strconv"
 	"strings"
 	"time"
@@ -18,7 +19,10 @@ func ParseWiresharkHex(str string) []byte {
 			if len(byteRepr) == 0 {
 				continue
 			}
-			x, err := strconv.ParseInt(byteRepr, 16, 9)
+			if len(byteRepr) != 2 {
+				panic(fmt.Errorf("expected two hexadecimal digits, got %q", byteRepr))
+			}
+			x, err := strconv.ParseUint(byteRepr, 16, 8)
 			if err != nil {
 				panic(err)
 			}
-- 
2.43.0


From 501c87eb072fcee3fb979497608e9c16691e2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 14/15] fix: initialise REAL variables by plain numbers, not by
 big.Int

---
 codegen.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index a1cc013..9a1fe4a 100644
--- a/codegen.go
+++ b/codegen.go
@@ -195,7 +195,12 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 	var valExpr goast.Expr
 	switch val := val.(type) {
 	case Number:
-		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
+		repr := ctx.params.IntegerRepr
+		if ctx.isRealType(t) {
+			// float64 is initialised by the number itself
+			repr = IntegerReprInt64
+		}
+		valExpr = numberToExpr(val, repr)
 	case Boolean:
 		if val {
 			valExpr = &goast.BasicLit{Value: "true"}
@@ -561,6 +566,16 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 	}
 }
 
+// isRealType tells whether type is REAL or refers to it.
+func (ctx *moduleContext) isRealType(t Type) bool {
+	t = ctx.removeWrapperTypes(t)
+	if reference, ok := t.(TypeReference); ok {
+		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
+	}
+	_, ok := t.(RealType)
+	return ok
+}
+
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
 // yields assignment without type if there is no such assignment, or if references are circular
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-- 
2.43.0


From 6ca04a0fd23a8937637415c5da536004b5091a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 15/15] fix: report a failure of the reader even if it recovers

---
 parser.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index dc97093..eb4f6b7 100644
--- a/parser.go
+++ b/parser.go
@@ -21,7 +21,7 @@ func ParseString(str string) (*ModuleDefinition, error) {
 // ParseStream reads text of ASN.1 definitions from provided reader and parses it into ASN.1 AST.
 func ParseStream(reader io.Reader) (*ModuleDefinition, error) {
 	lex := &MyLexer{}
-	lex.bufReader = bufio.NewReader(reader)
+	lex.bufReader = bufio.NewReader(&stickyReader{reader: reader})
 	yyParse(lex)
 	if lex.err != nil {
 		return nil, lex.err
@@ -29,6 +29,21 @@ func ParseStream(reader io.Reader) (*ModuleDefinition, error) {
 	return lex.result, nil
 }
 
+// stickyReader keeps failing after reader failed once, as bufio.Reader tells about a failure only once.
+type stickyReader struct {
+	reader io.Reader
+	err    error
+}
+
+func (r *stickyReader) Read(buf []byte) (int, error) {
+	if r.err != nil {
+		return 0, r.err
+	}
+	n, err := r.reader.Read(buf)
+	r.err = err
+	return n, err
+}
+
 // ParseFile parses ASN.1 definition file into ASN.1 AST.
 func ParseFile(name string) (*ModuleDefinition, error) {
 	file, err := os.Open(name)
-- 
2.43.0

