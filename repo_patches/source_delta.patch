From 802ae83d674c64a759e5e5ca7a72de06bc0cda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 01/78] fix: a '.' before a digit no longer makes the scanner
 loop forever

The language has no fractions, so scanNumber never consumed the '.', and
Scan returned the same empty ILLEGAL token for ever on input such as ".5".
A '.' is now an illegal character like any other.
---
 pkg/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 1d3d44d..62be993 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -708,7 +708,7 @@ scanAgain:
 			insertSemi = true
 			tok = token.IDENT
 		}
-	case isDecimal(ch) || ch == '.' && isDecimal(rune(s.peek())):
+	case isDecimal(ch):
 		insertSemi = true
 		tok, lit = s.scanNumber()
 	default:
-- 
2.43.0


From 2d91f7b8d61ab1819d759812a664f33ffd37ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 02/78] fix: report a lone '/' as an illegal character

It was returned as an ILLEGAL token with an empty literal and no error.
---
 pkg/scanner/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 62be993..72a5912 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -780,6 +780,11 @@ scanAgain:
 				}
 				tok = token.COMMENT
 				lit = comment
+			} else {
+				s.errorf(s.file.Offset(pos), "illegal character %#U", ch)
+				insertSemi = s.insertSemi // preserve insertSemi info
+				tok = token.ILLEGAL
+				lit = string(ch)
 			}
 		case '=':
 			tok = token.ASSIGN
-- 
2.43.0


From 10c7bea50c0fe59c31ab98c1c6afdefe3b35f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 03/78] fix: a file whose first token is malformed is reported,
 not a nil dereference

---
 pkg/parser/interface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 3a58826..1c4fe92 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -83,7 +83,9 @@ func ParseFile(fset *token.FileSet, filename string, src interface{}, mode Mode)
 	// parse source
 	p.init(fset, filename, text, mode)
 	f = p.parseFile()
-	f.Path = filename
+	if f != nil {
+		f.Path = filename
+	}
 	return
 }
 
-- 
2.43.0


From 0411f3f889892f07802c9e1057afc3418d67aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 04/78] fix: a list or map as a method's type is reported, not
 a failed type assertion

---
 pkg/parser/parser.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a0fc84d..482ede3 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -595,6 +595,19 @@ func (p *parser) parseVarType() ast.Type {
 	return typ
 }
 
+// parseMethodType parses the type of a method's result or parameter, which
+// cannot be a list or a map.
+func (p *parser) parseMethodType() *ast.VarType {
+	typ := p.parseVarType()
+	if v, ok := typ.(*ast.VarType); ok {
+		return v
+	}
+	p.error(typ.Pos(), "a method's result and parameter cannot be a list or a map")
+	return &ast.VarType{
+		TypeExpr: &ast.BadExpr{From: typ.Pos(), To: p.pos},
+	}
+}
+
 func (p *parser) parseMethodSpec() *ast.FuncType {
 	if p.trace {
 		defer un(trace(p, "MethodSpec"))
@@ -602,18 +615,18 @@ func (p *parser) parseMethodSpec() *ast.FuncType {
 
 	doc := p.leadComment
 	tags := p.parseTags()
-	result := p.parseVarType()
+	result := p.parseMethodType()
 	name := p.parseIdent()
 	p.expect(token.LPAREN)
-	param := p.parseVarType()
+	param := p.parseMethodType()
 	paramName := p.parseIdent()
 	p.expect(token.RPAREN)
 	id := p.parseId()
 
 	var typ = &ast.FuncType{
-		Result:    result.(*ast.VarType),
+		Result:    result,
 		Name:      name,
-		Param:     param.(*ast.VarType),
+		Param:     param,
 		ParamName: paramName,
 		Doc:       doc,
 		Comment:   doc,
-- 
2.43.0


From efb704979f71f619d3baf1824595f65835d0b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 05/78] fix: whatever token follows a method is no longer
 skipped

---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 482ede3..0cb51d9 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -873,7 +873,7 @@ func (p *parser) parseServerSpec(doc *ast.CommentGroup, tags []*ast.Tag) ast.Spe
 	var list []*ast.FuncType
 	for p.tok != token.RBRACE && p.tok != token.EOF {
 		list = append(list, p.parseMethodSpec())
-		p.next()
+		p.expectSemi()
 	}
 	rbrace := p.expect(token.RBRACE)
 
-- 
2.43.0


From 4082ce582c219f486ba24d6a818024267bbee4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 06/78] fix: an enum item needs '=' before its number

---
 pkg/parser/parser.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 0cb51d9..6b51a54 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -841,13 +841,7 @@ func (p *parser) parseEnumItem(scope *ast.Scope) *ast.EnumItem {
 	}
 	name := p.parseIdent()
 
-	var id *ast.BasicLit
-	p.next()
-	if p.tok != token.INT {
-		p.errorExpected(p.pos, "not find int")
-	}
-	id = &ast.BasicLit{ValuePos: p.pos, Kind: p.tok, Value: p.lit}
-	p.next()
+	id := p.parseId()
 
 	p.expectSemi() // call before accessing p.linecomment
 	return &ast.EnumItem{
-- 
2.43.0


From 18f7e17d746c9dadb490197a40cf4fffee84503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 07/78] fix: a package clause without a language name is
 reported

---
 pkg/parser/parser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 6b51a54..adeae02 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -980,10 +980,7 @@ func (p *parser) parsePackageSpec() *ast.PackageSpec {
 		return nil
 	}
 
-	var ident *ast.Ident
-	if token.IDENT == p.tok {
-		ident = p.parseIdent()
-	}
+	ident := p.parseIdent()
 
 	if token.ASSIGN != p.tok {
 		p.error(pos, "invalid import path:= ")
-- 
2.43.0


From ed8863a1b07a980355a1b0ff7b3940b7de280a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 08/78] fix: the keys of every tag are checked, not only the
 first tag's

---
 pkg/build/build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bb87369..1550be9 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -310,7 +310,10 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	}
 
 	for _, tag := range tags {
-		return b.checkKeyValue(tag.KV)
+		err := b.checkKeyValue(tag.KV)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 148f17e42e32975e164399363f10082df24cd460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 09/78] fix: the tags of an enum are checked like those of a
 data type

---
 pkg/build/enum.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index aa4acf6..a24da0e 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -6,6 +6,10 @@ import (
 )
 
 func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error {
+	err := b.checkTags(enum.Tags)
+	if err != nil {
+		return err
+	}
 	name := enum.Name.Name
 	if _, ok := _keys[BaseType(name)]; ok {
 		return scanner.Error{
@@ -21,7 +25,7 @@ func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error
 		}
 	}
 
-	err := b.checkEnumItem(file, enum)
+	err = b.checkEnumItem(file, enum)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ac2138b4c33ee818c30b5807d9401c3b51f93460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 10/78] fix: a map key of an unknown, list or map type is
 reported instead of crashing

---
 pkg/build/build.go | 2 +-
 pkg/build/data.go  | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 1550be9..5558ac0 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -265,7 +265,7 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 			return nil
 		}
 		obj := b.GetDataType(file, varType.TypeExpr.(*ast.Ident).Name)
-		if obj.Kind == ast.Enum {
+		if nil != obj && obj.Kind == ast.Enum {
 			varType.TypeExpr.(*ast.Ident).Obj = obj
 			return nil
 		}
diff --git a/pkg/build/data.go b/pkg/build/data.go
index 83836e2..9a5ed6c 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -170,7 +170,14 @@ func (b *Builder) checkDataItem(file *ast.File, data *ast.DataType) error {
 			}
 		case *ast.MapType:
 			ma := item.Type.(*ast.MapType)
-			err := b.checkDataMapKey(file, ma.Key.(*ast.VarType))
+			key, ok := ma.Key.(*ast.VarType)
+			if !ok {
+				return scanner.Error{
+					Pos: b.fset.Position(ma.Key.Pos()),
+					Msg: "Map keys can only be of type",
+				}
+			}
+			err := b.checkDataMapKey(file, key)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From b97c6d81b9f6d2ac35936b24335f853bd3800e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 11/78] fix: ids are compared by value, not by spelling

---
 pkg/build/build.go | 10 ++++++++++
 pkg/build/data.go  |  2 +-
 pkg/build/enum.go  |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 5558ac0..9d436d6 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -7,6 +7,7 @@ import (
 	"hbuf/pkg/token"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -423,6 +424,15 @@ func CheckSuperMethod(name string, typ *ast.ServerType) bool {
 	return false
 }
 
+// NumberText 整数字面量的十进制文本 (0x10, 0b1, 010 => 16, 1, 8)
+func NumberText(lit string) string {
+	val, err := strconv.ParseUint(lit, 0, 64)
+	if err != nil {
+		return lit
+	}
+	return strconv.FormatUint(val, 10)
+}
+
 // StringToHumpName 转驼峰名
 func StringToHumpName(val string) string {
 	if 0 == len(val) {
diff --git a/pkg/build/data.go b/pkg/build/data.go
index 9a5ed6c..fab5732 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -231,7 +231,7 @@ func (b *Builder) checkDataDuplicateItem(data *ast.DataType, index int, name str
 func (b *Builder) checkDataDuplicateValue(data *ast.DataType, index int, id string) bool {
 	for i := index + 1; i < len(data.Fields.List); i++ {
 		s := data.Fields.List[i]
-		if s.Id.Value == id {
+		if NumberText(s.Id.Value) == NumberText(id) {
 			return true
 		}
 	}
diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index a24da0e..e811c9f 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -75,7 +75,7 @@ func (b *Builder) checkEnumDuplicateItem(enum *ast.EnumType, index int, name str
 func (b *Builder) checkEnumDuplicateValue(enum *ast.EnumType, index int, id string) bool {
 	for i := index + 1; i < len(enum.Items); i++ {
 		s := enum.Items[i]
-		if s.Id.Value == id {
+		if NumberText(s.Id.Value) == NumberText(id) {
 			return true
 		}
 	}
-- 
2.43.0


From cd5ab6e511a50e170daffb3007114bfbb1a05203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 12/78] fix: the types of a file that imports itself are not
 duplicates

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 9d436d6..087f89c 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -223,7 +223,7 @@ func (b *Builder) checkDuplicateType(file *ast.File, index int, name string) boo
 	}
 
 	for _, spec := range file.Imports {
-		if f, ok := b.pkg.Files[spec.Path.Value]; ok {
+		if f, ok := b.pkg.Files[spec.Path.Value]; ok && f != file {
 			if obj := f.Scope.Lookup(name); nil != obj {
 				return true
 			}
-- 
2.43.0


From a5d383ccd3f8827d3f36e535a6a57b8fadaf9329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 13/78] fix: an enum value or method id has the same value in
 every target

---
 pkg/dart/enum.go         | 2 +-
 pkg/dart/server.go       | 4 ++--
 pkg/golang/enum.go       | 2 +-
 pkg/java/enum.go         | 2 +-
 pkg/java/server.go       | 2 +-
 pkg/typescript/enum.go   | 2 +-
 pkg/typescript/server.go | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index 9b1fec7..a98823c 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -60,7 +60,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("\t///" + item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + item.Id.Value + ", '" + build.StringToHumpName(item.Name.Name) + "'")
+		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + build.NumberText(item.Id.Value) + ", '" + build.StringToHumpName(item.Name.Name) + "'")
 		if isUi {
 			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
 		}
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 87cba6a..793fd2d 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -73,7 +73,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
-		dst.Code("0 << 32 | " + method.Id.Value)
+		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		dst.Code(", ")
@@ -136,7 +136,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("    _invokeIds = {\n")
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		//dst.Code("        " + server.Id.Value + " << 32 | " + method.Id.Value + ": ServerInvoke(\n")
-		dst.Code("        0 << 32 | " + method.Id.Value + ": ServerInvoke(\n")
+		dst.Code("        0 << 32 | " + build.NumberText(method.Id.Value) + ": ServerInvoke(\n")
 		dst.Code("        toData: (List<int> buf) async {\n")
 		dst.Code("          return ")
 		b.printType(dst, method.Param.Type(), false)
diff --git a/pkg/golang/enum.go b/pkg/golang/enum.go
index 2611abc..5e6ef05 100644
--- a/pkg/golang/enum.go
+++ b/pkg/golang/enum.go
@@ -22,7 +22,7 @@ func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
 			dst.Code("// " + name + itemName + " " + item.Doc.Text())
 		}
-		dst.Code("const " + name + itemName + " " + name + " = " + item.Id.Value + "\n\n")
+		dst.Code("const " + name + itemName + " " + name + " = " + build.NumberText(item.Id.Value) + "\n\n")
 	}
 
 	dst.Code("func (e " + name + ") Pointer() *" + name + " {\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 09a1027..bccb619 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -64,7 +64,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("///" + item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
+		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + itemName + "\"")
 		if isUi {
 			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
 		}
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 38627c8..396e2e6 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -77,7 +77,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
-		dst.Code("0 << 32 | " + method.Id.Value)
+		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index f3134ae..8b82e23 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -48,7 +48,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tpublic static readonly " + itemName + " = new " + enumName + "(")
-		dst.Code(item.Id.Value + ", \"" + build.StringToHumpName(item.Name.Name) + "\"")
+		dst.Code(build.NumberText(item.Id.Value) + ", \"" + build.StringToHumpName(item.Name.Name) + "\"")
 		dst.Code(");\n\n")
 	}
 	dst.Code("\n")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index d41599b..9512168 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -97,7 +97,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(">(\"")
 		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
-		dst.Code("0 << 32 | " + method.Id.Value)
+		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		dst.Code(", ")
-- 
2.43.0


From b25cdb1a6c6dc6b2b3548bc6a0dd00e84d43ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 14/78] fix: files are checked and built in a fixed order

---
 pkg/build/build.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 087f89c..d7c42ca 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -7,6 +7,7 @@ import (
 	"hbuf/pkg/token"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -132,7 +133,8 @@ func Build(out string, in string, typ string, pack string) error {
 		return err
 	}
 
-	for path, file := range build.pkg.Files {
+	for _, path := range build.sortedFiles() {
+		file := build.pkg.Files[path]
 		_, name := filepath.Split(path)
 		err := build.build(file, build.fset, &Param{
 			out:   filepath.Join(build.param.out, name),
@@ -148,11 +150,11 @@ func Build(out string, in string, typ string, pack string) error {
 }
 
 func (b *Builder) checkFiles() error {
-	for path, file := range b.pkg.Files {
+	for _, path := range b.sortedFiles() {
 		imports := map[string]void{
 			path: {},
 		}
-		err := b.checkFile(file, imports)
+		err := b.checkFile(b.pkg.Files[path], imports)
 		if err != nil {
 			return err
 		}
@@ -161,6 +163,13 @@ func (b *Builder) checkFiles() error {
 	return nil
 }
 
+// sortedFiles returns the paths of all files in a fixed order.
+func (b *Builder) sortedFiles() []string {
+	paths := GetKeysByMap(b.pkg.Files)
+	sort.Strings(paths)
+	return paths
+}
+
 func (b *Builder) checkFile(file *ast.File, imports map[string]void) error {
 	for index, s := range file.Specs {
 		switch s.(type) {
-- 
2.43.0


From 4aac0515a13da51fc42ce84ed9639376d05b354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 15/78] fix: an inheritance cycle is reported instead of
 overflowing the stack

---
 pkg/build/build.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index d7c42ca..bf44ac8 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -160,6 +160,54 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
+	for _, path := range b.sortedFiles() {
+		for _, s := range b.pkg.Files[path].Specs {
+			if spec, ok := s.(*ast.TypeSpec); ok {
+				err := b.checkCycle(spec, map[*ast.TypeSpec]bool{})
+				if err != nil {
+					return err
+				}
+			}
+		}
+	}
+	return nil
+}
+
+func getExtends(spec *ast.TypeSpec) []*ast.Extends {
+	switch t := spec.Type.(type) {
+	case *ast.DataType:
+		return t.Extends
+	case *ast.ServerType:
+		return t.Extends
+	}
+	return nil
+}
+
+// checkCycle reports a type that inherits from itself. visited is false for
+// the types on the way from the first type and true for the finished ones.
+func (b *Builder) checkCycle(spec *ast.TypeSpec, visited map[*ast.TypeSpec]bool) error {
+	visited[spec] = false
+	for _, extend := range getExtends(spec) {
+		parent, ok := extend.Name.Obj.Decl.(*ast.TypeSpec)
+		if !ok {
+			continue
+		}
+		done, seen := visited[parent]
+		if seen && !done {
+			return scanner.Error{
+				Pos: b.fset.Position(extend.Name.Pos()),
+				Msg: "Inheritance cycle: " + extend.Name.Name,
+			}
+		}
+		if seen {
+			continue
+		}
+		err := b.checkCycle(parent, visited)
+		if err != nil {
+			return err
+		}
+	}
+	visited[spec] = true
 	return nil
 }
 
-- 
2.43.0


From fe762c2a1cc7110de554bc42125e1f06522c1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 16/78] fix: names with leading, trailing or doubled
 underscores or non-ASCII letters are converted

---
 pkg/build/build.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bf44ac8..b76d444 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -10,6 +10,8 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 type BaseType string
@@ -492,16 +494,15 @@ func NumberText(lit string) string {
 
 // StringToHumpName 转驼峰名
 func StringToHumpName(val string) string {
-	if 0 == len(val) {
-		return val
-	}
-	temp := strings.Split(val, "_")
 	var ret string
-	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+	for _, item := range strings.Split(val, "_") {
+		if 0 == len(item) {
+			continue
+		}
+		first, size := utf8.DecodeRuneInString(item)
+		ret += string(unicode.ToUpper(first)) + item[size:]
 	}
-	return ret
+	return identifier(ret, val)
 }
 
 // StringToFirstLower 转首字母小写
@@ -509,13 +510,20 @@ func StringToFirstLower(val string) string {
 	if 0 == len(val) {
 		return val
 	}
-	temp := strings.Split(val, "_")
-	var ret string
-	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+	ret := StringToHumpName(val)
+	first, size := utf8.DecodeRuneInString(ret)
+	return string(unicode.ToLower(first)) + ret[size:]
+}
+
+// identifier 转换后的名称不能为空，也不能以数字开头
+func identifier(ret string, val string) string {
+	if 0 == len(ret) {
+		return val
+	}
+	if first, _ := utf8.DecodeRuneInString(ret); unicode.IsDigit(first) {
+		return "_" + ret
 	}
-	return strings.ToLower(ret[:1]) + ret[1:]
+	return ret
 }
 
 // StringToUnderlineName 下划线
@@ -558,7 +566,7 @@ func StringToUnderlineName(val string) string {
 			ret += "_" + temp
 		}
 	}
-	return ret
+	return identifier(ret, val)
 }
 
 // StringToAllUpper 下划线加全部大写
@@ -601,7 +609,7 @@ func StringToAllUpper(val string) string {
 			ret += "_" + temp
 		}
 	}
-	return ret
+	return identifier(ret, val)
 }
 
 func IsNumber(expr ast.Expr) bool {
-- 
2.43.0


From 76da939992a325c9291304239fe1ba54a00b4661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 17/78] fix: names that become one name in the generated code
 are duplicates

---
 pkg/build/build.go  | 11 ++++++++---
 pkg/build/data.go   |  2 +-
 pkg/build/enum.go   |  2 +-
 pkg/build/server.go |  2 +-
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index b76d444..0b28b8f 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -264,17 +264,17 @@ func (b *Builder) checkDuplicateType(file *ast.File, index int, name string) boo
 			switch t.(type) {
 			case *ast.EnumType:
 				n := (t.(*ast.EnumType)).Name.Name
-				if n == name {
+				if sameName(n, name) {
 					return true
 				}
 			case *ast.DataType:
 				n := (t.(*ast.DataType)).Name.Name
-				if n == name {
+				if sameName(n, name) {
 					return true
 				}
 			case *ast.ServerType:
 				n := (t.(*ast.ServerType)).Name.Name
-				if n == name {
+				if sameName(n, name) {
 					return true
 				}
 			}
@@ -515,6 +515,11 @@ func StringToFirstLower(val string) string {
 	return string(unicode.ToLower(first)) + ret[size:]
 }
 
+// sameName 转换后是否会成为同一个名称
+func sameName(a string, b string) bool {
+	return a == b || StringToHumpName(a) == StringToHumpName(b) || StringToUnderlineName(a) == StringToUnderlineName(b)
+}
+
 // identifier 转换后的名称不能为空，也不能以数字开头
 func identifier(ret string, val string) string {
 	if 0 == len(ret) {
diff --git a/pkg/build/data.go b/pkg/build/data.go
index fab5732..7578d03 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -221,7 +221,7 @@ func (b *Builder) checkDataDuplicateExtends(data *ast.DataType, index int, name
 func (b *Builder) checkDataDuplicateItem(data *ast.DataType, index int, name string) bool {
 	for i := index + 1; i < len(data.Fields.List); i++ {
 		s := data.Fields.List[i]
-		if s.Name.Name == name {
+		if sameName(s.Name.Name, name) {
 			return true
 		}
 	}
diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index e811c9f..c4605e0 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -65,7 +65,7 @@ func (b *Builder) checkEnumItem(file *ast.File, enum *ast.EnumType) error {
 func (b *Builder) checkEnumDuplicateItem(enum *ast.EnumType, index int, name string) bool {
 	for i := index + 1; i < len(enum.Items); i++ {
 		s := enum.Items[i]
-		if s.Name.Name == name {
+		if sameName(s.Name.Name, name) {
 			return true
 		}
 	}
diff --git a/pkg/build/server.go b/pkg/build/server.go
index 754975d..708b9b3 100644
--- a/pkg/build/server.go
+++ b/pkg/build/server.go
@@ -141,7 +141,7 @@ func (b *Builder) checkServerItemType(file *ast.File, result *ast.VarType) error
 func (b *Builder) checkServerDuplicateItem(server *ast.ServerType, index int, name string) bool {
 	for i := index + 1; i < len(server.Methods); i++ {
 		s := server.Methods[i]
-		if s.Name.Name == name {
+		if sameName(s.Name.Name, name) {
 			return true
 		}
 	}
-- 
2.43.0


From 9f9a686a01bd911f680ba772a1b4d07fa4f491ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 18/78] fix: a type or method name is converted wherever it is
 used

---
 pkg/dart/dart.go             | 2 +-
 pkg/dart/data.go             | 9 +++++----
 pkg/dart/ui.go               | 2 +-
 pkg/golang/data.go           | 2 +-
 pkg/golang/gloang.go         | 2 +-
 pkg/golang/server.go         | 2 +-
 pkg/java/java.go             | 2 +-
 pkg/typescript/data.go       | 9 +++++----
 pkg/typescript/typescript.go | 6 +++---
 pkg/typescript/ui.go         | 2 +-
 10 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 62b402b..0987c04 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -215,7 +215,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("package:decimal/decimal.dart", "")
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 792e74a..4e14e2c 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -406,17 +406,18 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
+			typeName := build.StringToHumpName(t.Name)
 			if ast.Enum == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null :" + v + " is num ? " + t.Name + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + t.Name + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
+					dst.Code("null == " + name + " ? null :" + v + " is num ? " + typeName + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + typeName + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".valueOf(0) : " + t.Name + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
+					dst.Code("null == " + name + " ? " + typeName + ".valueOf(0) : " + typeName + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + typeName + ".fromMap(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".fromMap({}) : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? " + typeName + ".fromMap({}) : " + typeName + ".fromMap(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 87c6ec9..539247f 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -402,7 +402,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	switch expr.(type) {
 	case *ast.EnumType:
 		t := expr.(*ast.EnumType)
-		dst.Code(t.Name.Name + ".nameOf(" + name + "!)")
+		dst.Code(build.StringToHumpName(t.Name.Name) + ".nameOf(" + name + "!)")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index ce3cf51..792bc80 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -117,7 +117,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 			if t.Obj.Kind == ast.Enum {
 				dst.Code("(0)")
 			} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index b67ee5b..fcb1cbf 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -240,7 +240,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, b2 bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 		} else {
 			if build.Date == build.BaseType((expr.(*ast.Ident)).Name) {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 8c5df35..6204d8d 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -133,7 +133,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("\terr := ")
 	}
 	dst.Code(pack)
-	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
+	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
 	dst.Code("req.")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 180c4fa..1ffdefa 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -224,7 +224,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigDecimal", "")
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 58c91d5..d5df7b0 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -188,6 +188,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
+			typeName := build.StringToHumpName(t.Name)
 			p := b.getPackage(dst, t, "")
 			if ast.Enum == t.Obj.Kind {
 				if isRecordKey {
@@ -198,16 +199,16 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					if empty {
-						dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? null : " + p + "." + typeName + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + t.Name + ".valueOf(0) : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + typeName + ".valueOf(0) : " + p + "." + typeName + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + p + "." + typeName + ".fromJson(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + p + "." + t.Name + ".fromJson({}) : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? " + p + "." + typeName + ".fromJson({}) : " + p + "." + typeName + ".fromJson(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index ecfd7a7..4e3a205 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -245,7 +245,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 			}
 		} else {
 			if isRecordKey {
@@ -332,14 +332,14 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code(".valueOf(0)")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code("()")
 			}
 		} else {
diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 024327a..85ba27d 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -315,7 +315,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 			dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 		}
 		p := b.getPackage(dst, t.Name, "")
-		dst.Code("(").Code(p).Code(".").Code(t.Name.Name).Code(".nameOf(").Code(name).Code("))")
+		dst.Code("(").Code(p).Code(".").Code(build.StringToHumpName(t.Name.Name)).Code(".nameOf(").Code(name).Code("))")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-- 
2.43.0


From 24c74c65010c86799fcd13e06d80f4e94d0c8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 19/78] fix: a Java enum converts names and compares items like
 the other targets

---
 pkg/java/enum.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index bccb619..23d7bb8 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -11,10 +11,6 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
-	_, isUi := build.GetTag(typ.Tags, "ui")
-	if isUi {
-		b.getPackage(dst, typ.Name, "ui")
-	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
 		dst.Code("///" + typ.Doc.Text())
 	}
@@ -32,8 +28,8 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\tpublic boolean equals(Object o) {\n")
 	dst.Code("\t\t\tif (this == o) return true;\n")
 	dst.Code("\t\t\tif (o == null || getClass() != o.getClass()) return false;\n")
-	dst.Code("\t\t\tTest test = (Test) o;\n")
-	dst.Code("\t\t\treturn value == test.value;\n")
+	dst.Code("\t\t\t" + enumName + " other = (" + enumName + ") o;\n")
+	dst.Code("\t\t\treturn value == other.value;\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\t@Override\n")
@@ -47,16 +43,16 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by value error, value=\" + value);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by value error, value=\" + value);\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\tpublic static " + enumName + " nameOf(String name) {\n")
 	dst.Code("\t\t\tfor (" + enumName + " item : values) {\n")
-	dst.Code("\t\t\t\tif (item.name == name) {\n")
+	dst.Code("\t\t\t\tif (item.name.equals(name)) {\n")
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by name error, name=\" + name);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by name error, name=\" + name);\n")
 	dst.Code("\t\t}\n\n")
 
 	for _, item := range typ.Items {
@@ -64,10 +60,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("///" + item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + itemName + "\"")
-		if isUi {
-			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
-		}
+		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + build.StringToHumpName(item.Name.Name) + "\"")
 		dst.Code(");\n")
 	}
 	dst.Code("\n")
-- 
2.43.0


From f81478bbe3c97058ca6c495d59316a34ee44a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 20/78] fix: a redeclared field or method takes the place of
 the inherited one

---
 pkg/build/build.go | 123 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 93 insertions(+), 30 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 0b28b8f..a063bf3 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -402,32 +402,64 @@ func GetKeyValue(kvs []*ast.KeyValue, key string) (*ast.KeyValue, bool) {
 	return nil, false
 }
 
-func enumField(typ *ast.DataType, fields map[string]struct{}, call func(field *ast.Field, data *ast.DataType) error) error {
+// inherits 是否直接或间接继承自 base
+func inherits(typ *ast.DataType, base *ast.DataType, seen map[*ast.DataType]bool) bool {
 	for _, extend := range typ.Extends {
-		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
-		data := types.Type.(*ast.DataType)
-		err := enumField(data, fields, call)
-		if err != nil {
-			return err
+		data := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		if data == base {
+			return true
 		}
+		if !seen[data] {
+			seen[data] = true
+			if inherits(data, base, seen) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+type flatField struct {
+	field *ast.Field
+	data  *ast.DataType
+}
+
+// enumField 父类的字段在前，重新声明的字段替换父类的字段
+func enumField(typ *ast.DataType, list []flatField, seen map[*ast.DataType]bool) []flatField {
+	if seen[typ] {
+		return list
+	}
+	seen[typ] = true
+	for _, extend := range typ.Extends {
+		list = enumField(extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType), list, seen)
 	}
 
 	for _, field := range typ.Fields.List {
-		if _, ok := fields[field.Name.Name]; ok {
-			continue
+		index := -1
+		for i, item := range list {
+			if sameName(item.field.Name.Name, field.Name.Name) {
+				index = i
+				break
+			}
+		}
+		if 0 > index {
+			list = append(list, flatField{field: field, data: typ})
+		} else if inherits(typ, list[index].data, map[*ast.DataType]bool{}) {
+			list[index] = flatField{field: field, data: typ}
 		}
-		err := call(field, typ)
+	}
+	return list
+}
+
+func EnumField(typ *ast.DataType, call func(field *ast.Field, data *ast.DataType) error) error {
+	for _, item := range enumField(typ, nil, map[*ast.DataType]bool{}) {
+		err := call(item.field, item.data)
 		if err != nil {
 			return err
 		}
-		fields[field.Name.Name] = struct{}{}
 	}
 	return nil
 }
-func EnumField(typ *ast.DataType, call func(field *ast.Field, data *ast.DataType) error) error {
-	fields := map[string]struct{}{}
-	return enumField(typ, fields, call)
-}
 
 func CheckSuperField(name string, typ *ast.DataType) bool {
 	for _, extend := range typ.Extends {
@@ -442,22 +474,58 @@ func CheckSuperField(name string, typ *ast.DataType) bool {
 	return false
 }
 
-func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(method *ast.FuncType, server *ast.ServerType) error) error {
-	for _, field := range typ.Methods {
-		if _, ok := fields[field.Name.Name]; ok {
-			continue
+// inheritsServer 是否直接或间接继承自 base
+func inheritsServer(typ *ast.ServerType, base *ast.ServerType, seen map[*ast.ServerType]bool) bool {
+	for _, extend := range typ.Extends {
+		server := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.ServerType)
+		if server == base {
+			return true
 		}
-		err := call(field, typ)
-		if err != nil {
-			return err
+		if !seen[server] {
+			seen[server] = true
+			if inheritsServer(server, base, seen) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+type flatMethod struct {
+	method *ast.FuncType
+	server *ast.ServerType
+}
+
+// enumMethod 自己的方法在前，重新声明的方法替换父类的方法
+func enumMethod(typ *ast.ServerType, list []flatMethod, seen map[*ast.ServerType]bool) []flatMethod {
+	if seen[typ] {
+		return list
+	}
+	seen[typ] = true
+	for _, method := range typ.Methods {
+		index := -1
+		for i, item := range list {
+			if sameName(item.method.Name.Name, method.Name.Name) {
+				index = i
+				break
+			}
+		}
+		if 0 > index {
+			list = append(list, flatMethod{method: method, server: typ})
+		} else if inheritsServer(typ, list[index].server, map[*ast.ServerType]bool{}) {
+			list[index] = flatMethod{method: method, server: typ}
 		}
-		fields[field.Name.Name] = struct{}{}
 	}
 
 	for _, extend := range typ.Extends {
-		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
-		server := types.Type.(*ast.ServerType)
-		err := enumMethod(server, fields, call)
+		list = enumMethod(extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.ServerType), list, seen)
+	}
+	return list
+}
+
+func EnumMethod(typ *ast.ServerType, call func(method *ast.FuncType, server *ast.ServerType) error) error {
+	for _, item := range enumMethod(typ, nil, map[*ast.ServerType]bool{}) {
+		err := call(item.method, item.server)
 		if err != nil {
 			return err
 		}
@@ -465,11 +533,6 @@ func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(metho
 	return nil
 }
 
-func EnumMethod(typ *ast.ServerType, call func(method *ast.FuncType, server *ast.ServerType) error) error {
-	fields := map[string]struct{}{}
-	return enumMethod(typ, fields, call)
-}
-
 func CheckSuperMethod(name string, typ *ast.ServerType) bool {
 	for _, extend := range typ.Extends {
 		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
-- 
2.43.0


From a07a9d2ece4cb83da1dbd7b4e624df7d30419547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 21/78] fix: Go methods use their parameter under its own name

---
 pkg/golang/server.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 6204d8d..14fdb95 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"go/token"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"sort"
@@ -22,6 +23,19 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error
 	return nil
 }
 
+// paramName 参数名，避开关键字和生成的代码中使用的名称
+func paramName(method *ast.FuncType) string {
+	name := build.StringToFirstLower(method.ParamName.Name)
+	switch name {
+	case "ctx", "r", "s", "ret", "err", "reps", "context", "erro", "hbuf", "json", "manage", "rpc":
+		return name + "_"
+	}
+	if token.IsKeyword(name) {
+		return name + "_"
+	}
+	return name
+}
+
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
@@ -45,7 +59,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method))
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
@@ -85,7 +99,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method))
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		if isSub {
@@ -122,7 +136,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		return err
 	}
 	if nil != verify {
-		dst.Code("\tif err := req.Verify(ctx); err != nil {\n")
+		dst.Code("\tif err := " + paramName(method) + ".Verify(ctx); err != nil {\n")
 		dst.Code("\t\treturn nil, erro.Wrap(err)\n")
 		dst.Code("\t}\n")
 	}
@@ -134,7 +148,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	}
 	dst.Code(pack)
 	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
-	dst.Code("req.")
+	dst.Code(paramName(method) + ".")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
 
@@ -188,7 +202,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("func (r *" + serverName + "Client) ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method))
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
@@ -205,7 +219,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		} else {
 			dst.Code("\tret")
 		}
-		dst.Code(", err := r.client.Invoke(ctx, req, \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
+		dst.Code(", err := r.client.Invoke(ctx, " + paramName(method) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
 		if !isMethod {
 			dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
 			dst.Code("\t\t\tvar req ")
-- 
2.43.0


From d2a26b60c9d0f0008e7cf0f1048a0c6924a1840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 22/78] fix: an inherited method is routed through the service
 that inherits it

---
 pkg/dart/server.go       | 4 ++--
 pkg/java/server.go       | 2 +-
 pkg/typescript/server.go | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 793fd2d..021f466 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -70,7 +70,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("    return invoke<")
 		b.printType(dst, method.Result.Type(), false)
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
@@ -114,7 +114,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("  " + build.StringToHumpName(typ.Name.Name) + "Router(this.server){\n")
 	dst.Code("    _invokeNames = {\n")
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("      \"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
+		dst.Code("      \"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
 		dst.Code("        toData: (List<int> buf) async {\n")
 		dst.Code("          return ")
 		b.printType(dst, method.Param.Type(), false)
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 396e2e6..d7b811c 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -74,7 +74,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", Server.Context ctx) throws Exception {\n")
 
 		dst.Code("\t\t\treturn invoke(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index 9512168..21af0b6 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -95,7 +95,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 			b.printType(dst, method.Result.Type(), false, false)
 		}
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
@@ -139,7 +139,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t\tthis.server = server\n")
 	dst.Code("\t\tthis.invoke = {\n")
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("\t\t\t\"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
+		dst.Code("\t\t\t\"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
 		dst.Code("\t\t\t\tformData(data: BinaryData | Record<string, any>): h.Data {\n")
 		dst.Code("\t\t\t\t\treturn ")
 		b.printType(dst, method.Param.Type(), false, false)
-- 
2.43.0


From d05d6f0c95a8367a931e15f8d400337080446e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 23/78] fix: a bound method returns what its signature says

---
 pkg/golang/server.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 14fdb95..cda775f 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -123,7 +123,10 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
-			b.printBinding(dst, method, bind, isSub)
+			err = b.printBinding(dst, method, bind, isSub)
+			if err != nil {
+				return err
+			}
 		}
 		dst.Code("}\n\n")
 	}
@@ -135,9 +138,14 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	if err != nil {
 		return err
 	}
+	fail := "nil, "
+	if isSub {
+		fail = ""
+	}
 	if nil != verify {
 		dst.Code("\tif err := " + paramName(method) + ".Verify(ctx); err != nil {\n")
-		dst.Code("\t\treturn nil, erro.Wrap(err)\n")
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
+		dst.Code("\t\treturn " + fail + "erro.Wrap(err)\n")
 		dst.Code("\t}\n")
 	}
 	pack := b.getPackage(dst, bind.Server.Name)
@@ -149,11 +157,11 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	dst.Code(pack)
 	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
 	dst.Code(paramName(method) + ".")
-	b.printType(dst, bind.Method.Param.Type(), true)
+	dst.Code(build.StringToHumpName(bind.Method.Param.Type().(*ast.Ident).Name))
 	dst.Code(")\n")
 
 	dst.Code("\tif err != nil {\n")
-	dst.Code("\t\treturn nil, err\n")
+	dst.Code("\t\treturn " + fail + "err\n")
 	dst.Code("\t}\n")
 
 	dst.Code("\treturn ")
@@ -161,7 +169,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("&")
 		b.printType(dst, method.Result.Type(), true)
 		dst.Code("{")
-		b.printType(dst, bind.Method.Result.Type(), true)
+		dst.Code(build.StringToHumpName(bind.Method.Result.Type().(*ast.Ident).Name))
 		dst.Code(": *reps}, ")
 	}
 	dst.Code("nil\n")
-- 
2.43.0


From 9b5077d904fc29adde5083d7a9327b69cd6ef30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 24/78] fix: a bind or verify tag without a '.' is reported
 instead of crashing

---
 pkg/build/binding.go | 2 +-
 pkg/build/verify.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/build/binding.go b/pkg/build/binding.go
index 8fbfa79..c59442f 100644
--- a/pkg/build/binding.go
+++ b/pkg/build/binding.go
@@ -25,7 +25,7 @@ func GetBinding(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, na
 					return nil, NewError(item.Pos()+1, "Not set value")
 				}
 				temp := strings.Split(value, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(item.Pos()+1, "Not find server method:"+value)
 				}
 
diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index 662eecf..c77f15d 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -36,7 +36,7 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 					return nil, NewError(i.Pos()+1, "Not set format")
 				}
 				temp := strings.Split(format, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(i.Pos()+1, "Not find enum field:"+format)
 				}
 
-- 
2.43.0


From baf310998659a431f830283f0ff63691a298302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 25/78] fix: a void method has a result type in Dart and Java

---
 pkg/dart/server.go | 32 ++++++++++++++++++++++++--------
 pkg/java/server.go | 30 +++++++++++++++++++++++-------
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 021f466..c45d5de 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -34,7 +34,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("  @override\n")
 		}
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -44,6 +44,18 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("}\n\n")
 }
 
+func isVoid(method *ast.FuncType) bool {
+	return "void" == method.Result.Type().(*ast.Ident).Name
+}
+
+func (b *Builder) printResult(dst *build.Writer, method *ast.FuncType) {
+	if isVoid(method) {
+		dst.Code("void")
+		return
+	}
+	b.printType(dst, method.Result.Type(), false)
+}
+
 func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("class " + build.StringToHumpName(typ.Name.Name) + "Client extends ServerClient implements " + build.StringToHumpName(typ.Name.Name))
 
@@ -60,7 +72,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("  @override\n")
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -68,7 +80,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", [Context? ctx]){\n")
 
 		dst.Code("    return invoke<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code(">(\"")
 		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
@@ -76,11 +88,15 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromMap, ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromData);\n")
+		if isVoid(method) {
+			dst.Code(", (_) {}, (_) {});\n")
+		} else {
+			dst.Code(", ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromMap, ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromData);\n")
+		}
 
 		dst.Code("  }\n\n")
 		return nil
diff --git a/pkg/java/server.go b/pkg/java/server.go
index d7b811c..d156ea5 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -34,7 +34,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("\t@override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -44,6 +44,18 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t}\n\n")
 }
 
+func isVoid(method *ast.FuncType) bool {
+	return "void" == method.Result.Type().(*ast.Ident).Name
+}
+
+func (b *Builder) printResult(dst *build.Writer, method *ast.FuncType) {
+	if isVoid(method) {
+		dst.Code("Void")
+		return
+	}
+	b.printType(dst, method.Result.Type(), false)
+}
+
 func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\tclass " + build.StringToHumpName(typ.Name.Name) + "Client extends Server.ClientRouter implements " + build.StringToHumpName(typ.Name.Name))
 
@@ -66,7 +78,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("\t\t@Override\n")
 		dst.Code("\t\tpublic CompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -80,11 +92,15 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl.class), (data)-> new ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl().formData(data));\n")
+		if isVoid(method) {
+			dst.Code(", (data) -> null, (data) -> null);\n")
+		} else {
+			dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl.class), (data)-> new ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl().formData(data));\n")
+		}
 
 		dst.Code("\t\t}\n\n")
 		return nil
-- 
2.43.0


From 247f4b42d491f89317301d6fc475ddb83c1a8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 26/78] fix: the input pattern stands for whole names of files,
 and only a star is special

---
 pkg/build/build.go      | 4 ++--
 pkg/parser/interface.go | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index a063bf3..11776a7 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -116,8 +116,8 @@ func NewBuilder(build Function, param *Param) *Builder {
 func Build(out string, in string, typ string, pack string) error {
 	in = filepath.Clean(in)
 	path := filepath.Dir(in)
-	name := in[len(path)+1:]
-	reg, err := regexp.Compile(strings.ReplaceAll(name, "*", "(.*)"))
+	name := filepath.Base(in)
+	reg, err := regexp.Compile("(?s)^" + strings.ReplaceAll(regexp.QuoteMeta(name), "\\*", "(.*)") + "$")
 	if err != nil {
 		return err
 	}
diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 1c4fe92..d8c64ea 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -100,6 +100,7 @@ func ParseDir(fset *token.FileSet, pkg *ast.Package, path string, reg *regexp.Re
 			if err != nil {
 				return err
 			}
+			continue
 		}
 		if !reg.MatchString(item.Name()) {
 			continue
-- 
2.43.0


From c397079dccbf95025cce1ead91e55f438178181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 27/78] fix: imports relative to the working directory and
 absolute imports are found

---
 pkg/parser/interface.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index d8c64ea..9b0a61a 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -135,13 +135,13 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 	for _, spec := range f.Imports {
 		imp := spec.Path.Value
 		imp = imp[1 : len(imp)-1]
-		if !("/" == imp || 0 != len(filepath.VolumeName(imp))) {
+		if filepath.IsAbs(imp) {
+			imp = filepath.Clean(imp)
+		} else {
 			imp = filepath.Join(path, imp)
-			spec.Path.Value = imp
 		}
-		path := filepath.Dir(imp)
-		name := imp[len(path)+1:]
-		err := parseDirFile(fset, pkg, path, name)
+		spec.Path.Value = imp
+		err := parseDirFile(fset, pkg, filepath.Dir(imp), filepath.Base(imp))
 		if err != nil {
 			switch err.(type) {
 			case *fs.PathError:
-- 
2.43.0


From dccf4e27d06f26af0676660da2f720a966d30086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 28/78] fix: only .hbuf files are compiled, so outputs can be
 named after them

---
 pkg/parser/interface.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 9b0a61a..f116ad3 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -102,7 +102,7 @@ func ParseDir(fset *token.FileSet, pkg *ast.Package, path string, reg *regexp.Re
 			}
 			continue
 		}
-		if !reg.MatchString(item.Name()) {
+		if filepath.Ext(item.Name()) != ".hbuf" || !reg.MatchString(item.Name()) {
 			continue
 		}
 		err := parseDirFile(fset, pkg, path, item.Name())
@@ -141,6 +141,12 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 			imp = filepath.Join(path, imp)
 		}
 		spec.Path.Value = imp
+		if filepath.Ext(imp) != ".hbuf" {
+			return scanner.Error{
+				Pos: fset.Position(spec.Pos()),
+				Msg: "Not import: " + spec.Path.Value,
+			}
+		}
 		err := parseDirFile(fset, pkg, filepath.Dir(imp), filepath.Base(imp))
 		if err != nil {
 			switch err.(type) {
-- 
2.43.0


From 477a1b85d3f1ccb558d089a1b3f7583a392356f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 29/78] fix: Java type of uint8 is a number, not a character

uint8 was generated as char/Character, which Jackson reads and writes as
text.
---
 pkg/java/java.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 1ffdefa..da78bab 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -11,13 +11,13 @@ import (
 )
 
 var _types = map[build.BaseType]string{
-	build.Int8: "byte", build.Int16: "short", build.Int32: "int", build.Int64: "long", build.Uint8: "char",
+	build.Int8: "byte", build.Int16: "short", build.Int32: "int", build.Int64: "long", build.Uint8: "short",
 	build.Uint16: "int", build.Uint32: "long", build.Uint64: "BigInteger", build.Bool: "boolean", build.Float: "float",
 	build.Double: "double", build.String: "String", build.Date: "Date", build.Decimal: "BigDecimal",
 }
 
 var _nullTypes = map[build.BaseType]string{
-	build.Int8: "Byte", build.Int16: "Short", build.Int32: "Integer", build.Int64: "Long", build.Uint8: "Character",
+	build.Int8: "Byte", build.Int16: "Short", build.Int32: "Integer", build.Int64: "Long", build.Uint8: "Short",
 	build.Uint16: "Integer", build.Uint32: "Long", build.Uint64: "BigInteger", build.Bool: "Boolean", build.Float: "Float",
 	build.Double: "Double", build.String: "String", build.Date: "Date", build.Decimal: "BigDecimal",
 }
-- 
2.43.0


From ac5cf62a230fbb47b43495f370cbd5b0599ef27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 30/78] fix: a Go package with dots is declared and imported as
 the folder it is written to

The files of package "a.b" go to the folder a/b, but said "package a.b",
which is not Go, and were imported as "b".
---
 pkg/golang/gloang.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index fcb1cbf..244fbdd 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -150,7 +150,8 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 		}
 	}(fc)
 
-	_, _ = fc.WriteString("package " + packages + "\n\n")
+	packs := strings.Split(packages, ".")
+	_, _ = fc.WriteString("package " + packs[len(packs)-1] + "\n\n")
 
 	if 0 < len(data.GetImports()) {
 		_, _ = fc.WriteString("import (\n")
@@ -296,7 +297,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr) string {
 	packs := strings.Split(pack, ".")
 	pack = packs[len(packs)-1]
 
-	dst.Import(b.packages+pack, "")
+	dst.Import(b.packages+strings.Join(packs, "/"), "")
 	return pack + "."
 }
 
-- 
2.43.0


From df47ba5d35cae22120677e3b78c0c8ff68ebc75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 31/78] fix: every line of a doc comment is a comment in the
 generated code

Only the first line of a doc comment of several lines was commented out; the
others ended up as code.
---
 pkg/build/writer.go      |  6 ++++++
 pkg/dart/data.go         |  6 +++---
 pkg/dart/enum.go         |  4 ++--
 pkg/dart/server.go       |  4 ++--
 pkg/golang/data.go       |  6 +++---
 pkg/golang/enum.go       |  4 ++--
 pkg/golang/server.go     | 10 +++++-----
 pkg/java/data.go         |  6 +++---
 pkg/java/enum.go         |  4 ++--
 pkg/java/server.go       |  4 ++--
 pkg/typescript/data.go   |  4 ++--
 pkg/typescript/enum.go   |  4 ++--
 pkg/typescript/server.go |  6 +++---
 13 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/pkg/build/writer.go b/pkg/build/writer.go
index 4833f42..3d04dfa 100644
--- a/pkg/build/writer.go
+++ b/pkg/build/writer.go
@@ -94,3 +94,9 @@ func NewWriter() *Writer {
 		maps: map[string]interface{}{},
 	}
 }
+
+// DocText is the text of a doc comment, every line after the first one with
+// the prefix that makes it a comment.
+func DocText(doc *ast.CommentGroup, prefix string) string {
+	return strings.ReplaceAll(strings.TrimSuffix(doc.Text(), "\n"), "\n", "\n"+prefix) + "\n"
+}
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 4e14e2c..c544d9d 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -15,7 +15,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 }
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name) + " implements Data")
 	if nil != typ.Extends {
@@ -24,7 +24,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("{\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Code("\t/// Get " + build.DocText(field.Doc, "\t///"))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -36,7 +36,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code(";\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t///"))
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index a98823c..a8fe317 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -18,7 +18,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("class " + enumName)
 	dst.Code("{\n")
@@ -57,7 +57,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Code("\t///" + build.DocText(item.Doc, "\t///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + build.NumberText(item.Id.Value) + ", '" + build.StringToHumpName(item.Name.Name) + "'")
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index c45d5de..d1796f0 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Code("///" + build.DocText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("  @override\n")
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index 792bc80..0f83fde 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -17,7 +17,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	dst.Import("encoding/json", "")
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Code("// " + name + " " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("type " + name + " struct")
 	dst.Code(" {\n")
@@ -78,7 +78,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + field.Doc.Text())
+			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + build.DocText(field.Doc, "// "))
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Get" + build.StringToHumpName(field.Name.Name) + "() ")
 		b.printType(dst, field.Type, false)
@@ -96,7 +96,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("}\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Set" + build.StringToHumpName(field.Name.Name) + " Set " + field.Doc.Text())
+			dst.Code("// Set" + build.StringToHumpName(field.Name.Name) + " Set " + build.DocText(field.Doc, "// "))
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Set" + build.StringToHumpName(field.Name.Name) + "(val ")
 		b.printType(dst, field.Type, false)
diff --git a/pkg/golang/enum.go b/pkg/golang/enum.go
index 5e6ef05..613709c 100644
--- a/pkg/golang/enum.go
+++ b/pkg/golang/enum.go
@@ -9,7 +9,7 @@ import (
 func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Code("// " + name + " " + build.DocText(typ.Doc, "// "))
 	}
 	maxLen := 0
 	dst.Code("type " + name + " int\n\n")
@@ -20,7 +20,7 @@ func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 			maxLen = l
 		}
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("// " + name + itemName + " " + item.Doc.Text())
+			dst.Code("// " + name + itemName + " " + build.DocText(item.Doc, "// "))
 		}
 		dst.Code("const " + name + itemName + " " + name + " = " + build.NumberText(item.Id.Value) + "\n\n")
 	}
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index cda775f..c5f9a90 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -39,7 +39,7 @@ func paramName(method *ast.FuncType) string {
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Code("// " + build.StringToHumpName(serverName) + " " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("type " + serverName)
 	dst.Code(" interface {\n")
@@ -53,7 +53,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		}
 		isFast = false
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("\t//" + build.StringToHumpName(method.Name.Name) + " " + build.DocText(method.Doc, "\t// "))
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -77,7 +77,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) error {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Code("// " + build.StringToHumpName(serverName) + " " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("type Default" + serverName)
 	dst.Code(" struct {\n")
@@ -90,7 +90,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + build.DocText(method.Doc, "// "))
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -201,7 +201,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 	name := build.StringToUnderlineName(typ.Name.Name)
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + build.DocText(method.Doc, "// "))
 		}
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
 
diff --git a/pkg/java/data.go b/pkg/java/data.go
index 2ca61f9..8a58201 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Code("\t/// Get " + build.DocText(field.Doc, "\t///"))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t///"))
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 23d7bb8..f49a093 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -57,7 +57,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("///" + item.Doc.Text())
+			dst.Code("///" + build.DocText(item.Doc, "///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + build.StringToHumpName(item.Name.Name) + "\"")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index d156ea5..0079d6d 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Code("///" + build.DocText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t@override\n")
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index d5df7b0..7f82819 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -13,7 +13,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("export class " + build.StringToHumpName(typ.Name.Name) + " implements h.Data")
 	if nil != typ.Extends {
@@ -22,7 +22,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t///" + field.Doc.Text())
+			dst.Code("\t///" + build.DocText(field.Doc, "\t///"))
 		}
 		dst.Code("\t")
 		dst.Code(build.StringToFirstLower(field.Name.Name) + ": ")
diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index 8b82e23..d15def5 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("export class " + enumName)
 	dst.Code("{\n")
@@ -44,7 +44,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Code("\t///" + build.DocText(item.Doc, "\t///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tpublic static readonly " + itemName + " = new " + enumName + "(")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index 21af0b6..a012de0 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -16,7 +16,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("export interface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -26,7 +26,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code(" {\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Code("\t//" + build.DocText(method.Doc, "\t// "))
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -69,7 +69,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Code("\t//" + build.DocText(method.Doc, "\t// "))
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
-- 
2.43.0


From 5d618092c797097018160f0c2b3c3157dc76d4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 32/78] fix: a tag value may be a raw string

Generators print tag values between double quotes, so that a value in back
quotes with a quote, backslash or line break in it gave broken code.
---
 pkg/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index adeae02..a2b7661 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -1054,6 +1054,10 @@ func (p *parser) parseKeyValue() *ast.KeyValue {
 		var value string
 		if p.tok == token.STRING {
 			value = p.lit
+			if raw, err := strconv.Unquote(value); err == nil && value[0] == '`' {
+				// The generators print values between double quotes.
+				value = strconv.Quote(raw)
+			}
 			p.next()
 		} else {
 			p.expect(token.STRING)
-- 
2.43.0


From 2a41be7ca8609c5f2141ca1862d45cf38d29e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 33/78] fix: a dollar sign in a language text stays text in
 Dart

---
 pkg/dart/language.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/dart/language.go b/pkg/dart/language.go
index 836891b..d68ff4b 100644
--- a/pkg/dart/language.go
+++ b/pkg/dart/language.go
@@ -3,6 +3,7 @@ package dart
 import (
 	"hbuf/pkg/build"
 	"sort"
+	"strings"
 )
 
 func printLanguge(dst *build.Writer) {
@@ -72,7 +73,7 @@ func printLanguge(dst *build.Writer) {
 
 		for _, key := range lanKeys {
 			dst.Code("  @override\n")
-			dst.Code("  String get " + key + " => \"" + build.GetLang(key, "____", l.Lang[key]) + "\";\n")
+			dst.Code("  String get " + key + " => \"" + dartText(build.GetLang(key, "____", l.Lang[key])) + "\";\n")
 			dst.Code("\n")
 		}
 		dst.Code("}\n")
@@ -84,7 +85,7 @@ func printLanguge(dst *build.Writer) {
 			dst.Code("  const " + keyName + l.Name + "Localizations();\n")
 			for _, f := range lanKeys {
 				dst.Code("  @override\n")
-				dst.Code("  String get " + f + " => \"" + build.GetLang(f, key, l.Lang[f]) + "\";\n")
+				dst.Code("  String get " + f + " => \"" + dartText(build.GetLang(f, key, l.Lang[f])) + "\";\n")
 				dst.Code("\n")
 			}
 			dst.Code("}\n")
@@ -92,3 +93,8 @@ func printLanguge(dst *build.Writer) {
 		}
 	}
 }
+
+// dartText keeps a dollar sign from starting an expression in a string.
+func dartText(s string) string {
+	return strings.ReplaceAll(s, "$", "\\$")
+}
-- 
2.43.0


From 2c0dab0f8dae8d9532d60d4dddcc6252b4dec1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 34/78] fix: Dart reads and writes the values of a map by their
 own type

toMap and copy converted the values of a map as if they were its keys, and
missed a bracket where the map may be null.
---
 pkg/dart/data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index c544d9d..cba6381 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -386,13 +386,13 @@ func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printCopy(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
+			b.printCopy(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
@@ -582,13 +582,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printToMap(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
+			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
-- 
2.43.0


From 8a862c67ac3c361c74f70a8d600a0f8642218d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 35/78] fix: a dollar sign in a file extension or date format
 stays text in Dart

---
 pkg/dart/ui.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 539247f..1ddac76 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -357,7 +357,7 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 				if 0 == len(format) {
 					format = "yyyy/MM/dd HH:mm:ss"
 				}
-				dst.Code(".format(\"" + format + "\")")
+				dst.Code(".format(\"" + dartText(format) + "\")")
 			case build.Decimal:
 				if empty {
 					dst.Code("?")
@@ -601,7 +601,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 					if 0 < i {
 						setValue.Code(", ")
 					}
-					setValue.Code("\"" + extension + "\"")
+					setValue.Code("\"" + dartText(extension) + "\"")
 				}
 				setValue.Code("];\n")
 			}
@@ -659,7 +659,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 					if 0 < i {
 						setValue.Code(", ")
 					}
-					setValue.Code("\"" + extension + "\"")
+					setValue.Code("\"" + dartText(extension) + "\"")
 				}
 				setValue.Code("];\n")
 			}
-- 
2.43.0


From 3571f4432700e9b618a93e17a4d9fcdbb7d9448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 36/78] fix: every condition of a where tag is read to its own
 end

All conditions were cut to the length of the first one, or ran over their
closing quote.
---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 15c700b..925bb8d 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -74,7 +74,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(item.Values[0].Value)-1]
+							where[i] = val.Value[1 : len(val.Value)-1]
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
-- 
2.43.0


From 9540d71a02d3233186d9c6c211f8fa3d48db5e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 37/78] fix: a Go service whose methods are all bound does not
 import erro without using it

---
 pkg/golang/server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index c5f9a90..0ea62a5 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -94,8 +94,6 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
-
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
@@ -121,6 +119,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 				dst.Code("\treturn nil,")
 			}
 
+			dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
 			err = b.printBinding(dst, method, bind, isSub)
-- 
2.43.0


From 99aaf1177e4ebd59985a3bf796cfdc9ff9746a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 38/78] fix: Go database files import context and db only where
 an operation uses them

---
 pkg/golang/database.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 61777a3..a397d86 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -47,9 +47,6 @@ func getCache(name string, tags []*ast.Tag) *cache {
 }
 
 func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
-	dst.Import("context", "")
-	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
-
 	dbs, wFields, key, err := b.getDBField(typ)
 	if 0 == len(dbs) || nil != err {
 		return nil
@@ -241,6 +238,12 @@ func (b *Builder) printNameData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\n")
 }
 
+func (b *Builder) printTable(dst *build.Writer, db *build.DB) {
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+}
+
 func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.Builder, strings.Builder, strings.Builder) {
 	item := strings.Builder{}
 	scan := strings.Builder{}
@@ -462,7 +465,7 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 
 	item, scan, _ := b.getItemAndValue(fields, key)
 	dst.Code("func (g " + fName + ") DbList(ctx context.Context) ([]" + dName + ", error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"SELECT " + item.String() + " FROM \").T(tableName)")
 	if db.Fake {
@@ -529,7 +532,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 
 	item, scan, _ := b.getItemAndValue(fields, key)
 	dst.Code("func (g " + fName + ") DbMap(ctx context.Context) (map[" + kType.String() + "]" + dName + ", error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"SELECT " + item.String() + " FROM \").T(tableName)")
 	if db.Fake {
@@ -584,7 +587,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbCount(ctx context.Context) (int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"SELECT COUNT(1) FROM \").T(tableName)")
 	if db.Fake {
@@ -633,7 +636,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	if isCache {
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
@@ -661,7 +664,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	if isCache {
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
@@ -687,7 +690,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	if nil != c {
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
@@ -709,7 +712,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
 	name := build.StringToHumpName(typ.Name.Name)
 	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + name + ") (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	dst.Code("\tif nil == val || 0 == len(val) {\n")
 	dst.Code("\t\treturn 0, 0, nil\n")
 	dst.Code("\t}\n")
@@ -760,7 +763,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	if nil != c {
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
@@ -792,7 +795,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	if nil != c {
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
@@ -862,7 +865,7 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	item, scan, _ := b.getItemAndValue(fields, key)
 
 	dst.Code("func (g " + fName + ") DbGet(ctx context.Context) (*" + dName + ", error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	b.printTable(dst, db)
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"SELECT " + item.String() + " FROM \").T(tableName)")
 	if db.Fake {
-- 
2.43.0


From 9c72fe0f4b61bcaf8daf5f245c0d2675dc5b4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 39/78] fix: Go database operations of a cached type import the
 cache package

---
 pkg/golang/database.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index a397d86..9006e76 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -599,6 +599,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 
 	dst.Code("\tvar count int64\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\tc, key, _ := cache.DbGet(ctx, \"\", tableName, s, &count)\n")
 		dst.Code("\tif c != nil {\n")
 		dst.Code("\t\treturn *c, nil\n")
@@ -638,6 +639,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
 	b.printTable(dst, db)
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -666,6 +668,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
 	b.printTable(dst, db)
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -692,6 +695,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	b.printTable(dst, db)
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -717,6 +721,7 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Code("\t\treturn 0, 0, nil\n")
 	dst.Code("\t}\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -765,6 +770,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
 	b.printTable(dst, db)
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -797,6 +803,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
 	b.printTable(dst, db)
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
-- 
2.43.0


From 226ba968b216449f930076dbf4b952a73638f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 40/78] fix: Go verification imports rpc, decimal and the
 package of an enum exactly where it uses them

---
 pkg/golang/verify.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index cec26bb..1d71615 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -85,17 +85,20 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				continue
 			}
 
-			pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
+			fail := func() {
+				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+				pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
+				dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+			}
 
 			if build.IsNil(field.Type) && 0 == i {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				if !f.Null {
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
 						dst.Code(" || len(i.Get" + fName + "()) == 0")
 					}
 					dst.Code(" {\n")
-					dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+					fail()
 					dst.Code("\t}\n")
 				} else {
 					dst.Code("\tif nil == i." + fName)
@@ -108,9 +111,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				}
 			}
 			if build.IsEnum(field.Type) {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				dst.Code("\tif 0 == len(i.Get" + fName + "().ToName()) {\n")
-				dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+				fail()
 				dst.Code("\t}\n")
 			} else if build.IsMap(field.Type) {
 
@@ -121,7 +123,6 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				switch t {
 				case build.Int8, build.Int16, build.Int32, build.Uint8, build.Uint16, build.Uint32, build.Float, build.Double:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code(f.Min + " > i.Get" + fName + "() ")
@@ -133,12 +134,11 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 				case build.Uint64, build.Int64:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code(f.Min + " > i.Get" + fName + "().Val ")
@@ -150,12 +150,11 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(f.Max + " < i.Get" + fName + "().Val ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 				case build.Date:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
@@ -175,12 +174,12 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < i.Get" + fName + "().UnixMilli() ")
 						}
 						dst.Code("{ //" + f.Min + "--" + f.Max + "\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 				case build.Decimal:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.Import("github.com/shopspring/decimal", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code("decimal.NewFromFloat(" + f.Min + ").GreaterThan(i.Get" + fName + "()) ")
@@ -192,12 +191,10 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code("decimal.NewFromFloat(" + f.Min + ").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 				case build.String:
-					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
-					pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
@@ -212,7 +209,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(f.Max + " < utf8.RuneCountInString(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 					if 0 < len(f.Reg) {
@@ -226,7 +223,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t\treturn err\n")
 						dst.Code("\t}\n")
 						dst.Code("\tif !match {\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 						first = false
 					}
-- 
2.43.0


From d65566b3979035830f35c5624268b91629f11ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 41/78] fix: Go verification compares 64-bit integers, which
 have no Val field

---
 pkg/golang/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 1d71615..49ad8a7 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -141,13 +141,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > i.Get" + fName + "().Val ")
+							dst.Code(f.Min + " > i.Get" + fName + "() ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code(f.Max + " < i.Get" + fName + "().Val ")
+							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
 						fail()
-- 
2.43.0


From c9109accfc9a2aa22af90bd4150c61ff5d3154b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 42/78] fix: Go verification compares a decimal with the
 maximum

---
 pkg/golang/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 49ad8a7..c010a54 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -188,7 +188,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.NewFromFloat(" + f.Max + ").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
 						fail()
-- 
2.43.0


From d1a8cd995e2b76a9026a8397537c1c4069dbf14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 43/78] fix: Go database code names the package of a table of
 another one

---
 pkg/golang/database.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 9006e76..43a23f5 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -454,7 +454,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 
 func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
+	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
 		key = "self"
 	} else if "self" == key {
@@ -519,7 +519,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 		return
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
+	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
 		key = "self"
 	} else if "self" == key {
@@ -857,13 +857,10 @@ func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *bui
 
 func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
-	if typ == fType {
-		key = "self"
-	} else if "self" == key {
-		dName = fName
-	} else {
+	dName := fName
+	if typ == fType || "self" != key {
 		key = "self"
+		dName = b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	}
 
 	w := b.getParamWhere(dst, wFields, false, true, true)
-- 
2.43.0


From 4a3b736ff4d2015887f916c4751ab5ac2b08d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 44/78] fix: Go insert operations do not import the package of
 conditions they do not print

---
 pkg/golang/database.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 43a23f5..397770f 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -689,9 +689,6 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	if typ != fType {
 		val = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
-	dst.AddImports(w.GetImports())
-
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	b.printTable(dst, db)
 	if nil != c {
-- 
2.43.0


From 838fe47517a784d580535f7470682df932edc0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 45/78] fix: an error in the form or verify code of Dart and
 TypeScript is returned instead of dropped

---
 pkg/dart/dart.go             | 17 ++++++---
 pkg/dart/ui.go               | 71 +++++++++++++++++++++---------------
 pkg/typescript/typescript.go |  9 +++--
 pkg/typescript/ui.go         | 71 +++++++++++++++++++++---------------
 4 files changed, 100 insertions(+), 68 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 0987c04..722ad1f 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -188,25 +188,32 @@ func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) e
 		switch s.(type) {
 		case *ast.ImportSpec:
 		case *ast.TypeSpec:
-			b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			err := b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
 }
 
-func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
+func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 	switch expr.(type) {
 	case *ast.DataType:
 		b.printDataCode(dst.data, expr.(*ast.DataType))
-		b.printFormCode(dst.ui, expr)
-		b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		err := b.printFormCode(dst.ui, expr)
+		if err != nil {
+			return err
+		}
+		return b.printVerifyCode(dst.verify, expr.(*ast.DataType))
 	case *ast.ServerType:
 		b.printServerCode(dst.server, expr.(*ast.ServerType))
 
 	case *ast.EnumType:
 		b.printEnumCode(dst.enum, expr.(*ast.EnumType))
-		b.printFormCode(dst.ui, expr)
+		return b.printFormCode(dst.ui, expr)
 	}
+	return nil
 }
 
 func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 1ddac76..edaa19f 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -7,7 +7,7 @@ import (
 )
 
 // 创建表单代码
-func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
+func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) error {
 	dst.Import("package:flutter/material.dart", "")
 
 	switch expr.(type) {
@@ -15,7 +15,7 @@ func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
 		dst.Import("package:hbuf_flutter/hbuf_flutter.dart", "")
 		typ := expr.(*ast.DataType)
 		b.getPackage(dst, typ.Name, "")
-		b.printDataUi(dst, typ)
+		return b.printDataUi(dst, typ)
 
 	case *ast.ServerType:
 
@@ -23,7 +23,7 @@ func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
 		typ := expr.(*ast.EnumType)
 		b.printEnumUi(dst, typ)
 	}
-
+	return nil
 }
 
 func (b *Builder) printEnumUi(dst *build.Writer, typ *ast.EnumType) {
@@ -56,10 +56,10 @@ type ui struct {
 	maxCount   int
 }
 
-func (b *Builder) getUI(tags []*ast.Tag) *ui {
+func (b *Builder) getUI(tags []*ast.Tag) (*ui, error) {
 	val, ok := build.GetTag(tags, "ui")
 	if !ok {
-		return nil
+		return nil, nil
 	}
 	form := ui{
 		width:      300,
@@ -79,15 +79,13 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			} else if "digit" == item.Name.Name {
 				atoi, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.digit = atoi
 			} else if "index" == item.Name.Name {
 				atoi, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.index = &atoi
 			} else if "format" == item.Name.Name {
@@ -95,29 +93,25 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			} else if "width" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.width = atoi
 			} else if "height" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.height = atoi
 			} else if "maxLine" == item.Name.Name {
 				atoi, err := strconv.ParseInt(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10, 64)
 				if err != nil {
-					println(err.Error())
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.maxLine = int(atoi)
 			} else if "maxCount" == item.Name.Name {
 				atoi, err := strconv.ParseInt(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10, 64)
 				if err != nil {
-					println(err.Error())
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.maxCount = int(atoi)
 			} else if "clip" == item.Name.Name {
@@ -130,25 +124,34 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			}
 		}
 	}
-	return &form
+	return &form, nil
 }
 
-func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) {
-	u := b.getUI(typ.Tags)
+func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) error {
+	u, err := b.getUI(typ.Tags)
+	if nil != err {
+		return err
+	}
 	if nil == u {
-		return
+		return nil
 	}
 
 	if u.form == "true" {
-		b.printForm(dst, typ, u)
+		err := b.printForm(dst, typ, u)
+		if nil != err {
+			return err
+		}
 	}
 	if u.table == "true" {
-		b.printTable(dst, typ, u)
+		err := b.printTable(dst, typ, u)
+		if nil != err {
+			return err
+		}
 	}
-
+	return nil
 }
 
-func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
+func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) error {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
 	dst.Code("class Table" + name + build.StringToHumpName(u.suffix) + "Build {\n")
@@ -207,7 +210,10 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 	i := 0
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 
-		table := b.getUI(field.Tags)
+		table, err := b.getUI(field.Tags)
+		if err != nil {
+			return err
+		}
 		if nil == table || 0 == len(table.table) {
 			return nil
 		}
@@ -311,13 +317,14 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 		return nil
 	})
 	if err != nil {
-		return
+		return err
 	}
 
 	dst.Code("\t\tbuilder?.call(this);\n")
 	dst.Code("\t\treturn tables.build(context);\n")
 	dst.Code("\t}\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
 func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, digit int, format string, val string) {
@@ -477,7 +484,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	}
 }
 
-func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
+func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
 	dst.Code("class Form" + name + build.StringToHumpName(u.suffix) + "Build {\n")
@@ -496,7 +503,10 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	fields := build.NewWriter()
 	setValue := build.NewWriter()
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
-		form := b.getUI(field.Tags)
+		form, err := b.getUI(field.Tags)
+		if err != nil {
+			return err
+		}
 		fieldName := build.StringToFirstLower(field.Name.Name)
 		if nil == form {
 			return nil
@@ -749,7 +759,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		return nil
 	})
 	if err != nil {
-		return
+		return err
 	}
 
 	dst.Code("\tList<Widget> build(BuildContext context, {Function(BuildContext context, Form" + name + build.StringToHumpName(u.suffix) + "Build ui)? builder}) {\n")
@@ -762,6 +772,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	dst.Code("}\n\n")
 
 	dst.ImportByWriter(setValue)
+	return nil
 }
 
 func (b *Builder) printMenuItem(dst *build.Writer, expr ast.Expr, empty bool) {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 4e3a205..9374caa 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -219,8 +219,11 @@ func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 	switch expr.(type) {
 	case *ast.DataType:
 		b.printDataCode(dst.data, expr.(*ast.DataType))
-		b.printFormCode(dst.ui, expr)
-		err := b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		err := b.printFormCode(dst.ui, expr)
+		if err != nil {
+			return err
+		}
+		err = b.printVerifyCode(dst.verify, expr.(*ast.DataType))
 		if err != nil {
 			return err
 		}
@@ -229,7 +232,7 @@ func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 
 	case *ast.EnumType:
 		b.printEnumCode(dst.enum, expr.(*ast.EnumType))
-		b.printFormCode(dst.ui, expr)
+		return b.printFormCode(dst.ui, expr)
 	}
 	return nil
 }
diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 85ba27d..2ab5d0e 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -7,14 +7,14 @@ import (
 )
 
 // 创建表单代码
-func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
+func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) error {
 
 	switch expr.(type) {
 	case *ast.DataType:
 		dst.Import("vue", "{defineComponent}")
 		typ := expr.(*ast.DataType)
 		b.getPackage(dst, typ.Name, "")
-		b.printDataUi(dst, typ)
+		return b.printDataUi(dst, typ)
 
 	case *ast.ServerType:
 
@@ -22,7 +22,7 @@ func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
 		typ := expr.(*ast.EnumType)
 		b.printEnumUi(dst, typ)
 	}
-
+	return nil
 }
 
 func (b *Builder) printEnumUi(dst *build.Writer, typ *ast.EnumType) {
@@ -57,10 +57,10 @@ type ui struct {
 	maxCount   int
 }
 
-func (b *Builder) getUI(tags []*ast.Tag) *ui {
+func (b *Builder) getUI(tags []*ast.Tag) (*ui, error) {
 	val, ok := build.GetTag(tags, "ui")
 	if !ok {
-		return nil
+		return nil, nil
 	}
 	form := ui{
 		width:      160,
@@ -80,15 +80,13 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			} else if "digit" == item.Name.Name {
 				atoi, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.digit = atoi
 			} else if "index" == item.Name.Name {
 				atoi, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.index = &atoi
 			} else if "format" == item.Name.Name {
@@ -96,29 +94,25 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			} else if "width" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.width = atoi
 			} else if "height" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.height = atoi
 			} else if "maxLine" == item.Name.Name {
 				atoi, err := strconv.ParseInt(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10, 64)
 				if err != nil {
-					println(err.Error())
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.maxLine = int(atoi)
 			} else if "maxCount" == item.Name.Name {
 				atoi, err := strconv.ParseInt(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10, 64)
 				if err != nil {
-					println(err.Error())
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				form.maxCount = int(atoi)
 			} else if "clip" == item.Name.Name {
@@ -134,25 +128,34 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			}
 		}
 	}
-	return &form
+	return &form, nil
 }
 
-func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) {
-	u := b.getUI(typ.Tags)
+func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) error {
+	u, err := b.getUI(typ.Tags)
+	if nil != err {
+		return err
+	}
 	if nil == u {
-		return
+		return nil
 	}
 
 	if u.form == "true" {
-		b.printForm(dst, typ, u)
+		err := b.printForm(dst, typ, u)
+		if nil != err {
+			return err
+		}
 	}
 	if u.table == "true" {
-		b.printTable(dst, typ, u)
+		err := b.printTable(dst, typ, u)
+		if nil != err {
+			return err
+		}
 	}
-
+	return nil
 }
 
-func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
+func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) error {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
 
@@ -169,7 +172,10 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 	//i := 0
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 
-		table := b.getUI(field.Tags)
+		table, err := b.getUI(field.Tags)
+		if err != nil {
+			return err
+		}
 		if nil == table || 0 == len(table.table) {
 			return nil
 		}
@@ -219,7 +225,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 		return nil
 	})
 	if err != nil {
-		return
+		return err
 	}
 
 	dst.Tab(3).Code("}\n")
@@ -243,6 +249,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 	dst.Code("\t}\n")
 	dst.Code("});\n\n")
 
+	return nil
 }
 
 func (b *Builder) printToString(dst *build.Writer, name string, expr ast.Expr, empty bool, digit int, format string, val string) {
@@ -399,7 +406,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	}
 }
 
-func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
+func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
 
@@ -422,7 +429,10 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	//i := 0
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 
-		form := b.getUI(field.Tags)
+		form, err := b.getUI(field.Tags)
+		if err != nil {
+			return err
+		}
 		if nil == form || 0 == len(form.form) {
 			return nil
 		}
@@ -634,7 +644,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		return nil
 	})
 	if err != nil {
-		return
+		return err
 	}
 
 	dst.Tab(3).Code("}\n")
@@ -657,6 +667,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	dst.Code("\t\t};\n")
 	dst.Code("\t}\n")
 	dst.Code("});\n\n")
+	return nil
 }
 
 func (b *Builder) printMenuItem(dst *build.Writer, expr ast.Expr, empty bool, option string) {
-- 
2.43.0


From ef4e912a33d1364355fa330590ede9e4270953db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 46/78] fix: a failure to write an output file is returned
 instead of reported as success

---
 pkg/dart/dart.go             | 14 +++-----------
 pkg/golang/gloang.go         | 13 ++-----------
 pkg/java/java.go             | 14 +++-----------
 pkg/typescript/typescript.go | 14 +++-----------
 4 files changed, 11 insertions(+), 44 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 722ad1f..889ee74 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -140,16 +141,7 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+	fc := &strings.Builder{}
 	_, _ = fc.WriteString("// @dart = 2.12\n\n")
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
@@ -167,7 +159,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return os.WriteFile(out, []byte(fc.String()), 0666)
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 244fbdd..387d28d 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -139,16 +139,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 }
 
 func (b *Builder) writerFile(data *build.Writer, packages string, out string, i int) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+	fc := &strings.Builder{}
 
 	packs := strings.Split(packages, ".")
 	_, _ = fc.WriteString("package " + packs[len(packs)-1] + "\n\n")
@@ -175,7 +166,7 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 	}
 	code := data.GetCode().String()
 	_, _ = fc.WriteString(code[:len(code)-1])
-	return nil
+	return os.WriteFile(out, []byte(fc.String()), 0666)
 }
 
 func (b *Builder) Node(dst *GoWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/java/java.go b/pkg/java/java.go
index da78bab..75313e2 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -135,16 +136,7 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, packages string, out string) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+	fc := &strings.Builder{}
 
 	_, _ = fc.WriteString("package " + packages + ";\n\n")
 
@@ -163,7 +155,7 @@ func writerFile(data *build.Writer, packages string, out string) error {
 	}
 	_, _ = fc.WriteString("\n")
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return os.WriteFile(out, []byte(fc.String()), 0666)
 }
 
 func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 9374caa..2776d85 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -158,16 +159,7 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+	fc := &strings.Builder{}
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
 
@@ -185,7 +177,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return os.WriteFile(out, []byte(fc.String()), 0666)
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
-- 
2.43.0


From 14ce048ecc05b1a4a667a8369cbbdd922b878da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 47/78] fix: an error in the Go database code is returned
 instead of leaving the code out

---
 pkg/golang/database.go | 225 ++++++++++++++++++++++++++++++-----------
 1 file changed, 166 insertions(+), 59 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 397770f..4964144 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -3,7 +3,6 @@ package golang
 import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
-	"hbuf/pkg/scanner"
 	"regexp"
 	"strconv"
 	"strings"
@@ -14,10 +13,10 @@ type cache struct {
 	max int
 }
 
-func getCache(name string, tags []*ast.Tag) *cache {
+func getCache(name string, tags []*ast.Tag) (*cache, error) {
 	val, ok := build.GetTag(tags, "cache")
 	if !ok {
-		return nil
+		return nil, nil
 	}
 
 	c := &cache{
@@ -29,30 +28,34 @@ func getCache(name string, tags []*ast.Tag) *cache {
 			if "min" == item.Name.Name {
 				val, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				c.min = val
 			} else if "max" == item.Name.Name {
 				val, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Name.Pos(), "Invalid number: "+item.Values[0].Value)
 				}
 				c.max = val
 			}
 		}
 	}
-	return c
+	return c, nil
 }
 
 func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
 	dbs, wFields, key, err := b.getDBField(typ)
-	if 0 == len(dbs) || nil != err {
+	if nil != err {
+		return err
+	}
+	if 0 == len(dbs) {
 		return nil
 	}
 
-	c := getCache(typ.Name.Name, typ.Tags)
+	c, err := getCache(typ.Name.Name, typ.Tags)
+	if nil != err {
+		return err
+	}
 
 	fDbs := dbs
 	fields := wFields
@@ -60,15 +63,15 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if 0 < len(dbs[0].Table) {
 		table := b.build.GetDataType(b.getFile(typ.Name), dbs[0].Table)
 		if nil == table {
-			return nil
+			return build.NewError(typ.Name.Pos(), "Invalid table: "+dbs[0].Table)
 		}
 		typ = table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
 		dbs, fields, key, err = b.getDBField(typ)
 		if nil != err {
-			return nil
+			return err
 		}
 		if len(dbs) == 0 {
-			return nil
+			return build.NewError(fType.Name.Pos(), "Invalid table: "+fDbs[0].Table)
 		}
 	}
 
@@ -88,7 +91,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printListData(dst, typ, val, dbs[0], w, f, fType, c)
+		err = b.printListData(dst, typ, val, dbs[0], w, f, fType, c)
+		if nil != err {
+			return err
+		}
 	}
 
 	if 0 < len(fDbs[0].Map) {
@@ -101,31 +107,49 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 				if "self" == val {
 					f = wFields
 				}
-				b.printMapData(dst, val, typ, dbs[0], w, f, fType, ks[0], c)
+				err = b.printMapData(dst, val, typ, dbs[0], w, f, fType, ks[0], c)
+				if nil != err {
+					return err
+				}
 			}
 		}
 	}
 
 	if fDbs[0].Count {
-		b.printCountData(dst, typ, dbs[0], wFields, fType, fields, c)
+		err = b.printCountData(dst, typ, dbs[0], wFields, fType, fields, c)
+		if nil != err {
+			return err
+		}
 	}
 
 	if fDbs[0].Del {
 		w := wFields
 		if typ == fType {
+			if nil == key {
+				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
+			}
 			key.Dbs[0].Where = []string{"AND id = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
+		err = b.printDeleteData(dst, dbs[0], w, fType, nil != c)
+		if nil != err {
+			return err
+		}
 	}
 
 	if fDbs[0].Remove {
 		w := wFields
 		if typ == fType {
+			if nil == key {
+				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
+			}
 			key.Dbs[0].Where = []string{"AND id = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
+		err = b.printRemoveData(dst, dbs[0], w, fType, nil != c)
+		if nil != err {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Insert)
@@ -135,7 +159,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printInsertData(dst, typ, val, dbs[0], w, f, fType, key, c)
+		err = b.printInsertData(dst, typ, val, dbs[0], w, f, fType, key, c)
+		if nil != err {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Inserts)
@@ -155,10 +182,16 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
+			if nil == key {
+				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
+			}
 			key.Dbs[0].Where = []string{"AND id = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
+		err = b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
+		if nil != err {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Set)
@@ -169,10 +202,16 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
+			if nil == key {
+				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
+			}
 			key.Dbs[0].Where = []string{"AND id = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
+		err = b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
+		if nil != err {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Get)
@@ -183,11 +222,17 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
+			if nil == key {
+				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
+			}
 			key.Dbs[0].Where = []string{"AND id = ?"}
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-		b.printGetData(dst, typ, val, dbs[0], w, f, fType, c)
+		err = b.printGetData(dst, typ, val, dbs[0], w, f, fType, c)
+		if nil != err {
+			return err
+		}
 	}
 	return nil
 }
@@ -278,7 +323,7 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 
 }
 
-func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page, orderBy, groupBy bool) *build.Writer {
+func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page, orderBy, groupBy bool) (*build.Writer, error) {
 	where := build.NewWriter()
 	where.Packages = dst.Packages
 
@@ -293,10 +338,16 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					} else {
 						where.Code("\tif nil != g." + fieldName + " {\n")
 					}
-					_ = b.printParam(where, item, field, fields, "", "\t\ts")
+					err := b.printParam(where, item, field, fields, "", "\t\ts")
+					if nil != err {
+						return nil, err
+					}
 					where.Code("\t}\n")
 				} else {
-					_ = b.printParam(where, item, field, fields, "", "\ts")
+					err := b.printParam(where, item, field, fields, "", "\ts")
+					if nil != err {
+						return nil, err
+					}
 				}
 			} else {
 				if build.IsNil(field.Field.Type) {
@@ -306,10 +357,16 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 						where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
 					}
 					where.Code(" {\n")
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
+					err := b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
+					if nil != err {
+						return nil, err
+					}
 					where.Code("\t}\n")
 				} else {
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts")
+					err := b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts")
+					if nil != err {
+						return nil, err
+					}
 				}
 			}
 		}
@@ -329,7 +386,10 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					where.Code("\ts.T(\", \")")
 				}
 
-				_ = b.printParam(where, group, field, fields, "", "")
+				err := b.printParam(where, group, field, fields, "", "")
+				if nil != err {
+					return nil, err
+				}
 				if build.IsNil(field.Field.Type) {
 					where.Code("\t}\n")
 				}
@@ -353,7 +413,10 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 				where.Code(" {\n")
 				where.Code("\t\ts.T(\" ORDER BY \")")
 
-				_ = b.printParam(where, order, field, fields, "", "")
+				err := b.printParam(where, order, field, fields, "", "")
+				if nil != err {
+					return nil, err
+				}
 
 				where.Code("\t}\n")
 			}
@@ -371,7 +434,7 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 			}
 		}
 	}
-	return where
+	return where, nil
 }
 
 func (b *Builder) findField(fields []*build.DBField, name string) *build.DBField {
@@ -402,6 +465,9 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 				if t != "$" {
 					field = b.findField(fields, t[2:len(t)-1])
 				}
+				if nil == field {
+					return build.NewError(self.Field.Name.Pos(), "Invalid name: "+t[2:len(t)-1])
+				}
 
 				buf.Code(".T(")
 				if build.IsNil(field.Field.Type) {
@@ -420,10 +486,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 					temp = ""
 				}
 				if nil == field {
-					return scanner.Error{
-						//Pos: b.Position(data.Name.Pos()),
-						Msg: "Invalid name: " + t[2:len(t)-1],
-					}
+					return build.NewError(self.Field.Name.Pos(), "Invalid name: "+t[2:len(t)-1])
 				}
 				if 0 == len(field.Dbs[0].Converter) && build.IsArray(field.Field.Type) && 0 == len(temp) {
 					buf.Code(".L(\",\", ")
@@ -452,7 +515,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 	return nil
 }
 
-func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
@@ -460,7 +523,10 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	} else if "self" == key {
 		dName = fName
 	}
-	w := b.getParamWhere(dst, wFields, true, true, true)
+	w, err := b.getParamWhere(dst, wFields, true, true, true)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	item, scan, _ := b.getItemAndValue(fields, key)
@@ -511,12 +577,13 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Code("\treturn ret, nil\n")
 	dst.Code("}\n")
 	dst.Code("\n")
+	return nil
 }
 
-func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, keyName string, c *cache) {
+func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, keyName string, c *cache) error {
 	kType, KName, ok := b.getKey(dst, fields, keyName)
 	if !ok {
-		return
+		return build.NewError(fType.Name.Pos(), "Invalid name: "+keyName)
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
@@ -525,7 +592,10 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	} else if "self" == key {
 		dName = fName
 	}
-	w := b.getParamWhere(dst, wFields, true, true, true)
+	w, err := b.getParamWhere(dst, wFields, true, true, true)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 	dst.AddImports(kType.GetImports())
 	dst.AddImports(KName.GetImports())
@@ -578,12 +648,16 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Code("\treturn ret, nil\n")
 	dst.Code("}\n")
 	dst.Code("\n")
+	return nil
 }
 
-func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fType *ast.DataType, fFields []*build.DBField, c *cache) {
+func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fType *ast.DataType, fFields []*build.DBField, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 
-	w := b.getParamWhere(dst, wFields, false, false, true)
+	w, err := b.getParamWhere(dst, wFields, false, false, true)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbCount(ctx context.Context) (int64, error) {\n")
@@ -628,12 +702,16 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.Code("\treturn count, nil\n")
 	dst.Code("}\n")
 	dst.Code("\n")
+	return nil
 }
 
-func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) {
+func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 
-	w := b.getParamWhere(dst, wFields, true, false, false)
+	w, err := b.getParamWhere(dst, wFields, true, false, false)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
@@ -657,12 +735,16 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) {
+func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 
-	w := b.getParamWhere(dst, wFields, true, false, false)
+	w, err := b.getParamWhere(dst, wFields, true, false, false)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
@@ -682,9 +764,10 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, key *build.DBField, c *cache) {
+func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, key *build.DBField, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	if typ != fType {
 		val = "parent"
@@ -702,12 +785,16 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, val, false)
+	set, err := b.printSet(fields, val, false)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
 func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
@@ -756,12 +843,15 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Code("}\n\n")
 }
 
-func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, fields, false, false, false)
+	w, err := b.getParamWhere(dst, fields, false, false, false)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
@@ -777,7 +867,10 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"UPDATE \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, key, true)
+	set, err := b.printSet(fields, key, true)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
@@ -787,14 +880,18 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
+	w, err := b.getParamWhere(dst, wFields, false, false, false)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
@@ -810,7 +907,10 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"UPDATE \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, key, false)
+	set, err := b.printSet(fields, key, false)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
@@ -820,9 +920,10 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *build.Writer {
+func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) (*build.Writer, error) {
 	dst := build.NewWriter()
 	for _, field := range fields {
 		set := ""
@@ -842,17 +943,20 @@ func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *bui
 		}
 
 		dst.Code("\ts.T(\",\")")
-		_ = b.printParam(dst, set, field, fields, "", "")
+		err := b.printParam(dst, set, field, fields, "", "")
+		if nil != err {
+			return nil, err
+		}
 
 		if isNil && build.IsNil(field.Field.Type) && !field.Dbs[0].Force {
 			dst.Code("\t}\n")
 		}
 	}
-	return dst
+	return dst, nil
 
 }
 
-func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := fName
 	if typ == fType || "self" != key {
@@ -860,7 +964,10 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 		dName = b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	}
 
-	w := b.getParamWhere(dst, wFields, false, true, true)
+	w, err := b.getParamWhere(dst, wFields, false, true, true)
+	if nil != err {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	item, scan, _ := b.getItemAndValue(fields, key)
@@ -907,5 +1014,5 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	}
 	dst.Code("\treturn val, nil\n")
 	dst.Code("}\n\n")
-
+	return nil
 }
-- 
2.43.0


From 917c886fa6220936561eaa2b6681725b90781067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 48/78] fix: the key of a database map keeps its case, so a
 camel case field is found

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 925bb8d..cdc3812 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -96,7 +96,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "list" == item.Name.Name {
 						db.List = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "map" == item.Name.Name {
-						db.Map = strings.ToLower(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
+						db.Map = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "table" == item.Name.Name {
 						db.Table = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "set" == item.Name.Name {
-- 
2.43.0


From dc27433fd0427ed962293ec07b600eb7dff308a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 49/78] fix: DbUpdate selects the rows by the conditions of its
 own type

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 4964144..c2c127b 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -848,7 +848,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	if typ != fType {
 		key = "parent"
 	}
-	w, err := b.getParamWhere(dst, fields, false, false, false)
+	w, err := b.getParamWhere(dst, wFields, false, false, false)
 	if nil != err {
 		return err
 	}
-- 
2.43.0


From 43f038b53009ed10c64f5e7a8062df621d7b43db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:16 +0000
Subject: [PATCH 50/78] fix: a table tag that names an enum is an error, not a
 crash

---
 pkg/golang/database.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index c2c127b..ade0626 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -65,7 +65,11 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if nil == table {
 			return build.NewError(typ.Name.Pos(), "Invalid table: "+dbs[0].Table)
 		}
-		typ = table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		data, ok := table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		if !ok {
+			return build.NewError(typ.Name.Pos(), "Invalid table: "+dbs[0].Table)
+		}
+		typ = data
 		dbs, fields, key, err = b.getDBField(typ)
 		if nil != err {
 			return err
-- 
2.43.0


From 31c56064f511d50993210083b1fb18972369d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 51/78] fix: a cache without a minimum time does not import
 rand and time without using them

---
 pkg/golang/database.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index ade0626..80b684f 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -567,10 +567,10 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
@@ -638,10 +638,10 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
@@ -692,10 +692,10 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &count, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
@@ -1005,10 +1005,10 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("\t\treturn nil, err\n")
 	dst.Code("\t}\n")
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &val, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
-- 
2.43.0


From 848cb746f71c0a128ff40ef60626925dde5e302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 52/78] fix: Go imports of packages whose names clash get names
 of their own

---
 pkg/golang/gloang.go | 58 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 387d28d..136a755 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -75,13 +75,20 @@ type Builder struct {
 	pkg      *ast.Package
 	packages string
 	fSet     *token.FileSet
+	file     *ast.File
 }
 
+// 生成的代码中使用的名称
+var _usedNames = strings.Fields("any append bool buf byte c cache client context count ctx cv data db decimal erro err error " +
+	"false g hbuf i int int8 int16 int32 int64 item json key len list make manage match math names new nil p r rand regexp req reps " +
+	"ret rows rpc s server sql string tableName time true uint uint8 uint16 uint32 uint64 utf8 utl val value")
+
 func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	b := Builder{
 		fSet:  fSet,
 		build: param.GetBuilder(),
 		pkg:   param.GetPkg(),
+		file:  file,
 	}
 	b.packages = param.GetPack()
 	dst := NewGoWriter()
@@ -286,10 +293,55 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr) string {
 	}
 
 	packs := strings.Split(pack, ".")
-	pack = packs[len(packs)-1]
+	name := packs[len(packs)-1]
+	as := ""
+	if b.isUsedName(b.file, pack, name, map[*ast.File]bool{}) {
+		name = strings.Join(packs, "_") + "_"
+		as = name
+	}
+
+	dst.Import(b.packages+strings.Join(packs, "/"), as)
+	return name + "."
+}
+
+// isUsedName 包的名称是否与生成的代码中的名称，参数，或其它包的名称相同
+func (b *Builder) isUsedName(file *ast.File, pack, name string, visited map[*ast.File]bool) bool {
+	if 0 == len(visited) {
+		for _, item := range _usedNames {
+			if item == name {
+				return true
+			}
+		}
+	}
+	if nil == file || visited[file] {
+		return false
+	}
+	visited[file] = true
 
-	dst.Import(b.packages+strings.Join(packs, "/"), "")
-	return pack + "."
+	if val, ok := file.Packages["go"]; ok && file != b.file {
+		other := val.Value.Value[1 : len(val.Value.Value)-1]
+		packs := strings.Split(other, ".")
+		if other != pack && packs[len(packs)-1] == name {
+			return true
+		}
+	}
+	for _, s := range file.Specs {
+		if t, ok := s.(*ast.TypeSpec); ok {
+			if server, ok := t.Type.(*ast.ServerType); ok {
+				for _, method := range server.Methods {
+					if build.StringToFirstLower(method.ParamName.Name) == name {
+						return true
+					}
+				}
+			}
+		}
+	}
+	for _, spec := range file.Imports {
+		if b.isUsedName(b.pkg.Files[spec.Path.Value], pack, name, visited) {
+			return true
+		}
+	}
+	return false
 }
 
 func (b *Builder) getFile(name *ast.Ident) *ast.File {
-- 
2.43.0


From 8a1c53794e33c9d9403dfcc4dd14eca326d9ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 53/78] fix: operations on a table use the column of its key
 field

---
 pkg/golang/database.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 80b684f..277e760 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -132,7 +132,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			if nil == key {
 				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
 			}
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		err = b.printDeleteData(dst, dbs[0], w, fType, nil != c)
@@ -147,7 +147,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			if nil == key {
 				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
 			}
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		err = b.printRemoveData(dst, dbs[0], w, fType, nil != c)
@@ -189,7 +189,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			if nil == key {
 				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
 			}
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		err = b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -209,7 +209,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			if nil == key {
 				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
 			}
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		err = b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -229,7 +229,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			if nil == key {
 				return build.NewError(typ.Name.Pos(), "Not find the key field of: "+typ.Name.Name)
 			}
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-- 
2.43.0


From 9d550aebe327f16392f355295efd8343c754328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 54/78] fix: a column is selected under the same name it is
 inserted and updated under

---
 pkg/golang/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 277e760..5c3856a 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -301,14 +301,14 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 	for _, field := range fields {
 		get := ""
 		if 0 < len(field.Dbs[0].Get) {
-			get = strings.ReplaceAll(field.Dbs[0].Get, "?", build.StringToUnderlineName(field.Dbs[0].Name))
+			get = strings.ReplaceAll(field.Dbs[0].Get, "?", field.Dbs[0].Name)
 		} else if "self" == key && (field.Dbs[0].DefaultWhere ||
 			0 == len(field.Dbs[0].Where) &&
 				0 == len(field.Dbs[0].Limit) &&
 				0 == len(field.Dbs[0].Group) &&
 				0 == len(field.Dbs[0].Offset) &&
 				0 == len(field.Dbs[0].Order)) {
-			get = build.StringToUnderlineName(field.Dbs[0].Name)
+			get = field.Dbs[0].Name
 		} else {
 			continue
 		}
-- 
2.43.0


From 7b35f3e637fb6b0bdb823f5dd5943f6dd8049a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 55/78] fix: several group or order fields make one GROUP BY
 and one ORDER BY clause

---
 pkg/golang/database.go | 98 ++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 41 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 5c3856a..b7f16d5 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -377,53 +377,27 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	}
 
 	if groupBy {
-		isFist := true
-		for _, field := range fields {
-			group := field.Dbs[0].Group
-			if 0 < len(group) {
-				if build.IsNil(field.Field.Type) {
-					where.Code("\tif nil != g." + build.StringToHumpName(field.Field.Name.Name) + " {\t")
-				}
-				if isFist {
-					where.Code("\ts.T(\" GROUP BY \")")
-				} else {
-					where.Code("\ts.T(\", \")")
-				}
-
-				err := b.printParam(where, group, field, fields, "", "")
-				if nil != err {
-					return nil, err
-				}
-				if build.IsNil(field.Field.Type) {
-					where.Code("\t}\n")
-				}
+		err := b.printClause(where, fields, "GROUP BY", func(field *build.DBField) (string, string) {
+			if build.IsNil(field.Field.Type) {
+				return field.Dbs[0].Group, "nil != g." + build.StringToHumpName(field.Field.Name.Name)
 			}
+			return field.Dbs[0].Group, ""
+		})
+		if nil != err {
+			return nil, err
 		}
 	}
 
 	if orderBy {
-
-		for _, field := range fields {
-			order := field.Dbs[0].Order
-			if 0 < len(order) {
-				where.Code("\tif ")
-				if build.IsNil(field.Field.Type) {
-					where.Code("nil != g." + build.StringToHumpName(field.Field.Name.Name))
-					where.Code(" && (\"ASC\" == *g." + build.StringToHumpName(field.Field.Name.Name) + " || \"DESC\" == *g." + build.StringToHumpName(field.Field.Name.Name) + ")")
-				} else {
-					where.Code("\"ASC\" == g." + build.StringToHumpName(field.Field.Name.Name) + " || \"DESC\" == g." + build.StringToHumpName(field.Field.Name.Name))
-				}
-
-				where.Code(" {\n")
-				where.Code("\t\ts.T(\" ORDER BY \")")
-
-				err := b.printParam(where, order, field, fields, "", "")
-				if nil != err {
-					return nil, err
-				}
-
-				where.Code("\t}\n")
+		err := b.printClause(where, fields, "ORDER BY", func(field *build.DBField) (string, string) {
+			name := "g." + build.StringToHumpName(field.Field.Name.Name)
+			if build.IsNil(field.Field.Type) {
+				return field.Dbs[0].Order, "nil != " + name + " && (\"ASC\" == *" + name + " || \"DESC\" == *" + name + ")"
 			}
+			return field.Dbs[0].Order, "(\"ASC\" == " + name + " || \"DESC\" == " + name + ")"
+		})
+		if nil != err {
+			return nil, err
 		}
 	}
 
@@ -441,6 +415,48 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	return where, nil
 }
 
+// printClause 输出只能出现一次的子句，call 返回字段的内容和条件
+func (b *Builder) printClause(dst *build.Writer, fields []*build.DBField, clause string, call func(field *build.DBField) (string, string)) error {
+	var list []*build.DBField
+	var conds []string
+	always := false
+	for _, field := range fields {
+		text, cond := call(field)
+		if 0 == len(text) {
+			continue
+		}
+		list = append(list, field)
+		conds = append(conds, cond)
+		always = always || 0 == len(cond)
+	}
+	if 0 == len(list) {
+		return nil
+	}
+
+	if always {
+		dst.Code("\ts.T(\" " + clause + " \").Del(\",\")\n")
+	} else {
+		dst.Code("\tif " + strings.Join(conds, " || ") + " {\n")
+		dst.Code("\t\ts.T(\" " + clause + " \").Del(\",\")\n")
+		dst.Code("\t}\n")
+	}
+	for i, field := range list {
+		if 0 < len(conds[i]) {
+			dst.Code("\tif " + conds[i] + " {\n\t")
+		}
+		text, _ := call(field)
+		dst.Code("\ts.T(\",\")")
+		err := b.printParam(dst, text, field, fields, "", "")
+		if nil != err {
+			return err
+		}
+		if 0 < len(conds[i]) {
+			dst.Code("\t}\n")
+		}
+	}
+	return nil
+}
+
 func (b *Builder) findField(fields []*build.DBField, name string) *build.DBField {
 	for _, item := range fields {
 		if item.Field.Name.Name == name {
-- 
2.43.0


From e7f4937d3602539663efa462424578150518e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:18 +0000
Subject: [PATCH 56/78] fix: the number checks of Dart and TypeScript accept
 exactly the numbers of the field's type

---
 pkg/dart/verify.go       | 18 +++++++++---------
 pkg/typescript/verify.go | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index fb72025..d1f3566 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -70,23 +70,23 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][+-]?[0-9]+)?\\$", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
 					dst.Code("\tif (null == val) {\n")
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 655a64b..2072b38 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -67,23 +67,23 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][+-]?[0-9]+)?$", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
 					dst.Code("\tif (null == val) {\n")
-- 
2.43.0


From fcbe40a121d13c8c1a6fa7288abd210c78057ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:20 +0000
Subject: [PATCH 57/78] fix: the emptiness rule is not lost when the first rule
 has no format

---
 pkg/dart/verify.go       | 4 +++-
 pkg/golang/verify.go     | 6 ++++--
 pkg/typescript/verify.go | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index d1f3566..ec11f3d 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -41,13 +41,14 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 
 		dst.Code("String? verify" + dName + "_" + fName + "(BuildContext context, String? text) {\n")
 		isNull := build.IsNil(field.Type)
+		isFirst := true
 		for i, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
 			}
 			b.getPackage(dst, val.Enum.Name, "enum")
-			if isNull && 0 == i {
+			if isNull && isFirst {
 				if !f.Null {
 					dst.Code("\tif (text?.isEmpty ?? true) {\n")
 					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
@@ -58,6 +59,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					dst.Code("\t}\n")
 				}
 			}
+			isFirst = false
 			if build.IsEnum(field.Type) {
 				//dst.Code("\tif 0 < len(i.Get" + fName + "().ToName()) {\n")
 				//dst.Code("\t\treturn &hbuf.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index c010a54..625e6da 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -79,7 +79,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		dst.Code("func (i *" + dName + ") Verify" + fName + "(ctx context.Context) error {\n")
 
 		first := true
-		for i, val := range verify.GetFormat() {
+		isFirst := true
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
@@ -91,7 +92,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
 			}
 
-			if build.IsNil(field.Type) && 0 == i {
+			if build.IsNil(field.Type) && isFirst {
 				if !f.Null {
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
@@ -110,6 +111,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					dst.Code("\t}\n")
 				}
 			}
+			isFirst = false
 			if build.IsEnum(field.Type) {
 				dst.Code("\tif 0 == len(i.Get" + fName + "().ToName()) {\n")
 				fail()
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 2072b38..520fd05 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -40,13 +40,14 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		dst.Code("export const verify").Code(dName).Code("_").Code(fName).Code(" = (locale: LocaleContext) => (rule: any, value: any, callback: any): any => {\n")
 		dst.Tab(1).Code("value = '' + value\n")
 		isNull := build.IsNil(field.Type)
+		isFirst := true
 		for i, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
 			}
 			pName := b.getPackage(dst, val.Enum.Name, "enum")
-			if isNull && 0 == i {
+			if isNull && isFirst {
 				dst.Tab(1).Code("if (value == '' || value == 'null' || value == 'undefined') {\n")
 				if !f.Null {
 					b.printVerifyError(dst, pName, val)
@@ -55,6 +56,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				}
 				dst.Tab(1).Code("}\n")
 			}
+			isFirst = false
 			if build.IsEnum(field.Type) {
 				//dst.Code("\tif 0 < len(i.Get" + fName + "().ToName()) {\n")
 				//dst.Code("\t\treturn &hbuf.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From 3a366ed0fda77a70c9229de2769d99a86a3ebcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 58/78] fix: limits of decimals are exact, the right way round,
 and checked by every rule

---
 pkg/dart/verify.go       | 37 ++++---------------------------------
 pkg/golang/verify.go     |  4 ++--
 pkg/typescript/verify.go | 37 ++++---------------------------------
 3 files changed, 10 insertions(+), 68 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index ec11f3d..368c12b 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -42,7 +42,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		dst.Code("String? verify" + dName + "_" + fName + "(BuildContext context, String? text) {\n")
 		isNull := build.IsNil(field.Type)
 		isFirst := true
-		for i, val := range verify.GetFormat() {
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
@@ -123,36 +123,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").hasMatch(text")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-
-						dst.Import("package:decimal/decimal.dart", "")
-						dst.Code("\tDecimal? val = Decimal.tryParse(text!);\n")
-						dst.Code("\tif (null == val) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-							dst.Code("\t}\n")
-						}
-					}
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][+-]?[0-9]+)?\\$", field.Type, "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
@@ -211,13 +182,13 @@ func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.F
 	if 0 < len(f.Min) || 0 < len(f.Max) {
 		dst.Code("\tif (")
 		if 0 < len(f.Min) {
-			dst.Code("Decimal.tryParse(" + f.Min + ") > val")
+			dst.Code("Decimal.parse(\"" + f.Min + "\") > val")
 		}
 		if 0 < len(f.Max) {
 			if 0 < len(f.Min) {
 				dst.Code(" || ")
 			}
-			dst.Code("Decimal.tryParse(" + f.Max + ") < val")
+			dst.Code("Decimal.parse(\"" + f.Max + "\") < val")
 		}
 		dst.Code(") {\n")
 		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 625e6da..bd4fa00 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -184,13 +184,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Import("github.com/shopspring/decimal", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").GreaterThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.RequireFromString(\"" + f.Min + "\").GreaterThan(i.Get" + fName + "()) ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Max + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.RequireFromString(\"" + f.Max + "\").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
 						fail()
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 520fd05..84c962d 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -41,7 +41,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		dst.Tab(1).Code("value = '' + value\n")
 		isNull := build.IsNil(field.Type)
 		isFirst := true
-		for i, val := range verify.GetFormat() {
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
@@ -121,36 +121,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						b.printVerifyError(dst, pName, val)
 						dst.Code("\t}\n")
 					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!new RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").test(value")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-
-						dst.Import("decimal.js", "* as d")
-						dst.Code("\tDecimal? val = Decimal.tryParse(value!);\n")
-						dst.Code("\tif (null == val) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							b.printVerifyError(dst, pName, val)
-							dst.Code("\t}\n")
-						}
-					}
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][+-]?[0-9]+)?$", field.Type, "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
@@ -208,13 +179,13 @@ func (b *Builder) verifyNum(dst *build.Writer, pName string, val *build.VerifyEn
 	if 0 < len(f.Min) || 0 < len(f.Max) {
 		dst.Tab(2).Code("if (")
 		if 0 < len(f.Min) {
-			dst.Code("new d.Decimal(").Code(f.Min).Code(").greaterThan(val)")
+			dst.Code("new d.Decimal(\"").Code(f.Min).Code("\").greaterThan(val)")
 		}
 		if 0 < len(f.Max) {
 			if 0 < len(f.Min) {
 				dst.Code(" || ")
 			}
-			dst.Code("new d.Decimal(").Code(f.Max).Code(").lessThan(val)")
+			dst.Code("new d.Decimal(\"").Code(f.Max).Code("\").lessThan(val)")
 		}
 		dst.Code(") {\n")
 		b.printVerifyError(dst, pName, val)
-- 
2.43.0


From 2eb18369c1c08c6df7bb43ae625aae38a2ea0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 59/78] fix: Dart verification functions take a missing text as
 empty and may have several rules

---
 pkg/dart/verify.go | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 368c12b..d329387 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -40,6 +40,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		}
 
 		dst.Code("String? verify" + dName + "_" + fName + "(BuildContext context, String? text) {\n")
+		dst.Code("\ttext ??= \"\";\n")
 		isNull := build.IsNil(field.Type)
 		isFirst := true
 		for _, val := range verify.GetFormat() {
@@ -72,25 +73,25 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-128", "127")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-32768", "32767")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "255")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "65535")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "4294967295")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][+-]?[0-9]+)?\\$", field.Type, "", "")
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][+-]?[0-9]+)?\\$", "", "")
 				case build.Int64:
-					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-9223372036854775808", "9223372036854775807")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "18446744073709551615")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "18446744073709551615")
 				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
+					dst.Code("\t{\n\tDateTime? val = DateTime.tryParse(text);\n")
 					dst.Code("\tif (null == val) {\n")
 					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 					dst.Code("\t}\n")
@@ -117,13 +118,14 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
+					dst.Code("\t}\n")
 				case build.Decimal:
 					if 0 < len(f.Reg) {
 						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
-					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][+-]?[0-9]+)?\\$", field.Type, "", "")
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][+-]?[0-9]+)?\\$", "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
@@ -158,17 +160,12 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	return nil
 }
 
-func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, field ast.Type, min, max string) {
-	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text")
-	if build.IsNil(field) {
-		dst.Code("!")
-	}
-
-	dst.Code(")) {\n")
+func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, min, max string) {
+	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text)) {\n")
 	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 	dst.Code("\t}\n")
 	dst.Import("package:decimal/decimal.dart", "")
-	dst.Code("\tvar val = Decimal.tryParse(text!);\n")
+	dst.Code("\t{\n\tvar val = Decimal.tryParse(text);\n")
 	dst.Code("\tif (null == val) {\n")
 	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 	dst.Code("\t}\n")
@@ -194,4 +191,5 @@ func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.F
 		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 		dst.Code("\t}\n")
 	}
+	dst.Code("\t}\n")
 }
-- 
2.43.0


From bba66c0f1ba1746f3fb68602ce773333c2def53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:24 +0000
Subject: [PATCH 60/78] fix: TypeScript verification functions take a missing
 value as empty, not as the text null

---
 pkg/typescript/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 84c962d..38be365 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -38,7 +38,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		}
 		dst.Import("element-plus", "type {LocaleContext}")
 		dst.Code("export const verify").Code(dName).Code("_").Code(fName).Code(" = (locale: LocaleContext) => (rule: any, value: any, callback: any): any => {\n")
-		dst.Tab(1).Code("value = '' + value\n")
+		dst.Tab(1).Code("value = null == value ? '' : '' + value\n")
 		isNull := build.IsNil(field.Type)
 		isFirst := true
 		for _, val := range verify.GetFormat() {
@@ -48,7 +48,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 			}
 			pName := b.getPackage(dst, val.Enum.Name, "enum")
 			if isNull && isFirst {
-				dst.Tab(1).Code("if (value == '' || value == 'null' || value == 'undefined') {\n")
+				dst.Tab(1).Code("if (value == '') {\n")
 				if !f.Null {
 					b.printVerifyError(dst, pName, val)
 				} else {
-- 
2.43.0


From fce91650dbd1a9e53d300b92f6009db2816393c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 61/78] fix: TypeScript checks dates with TypeScript code

---
 pkg/typescript/verify.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 38be365..f443c1d 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -87,8 +87,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Uint64:
 					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "18446744073709551615")
 				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
-					dst.Code("\tif (null == val) {\n")
+					dst.Code("\t{\n\tconst val = new Date(value).getTime();\n")
+					dst.Code("\tif (isNaN(val)) {\n")
 					b.printVerifyError(dst, pName, val)
 					dst.Code("\t}\n")
 					if 0 < len(f.Min) || 0 < len(f.Max) {
@@ -98,7 +98,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
@@ -108,13 +108,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val")
 						}
 						dst.Code(") {\n")
 						b.printVerifyError(dst, pName, val)
-						b.printVerifyError(dst, pName, val)
 						dst.Code("\t}\n")
 					}
+					dst.Code("\t}\n")
 				case build.Decimal:
 					if 0 < len(f.Reg) {
 						dst.Code("\tif (!new RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").test(value!)) {\n")
-- 
2.43.0


From 7f2b3e2bd950dc2db1ce270245687e24fa990cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:28 +0000
Subject: [PATCH 62/78] fix: Dart and TypeScript count the characters of a text
 as Go does

---
 pkg/dart/verify.go       | 4 ++--
 pkg/typescript/verify.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index d329387..38c1e15 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -130,13 +130,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (text?.length ?? 0)")
+							dst.Code(f.Min + " > text.runes.length")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code(" || ")
 							}
-							dst.Code(f.Max + " < (text?.length ?? 0)")
+							dst.Code(f.Max + " < text.runes.length")
 						}
 						dst.Code(") {\n")
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index f443c1d..39e74d5 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -126,13 +126,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (value?.length ?? 0)")
+							dst.Code(f.Min + " > Array.from(value).length")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code(" || ")
 							}
-							dst.Code(f.Max + " < (value?.length ?? 0)")
+							dst.Code(f.Max + " < Array.from(value).length")
 						}
 						dst.Code(") {\n")
 						b.printVerifyError(dst, pName, val)
-- 
2.43.0


From 2e21d5a4db1cd8666e6725220e768e2e9660b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 63/78] fix: a limit that is not a number of the field's type
 is an error in the schema, not broken code

---
 pkg/build/format.go      | 50 ++++++++++++++++++++++++++++++++++++----
 pkg/dart/verify.go       |  5 +++-
 pkg/golang/verify.go     |  5 +++-
 pkg/typescript/verify.go |  5 +++-
 4 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/pkg/build/format.go b/pkg/build/format.go
index 610f864..d549a5c 100644
--- a/pkg/build/format.go
+++ b/pkg/build/format.go
@@ -2,6 +2,8 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"regexp"
+	"strconv"
 )
 
 type Format struct {
@@ -11,26 +13,64 @@ type Format struct {
 	Max  string
 }
 
-func GetFormat(tags []*ast.Tag) *Format {
+func GetFormat(tags []*ast.Tag, field ast.Type) (*Format, error) {
 	val, ok := GetTag(tags, "format")
 	if !ok {
-		return nil
+		return nil, nil
 	}
 	f := &Format{
 		Null: false,
 	}
 	if nil != val.KV {
 		for _, item := range val.KV {
+			var err error
 			if "null" == item.Name.Name {
 				f.Null = "true" == item.Values[0].Value[1:len(item.Values[0].Value)-1]
 			} else if "reg" == item.Name.Name {
 				f.Reg = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 			} else if "min" == item.Name.Name {
-				f.Min = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+				f.Min, err = getLimit(item.Values[0], field)
 			} else if "max" == item.Name.Name {
-				f.Max = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+				f.Max, err = getLimit(item.Values[0], field)
+			}
+			if err != nil {
+				return nil, err
 			}
 		}
 	}
-	return f
+	return f, nil
+}
+
+var limitReg = regexp.MustCompile("^(?:\\+|(-?))0*([0-9]+(\\.[0-9]*)?([eE][+-]?[0-9]+)?)$")
+
+// getLimit returns the limit of a field's value, written the way every target reads the same number
+func getLimit(lit *ast.BasicLit, field ast.Type) (string, error) {
+	text := lit.Value[1 : len(lit.Value)-1]
+	if 0 == len(text) || IsEnum(field) || IsMap(field) || IsArray(field) {
+		return text, nil
+	}
+	var err error
+	switch t := GetBaseType(field); t {
+	case Int8, Int16, Int32, Int64, String:
+		var val int64
+		val, err = strconv.ParseInt(text, 10, map[BaseType]int{Int8: 8, Int16: 16, Int32: 32, Int64: 64, String: 32}[t])
+		text = strconv.FormatInt(val, 10)
+	case Uint8, Uint16, Uint32, Uint64:
+		var val uint64
+		val, err = strconv.ParseUint(text, 10, map[BaseType]int{Uint8: 8, Uint16: 16, Uint32: 32, Uint64: 64}[t])
+		text = strconv.FormatUint(val, 10)
+	case Float, Double, Decimal:
+		find := limitReg.FindStringSubmatch(text)
+		if nil == find {
+			return "", NewError(lit.Pos()+1, "Invalid number: "+lit.Value)
+		}
+		text = find[1] + find[2]
+		if Decimal != t {
+			_, err = strconv.ParseFloat(text, map[BaseType]int{Float: 32, Double: 64}[t])
+		}
+	}
+	if err != nil {
+		return "", NewError(lit.Pos()+1, "Invalid number: "+lit.Value)
+	}
+	return text, nil
 }
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 38c1e15..df9aaa6 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -44,7 +44,10 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		isNull := build.IsNil(field.Type)
 		isFirst := true
 		for _, val := range verify.GetFormat() {
-			f := build.GetFormat(val.Item.Tags)
+			f, err := build.GetFormat(val.Item.Tags, field.Type)
+			if err != nil {
+				return err
+			}
 			if nil == f {
 				continue
 			}
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index bd4fa00..d519ca8 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -81,7 +81,10 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		first := true
 		isFirst := true
 		for _, val := range verify.GetFormat() {
-			f := build.GetFormat(val.Item.Tags)
+			f, err := build.GetFormat(val.Item.Tags, field.Type)
+			if err != nil {
+				return err
+			}
 			if nil == f {
 				continue
 			}
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 39e74d5..d31f2fd 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -42,7 +42,10 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		isNull := build.IsNil(field.Type)
 		isFirst := true
 		for _, val := range verify.GetFormat() {
-			f := build.GetFormat(val.Item.Tags)
+			f, err := build.GetFormat(val.Item.Tags, field.Type)
+			if err != nil {
+				return err
+			}
 			if nil == f {
 				continue
 			}
-- 
2.43.0


From 031de21e2b70490314ac57cf3470ae0e7147e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 64/78] fix: an error in a tag names its file and line in every
 target

---
 pkg/dart/dart.go             | 2 +-
 pkg/golang/gloang.go         | 2 +-
 pkg/typescript/typescript.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 889ee74..db06950 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -58,7 +58,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	dst := NewGoWriter()
 	err := b.Node(dst, fset, file)
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, fset)
 	}
 
 	if 0 == len(dst.path) {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 136a755..40a6a03 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -94,7 +94,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	dst := NewGoWriter()
 	err := b.Node(dst, fSet, file)
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, fSet)
 	}
 	if 0 == len(dst.packages) {
 		return nil
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 2776d85..20051b7 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -70,7 +70,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	dst := NewGoWriter()
 	err := b.Node(dst, fSet, file)
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, fSet)
 	}
 
 	if 0 == len(dst.path) {
-- 
2.43.0


From 3a2aadbcf8871a8109615f2ce4d308e18b66a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 65/78] fix: a doc comment with a colon after its first word is
 not dropped

---
 pkg/ast/ast.go | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/pkg/ast/ast.go b/pkg/ast/ast.go
index bd3ed75..02099b6 100644
--- a/pkg/ast/ast.go
+++ b/pkg/ast/ast.go
@@ -67,7 +67,7 @@ func (g *CommentGroup) Text() string {
 				break
 			}
 			if isDirective(c) {
-				// Ignore //go:noinline, //line, and so on.
+				// Ignore //line.
 				continue
 			}
 		case '*':
@@ -107,26 +107,7 @@ func (g *CommentGroup) Text() string {
 func isDirective(c string) bool {
 	// "//line " is a line directive.
 	// (The // has been removed.)
-	if strings.HasPrefix(c, "line ") {
-		return true
-	}
-
-	// "//[a-z0-9]+:[a-z0-9]"
-	// (The // has been removed.)
-	colon := strings.Index(c, ":")
-	if colon <= 0 || colon+1 >= len(c) {
-		return false
-	}
-	for i := 0; i <= colon+1; i++ {
-		if i == colon {
-			continue
-		}
-		b := c[i]
-		if !('a' <= b && b <= 'z' || '0' <= b && b <= '9') {
-			return false
-		}
-	}
-	return true
+	return strings.HasPrefix(c, "line ")
 }
 
 type Field struct {
-- 
2.43.0


From a4e1c91184fde3385c9a5faf458c711508153255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:19 +0000
Subject: [PATCH 66/78] fix: a doc comment between the tags and the element is
 not dropped

---
 pkg/parser/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a2b7661..324dd17 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -528,6 +528,9 @@ func (p *parser) parseFieldDecl(scope *ast.Scope) *ast.Field {
 	}
 	doc := p.leadComment
 	tags := p.parseTags()
+	if doc == nil {
+		doc = p.leadComment
+	}
 	typ := p.parseVarType()
 	if p.tok != token.IDENT {
 		p.errorExpected(p.pos, "not find Type")
@@ -615,6 +618,9 @@ func (p *parser) parseMethodSpec() *ast.FuncType {
 
 	doc := p.leadComment
 	tags := p.parseTags()
+	if doc == nil {
+		doc = p.leadComment
+	}
 	result := p.parseMethodType()
 	name := p.parseIdent()
 	p.expect(token.LPAREN)
@@ -836,6 +842,9 @@ func (p *parser) parseEnumItem(scope *ast.Scope) *ast.EnumItem {
 	}
 	doc := p.leadComment
 	tags := p.parseTags()
+	if doc == nil {
+		doc = p.leadComment
+	}
 	if p.tok != token.IDENT {
 		p.errorExpected(p.pos, "not find Type")
 	}
@@ -898,6 +907,9 @@ func (p *parser) parseDecl(sync map[token.Token]bool) ast.Spec {
 	}
 	doc := p.leadComment
 	tags := p.parseTags()
+	if doc == nil {
+		doc = p.leadComment
+	}
 	switch p.tok {
 	case token.DATA:
 		return p.parseDataSpec(doc, tags)
-- 
2.43.0


From 54718834df364157199ffac1c021c22dcee0379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:20 +0000
Subject: [PATCH 67/78] fix: a line separator in a doc comment does not end the
 comment

---
 pkg/build/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/build/writer.go b/pkg/build/writer.go
index 3d04dfa..e429105 100644
--- a/pkg/build/writer.go
+++ b/pkg/build/writer.go
@@ -95,8 +95,12 @@ func NewWriter() *Writer {
 	}
 }
 
+// docLines are the characters that end a line in one of the languages.
+var docLines = strings.NewReplacer("\r\n", "\n", "\r", "\n", "\u2028", "\n", "\u2029", "\n")
+
 // DocText is the text of a doc comment, every line after the first one with
 // the prefix that makes it a comment.
 func DocText(doc *ast.CommentGroup, prefix string) string {
-	return strings.ReplaceAll(strings.TrimSuffix(doc.Text(), "\n"), "\n", "\n"+prefix) + "\n"
+	text := docLines.Replace(strings.TrimSuffix(doc.Text(), "\n"))
+	return strings.ReplaceAll(text, "\n", "\n"+prefix) + "\n"
 }
-- 
2.43.0


From 87f652d73cd121bb7b6839f34b13c0df2177aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 68/78] fix: a Unicode escape in a doc comment is only text in
 Java

---
 pkg/java/data.go   | 6 +++---
 pkg/java/enum.go   | 4 ++--
 pkg/java/java.go   | 6 ++++++
 pkg/java/server.go | 4 ++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 8a58201..4ccf7f9 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + build.DocText(typ.Doc, "///"))
+		dst.Code("///" + docText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + build.DocText(field.Doc, "\t///"))
+			dst.Code("\t/// Get " + docText(field.Doc, "\t///"))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t///"))
+			dst.Code("\t/// Set " + docText(field.Doc, "\t///"))
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index f49a093..7e3ad5a 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + build.DocText(typ.Doc, "///"))
+		dst.Code("///" + docText(typ.Doc, "///"))
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -57,7 +57,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("///" + build.DocText(item.Doc, "///"))
+			dst.Code("///" + docText(item.Doc, "///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + build.StringToHumpName(item.Name.Name) + "\"")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 75313e2..200d78d 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -23,6 +23,12 @@ var _nullTypes = map[build.BaseType]string{
 	build.Double: "Double", build.String: "String", build.Date: "Date", build.Decimal: "BigDecimal",
 }
 
+// docText is the text of a doc comment without Unicode escapes, which Java
+// reads in comments too.
+func docText(doc *ast.CommentGroup, prefix string) string {
+	return strings.ReplaceAll(build.DocText(doc, prefix), "\\u", "\\ u")
+}
+
 type JavaWriter struct {
 	data     *build.Writer
 	enum     *build.Writer
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 0079d6d..063227d 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + build.DocText(typ.Doc, "///"))
+		dst.Code("///" + docText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + build.DocText(method.Doc, "///"))
+			dst.Code("///" + docText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t@override\n")
-- 
2.43.0


From 9a762e0d21a6f705d5c6a0364232ac554ff74e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:48 +0000
Subject: [PATCH 69/78] fix: a null in a map keeps its key in the JSON of
 TypeScript

---
 pkg/typescript/data.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 7f82819..7e2e91e 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -418,12 +418,14 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 			b.printToJson(dst, "", "key", t.Key, data, empty, true)
 			dst.Code(",")
 			b.printToJson(dst, "", "value", t.VType, data, empty, false)
+			b.printNull(dst, t.VType)
 			dst.Code("))")
 		} else {
 			dst.Code("h.convertRecord(" + key + name + ", (key, value) => new h.RecordEntry(")
 			b.printToJson(dst, "", "key", t.Key, data, empty, true)
 			dst.Code(",")
 			b.printToJson(dst, "", "value", t.VType, data, empty, false)
+			b.printNull(dst, t.VType)
 			dst.Code("))")
 		}
 	case *ast.VarType:
@@ -433,6 +435,14 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 	}
 }
 
+// printNull makes null of what ?. leaves undefined, which JSON has not: an entry
+// of a map would be lost.
+func (b *Builder) printNull(dst *build.Writer, expr ast.Expr) {
+	if build.IsNil(expr) {
+		dst.Code(" ?? null")
+	}
+}
+
 func (b *Builder) printExtend(dst *build.Writer, extends []*ast.Extends, start bool) {
 	for i, v := range extends {
 		if 0 != i || start {
-- 
2.43.0


From 39c5a0c465502cd251daa29521f76f89b116a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:49 +0000
Subject: [PATCH 70/78] fix: the keys of a map are texts in the JSON of Dart

---
 pkg/dart/data.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index cba6381..01b368f 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -580,13 +580,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 		empty = t.IsEmpty()
 		if empty {
 			dst.Code(name + "?.map((key,value) => MapEntry(")
-			b.printToMap(dst, "key", t.Key, data, empty)
+			b.printToKey(dst, t.Key, data)
 			dst.Code(",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
-			b.printToMap(dst, "key", t.Key, data, empty)
+			b.printToKey(dst, t.Key, data)
 			dst.Code(",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
@@ -597,6 +597,20 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 	}
 }
 
+// printToKey writes the key of a map, which is a text in JSON.
+func (b *Builder) printToKey(dst *build.Writer, expr ast.Expr, data *ast.DataType) {
+	b.printToMap(dst, "key", expr, data, false)
+	if t, ok := expr.(*ast.VarType); ok {
+		if i, ok := t.Type().(*ast.Ident); ok && nil == i.Obj {
+			switch build.BaseType(i.Name) {
+			case build.String, build.Int64, build.Uint64, build.Decimal:
+				return
+			}
+		}
+	}
+	dst.Code(".toString()")
+}
+
 func (b *Builder) printExtend(dst *build.Writer, extends []*ast.Extends, start bool) {
 	for i, v := range extends {
 		if 0 != i || start {
-- 
2.43.0


From 668633e0a3f8ed1d9c8ed904c5417ee395636cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 71/78] fix: a uint64 above the greatest int64 stays positive
 in Dart and TypeScript

---
 pkg/dart/data.go             | 8 +++++++-
 pkg/typescript/data.go       | 8 ++++++--
 pkg/typescript/typescript.go | 2 +-
 pkg/typescript/ui.go         | 2 +-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 01b368f..66dba31 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -541,12 +541,18 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			switch build.BaseType(expr.(*ast.Ident).Name) {
 			case build.Int8, build.Int16, build.Int32, build.Uint32, build.Uint8, build.Uint16, build.Float, build.Double, build.String, build.Bool:
 				dst.Code(name)
-			case build.Uint64, build.Int64:
+			case build.Int64:
 				if empty {
 					dst.Code(name + "?.toString()")
 				} else {
 					dst.Code(name + ".toString()")
 				}
+			case build.Uint64:
+				if empty {
+					dst.Code(name + "?.toStringUnsigned()")
+				} else {
+					dst.Code(name + ".toStringUnsigned()")
+				}
 			case build.Date:
 				if empty {
 					dst.Code(name + "?.millisecondsSinceEpoch")
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 7e2e91e..a823ffe 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -230,10 +230,14 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					dst.Import("long", "Long")
+					zero, unsigned := "Long.ZERO", ""
+					if build.Uint64 == build.BaseType(t.Name) {
+						zero, unsigned = "Long.UZERO", ", true"
+					}
 					if empty {
-						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					} else {
-						dst.Code("null == " + name + " ? Long.ZERO : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? " + zero + " : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					}
 				}
 			case build.Float, build.Double:
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 20051b7..ed4adc8 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -20,7 +20,7 @@ var _types = map[build.BaseType]string{
 
 var _typesValue = map[build.BaseType]string{
 	build.Int8: "0", build.Int16: "0", build.Int32: "0", build.Int64: "Long.ZERO", build.Uint8: "0",
-	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.ZERO", build.Bool: "false", build.Float: "0.0",
+	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.UZERO", build.Bool: "false", build.Float: "0.0",
 	build.Double: "0.0", build.String: "\"\"", build.Date: "new Date()", build.Decimal: "new d.Decimal(0)",
 }
 
diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 2ab5d0e..b400b9a 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -351,7 +351,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ") :").Code(name).Code(")")
+				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ", true) :").Code(name).Code(")")
 			case build.Float, build.Double:
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
-- 
2.43.0


From c4979cbe61f47250c4cf5f4ae004b0ab249eb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:40 +0000
Subject: [PATCH 72/78] fix: a uint64 above the greatest int64 is shown as
 positive in Dart forms and tables

---
 pkg/dart/ui.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index edaa19f..a7f0d2a 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -341,11 +341,16 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 			b.printToString(dst, t.Obj.Decl.(*ast.TypeSpec).Type, empty, digit, format, val)
 		} else {
 			switch build.BaseType(t.Name) {
-			case build.Int8, build.Int16, build.Int32, build.Int64, build.Uint8, build.Uint16, build.Uint32, build.Uint64:
+			case build.Int8, build.Int16, build.Int32, build.Int64, build.Uint8, build.Uint16, build.Uint32:
 				if empty {
 					dst.Code("?")
 				}
 				dst.Code(".toString()")
+			case build.Uint64:
+				if empty {
+					dst.Code("?")
+				}
+				dst.Code(".toStringUnsigned()")
 			case build.Float, build.Double:
 				if empty {
 					dst.Code("?")
-- 
2.43.0


From 8e0dbc40a2584081a3f7ae5b8ddea1430e00fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 73/78] fix: the input of an optional password has the
 attribute clearable once in TypeScript

---
 pkg/typescript/ui.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index b400b9a..76da7e6 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -595,9 +595,6 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 			if isNull {
 				dst.Tab(7).Code("clearable\n")
 			}
-			if isNull {
-				dst.Tab(7).Code("clearable\n")
-			}
 			if form.onlyRead {
 				dst.Tab(7).Code("disabled\n")
 			}
-- 
2.43.0


From 6a44cbe47322f6b3abeecb19e7104f6198ca95e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:42 +0000
Subject: [PATCH 74/78] fix: the picker of several dates stores the date that
 is chosen in TypeScript

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 76da7e6..67d643c 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -487,7 +487,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 				} else if "month" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else if "dates" == form.form {
-					dst.Code("($event?.length ?? 0 == 0) ? null :_ctx.$timeToUtc($event[0])")
+					dst.Code("(($event?.length ?? 0) == 0) ? null :_ctx.$timeToUtc($event[0])")
 				} else if "year" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else {
-- 
2.43.0


From 39b3e213c33d1593a3b80d47d812aa31ec7ab92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 75/78] fix: the text input of a date stores a date in
 TypeScript

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 67d643c..47d0ab7 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -366,7 +366,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("Date.parse(" + name + ") ?? ").Code(name)
+				dst.Code("new Date(" + name + ")")
 			case build.Decimal:
 				dst.Import("decimal.js", "* as d")
 				if empty {
-- 
2.43.0


From fee4497ea1d9c25f249d63407ef845eefdc22c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 76/78] fix: the table cell of a list or map that is null is
 empty in TypeScript

---
 pkg/typescript/ui.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 47d0ab7..39f33f7 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -300,8 +300,14 @@ func (b *Builder) printToString(dst *build.Writer, name string, expr ast.Expr, e
 			}
 		}
 	case *ast.ArrayType:
+		if build.IsNil(expr) {
+			dst.Code("null == ").Code(name).Code(" ? \"\" : ")
+		}
 		dst.Code("\"\"+").Code(name)
 	case *ast.MapType:
+		if build.IsNil(expr) {
+			dst.Code("null == ").Code(name).Code(" ? \"\" : ")
+		}
 		dst.Code("\"\"+").Code(name)
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
-- 
2.43.0


From 4c03fab4748c4c8eddb087bd58c1201476c38a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:46 +0000
Subject: [PATCH 77/78] fix: an empty control does not store null in a field
 that may not be null in Dart

---
 pkg/dart/ui.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index a7f0d2a..4f50b49 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -554,7 +554,9 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 				setValue.Code(";\n")
 				if !form.onlyRead {
 					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-					setValue.Code("\"\" == val ? null : ")
+					if isNil {
+						setValue.Code("\"\" == val ? null : ")
+					}
 					b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
 					setValue.Code(";\n")
 				}
@@ -603,7 +605,9 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 			setValue.Code(";\n")
 			if !form.onlyRead {
 				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
+				if isNil {
+					setValue.Code("\"\" == val ? null : ")
+				}
 				b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
 				setValue.Code(";\n")
 			}
@@ -720,8 +724,11 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 			setValue.Code(";\n")
 			if !form.onlyRead {
 				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
-				setValue.Code("val ;\n")
+				if isNil {
+					setValue.Code("\"\" == val ? null : val ;\n")
+				} else {
+					setValue.Code("val! ;\n")
+				}
 			}
 			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
 			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-- 
2.43.0


From ba434f2be11f78bfff199bbde7ff5e468f9cc061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:06 +0000
Subject: [PATCH 78/78] fix: the text of a date in a Dart form can be read back

---
 pkg/dart/ui.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 4f50b49..88d89c5 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -528,6 +528,9 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 		if err != nil {
 			return err
 		}
+		if ("text" == form.form || "file" == form.form) && 0 == len(form.format) {
+			form.format = "yyyy-MM-dd HH:mm:ss" // what DateTime.tryParse reads
+		}
 		if "text" == form.form {
 			dst.Code("\tfinal TextFormBuild " + fieldName + " = TextFormBuild();\n\n")
 			if isArray {
-- 
2.43.0

