From 64ccea310ea99179a267de802ca5fab72512bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 001/100] fix: textcoder.UnmarshalContext passes the caller's
 context to the decoder

It passed a new context, so values added with WithValue never reached a
registered decoder.
---
 textcoder/textcoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index 7514295..dcd1691 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -381,7 +381,7 @@ func UnmarshalContext(ctx *Context, value string, dst T) error {
 	if dec == nil {
 		return fmt.Errorf("no registered decoder for type %v", t)
 	}
-	return dec.DecodeText(NewContext(), value, dst)
+	return dec.DecodeText(ctx, value, dst)
 }
 
 // MarshalContext attempts to encode the value into a string using one of the
-- 
2.43.0


From b9c6670345861789048a60ea3236ed68407b3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 002/100] fix: textcoder encodes types whose MarshalText has a
 pointer receiver

GetEncoder and GetCoder return a coder for such a type, but its EncodeText
always failed because the value itself does not implement TextMarshaler.
---
 textcoder/textcoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index dcd1691..81b7c54 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -584,6 +584,12 @@ func (c *textEncodingCoder) DecodeText(_ *Context, text string, dst T) error {
 
 func (c *textEncodingCoder) EncodeText(_ *Context, value T) (string, error) {
 	m, ok := value.(encoding.TextMarshaler)
+	if !ok && value != nil {
+		// MarshalText may be declared on the pointer type.
+		ptr := reflect.New(reflect.TypeOf(value))
+		ptr.Elem().Set(reflect.ValueOf(value))
+		m, ok = ptr.Interface().(encoding.TextMarshaler)
+	}
 	if !ok {
 		return "", fmt.Errorf("value does not implement encoding.TextMarshaler: %v of type %v", value, reflect.TypeOf(value))
 	}
-- 
2.43.0


From 5e91e3c960e0b30c1dabdcbd0edae411ed645afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 003/100] fix: textcoder.GetEncoder honours pointer types that
 implement TextMarshaler

The documentation says a type implementing encoding.TextMarshaler gets an
encoder that dispatches to MarshalText, but for a pointer type only the
pointer to it was examined, which has no methods.
---
 textcoder/textcoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index 81b7c54..02431a1 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -202,7 +202,7 @@ func (r *Registry) GetEncoder(t reflect.Type) Encoder {
 	if explicit != nil {
 		return explicit
 	}
-	if reflect.PtrTo(t).Implements(textMarshalerInterface) {
+	if t.Implements(textMarshalerInterface) || reflect.PtrTo(t).Implements(textMarshalerInterface) {
 		return &textEncodingCoder{}
 	}
 	if basicCoder, _ := r.getEntryForUnderlying(t); basicCoder != nil {
-- 
2.43.0


From 7878fbd397fc7e31efbc1eec3950d483d2d2d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 004/100] fix: csvcoder ignores unexported struct fields

RegisterRowStruct documents that each public field is examined, but an
unexported field was treated as a column and made every parse panic.
---
 csvcoder/csvcoder_row.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csvcoder/csvcoder_row.go b/csvcoder/csvcoder_row.go
index f7b1ba9..ce0b94b 100644
--- a/csvcoder/csvcoder_row.go
+++ b/csvcoder/csvcoder_row.go
@@ -266,6 +266,10 @@ func inferRegisteredType(t reflect.Type, opt ...RegisterOption) (*registeredType
 	var valueExtractors []func(row *Row, dst reflect.Value) error
 	for i := 0; i < t.Elem().NumField(); i++ {
 		f := t.Elem().FieldByIndex([]int{i})
+		if f.PkgPath != "" {
+			// Only public fields are parsed; reflection cannot set others.
+			continue
+		}
 		if _, ok := f.Tag.Lookup("csv-skip"); ok {
 			continue
 		}
-- 
2.43.0


From 4dcd05abdb963fe2d57f51d3bb22fa24aa4a10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 005/100] fix: csvcoder registry accesses that were left
 outside its locks

The list of registered row types was read without the lock (a crash when
another goroutine registers a type), and a cell parser's decoder was written
while other goroutines read it.
---
 csvcoder/csvcoder_cell.go | 9 +++++++--
 csvcoder/csvcoder_row.go  | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/csvcoder/csvcoder_cell.go b/csvcoder/csvcoder_cell.go
index 1b15a1e..3bc04fa 100644
--- a/csvcoder/csvcoder_cell.go
+++ b/csvcoder/csvcoder_cell.go
@@ -71,8 +71,11 @@ func (cp *registeredCellParser) ParseCSVCell(ctx *CellContext, value string, fie
 	if cp.impl != nil {
 		return cp.impl.ParseCSVCell(ctx, value, field)
 	}
-	if cp.decoder != nil {
-		return cp.decoder.DecodeText(textcoder.NewContext().WithValue("csvcoder.CellContext", ctx), value, field.Interface())
+	defaultRegistryMapMutex.RLock()
+	decoder := cp.decoder
+	defaultRegistryMapMutex.RUnlock()
+	if decoder != nil {
+		return decoder.DecodeText(textcoder.NewContext().WithValue("csvcoder.CellContext", ctx), value, field.Interface())
 	}
 	panic("internal error in csvcoder: registeredCellParser has no implementation")
 }
@@ -99,7 +102,9 @@ func getOrCreateCellParserForType(t reflect.Type) (cellParser, error) {
 		return parser, nil
 	}
 	if dec := textcoder.DefaultRegistry().GetDecoder(t.Elem()); dec != nil {
+		defaultRegistryMapMutex.Lock()
 		parser.decoder = dec
+		defaultRegistryMapMutex.Unlock()
 		return parser, nil
 	}
 
diff --git a/csvcoder/csvcoder_row.go b/csvcoder/csvcoder_row.go
index ce0b94b..93dba00 100644
--- a/csvcoder/csvcoder_row.go
+++ b/csvcoder/csvcoder_row.go
@@ -235,9 +235,11 @@ func getRegisteredTypeOrErr(t reflect.Type) (*registeredType, error) {
 	rt := getRegisteredType(t)
 	if rt == nil {
 		var typeStrings []string
+		defaultRegistry.registeredRowTypesLock.RLock()
 		for _, rt := range defaultRegistry.registeredRowTypes {
 			typeStrings = append(typeStrings, fmt.Sprintf("%v", rt))
 		}
+		defaultRegistry.registeredRowTypesLock.RUnlock()
 		return nil, fmt.Errorf("no CSV row parser registered for type %v; registered types: [%s]", t, strings.Join(typeStrings, ", "))
 	}
 	return rt, nil
-- 
2.43.0


From 2b08819bf3b39dad72c689bd7631e16ba8c86f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 006/100] fix: csvcoder counts rows that the CSV reader rejects

A caller may go on reading after a row with the wrong number of fields, but
every later row was then reported one row too early.
---
 csvcoder/csvcoder_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csvcoder/csvcoder_file.go b/csvcoder/csvcoder_file.go
index 9e25c17..2fb30b1 100644
--- a/csvcoder/csvcoder_file.go
+++ b/csvcoder/csvcoder_file.go
@@ -105,10 +105,10 @@ func (fp *FileParser) Read() (interface{}, error) {
 		return nil, err
 	}
 	row := NewRow(rowVals, fp.hdr, fp.rowNum, fp.filePath)
+	fp.rowNum++
 	if err != nil {
 		return nil, row.errorf("csv.Reader error: %w", err)
 	}
-	fp.rowNum++
 
 	return fp.rt.parseRow(row)
 }
-- 
2.43.0


From 5e16ee169c92e5fbdd7a220fe89ae4ded2dbefb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 007/100] fix: codegen.Register returns a usable name after a
 blank or dot import

Register returned the blank (or dot) import of the path if one had been
registered before, whose PackageName cannot qualify an identifier.
---
 codegen/codegen_imports.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/codegen/codegen_imports.go b/codegen/codegen_imports.go
index 5a2700b..0bd9ad3 100644
--- a/codegen/codegen_imports.go
+++ b/codegen/codegen_imports.go
@@ -11,7 +11,10 @@ import (
 	"unicode/utf8"
 )
 
-const blankAlias = "_"
+const (
+	blankAlias = "_"
+	dotAlias   = "."
+)
 
 // Imports maintains a set of imports. The imports are safe for concurrent
 // access.
@@ -120,7 +123,7 @@ func (i *Imports) Register(importPath string) *Import {
 		locked, unlock := i.lockedVersion()
 		defer unlock()
 
-		return locked.findByImportPath(importPath).asImport()
+		return locked.findNamedByImportPath(importPath).asImport()
 	}(); got != nil {
 		return got
 	}
@@ -231,6 +234,17 @@ func (i lockedImports) findByImportPath(importPath string) *importDef {
 	return nil
 }
 
+// findNamedByImportPath returns the first definition for the path that gives the
+// package a name: blank and dot imports do not.
+func (i lockedImports) findNamedByImportPath(importPath string) *importDef {
+	for _, def := range i.i.defs {
+		if def.path == importPath && def.packageName != blankAlias && def.packageName != dotAlias {
+			return def
+		}
+	}
+	return nil
+}
+
 // findByPackageName returns the definition by package name, the name used in
 // the source code identifiers.
 func (i lockedImports) findByPackageName(packageName string) *importDef {
-- 
2.43.0


From 41fe7dceec496a787d947ca797c10abc8926dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 008/100] fix: textpos.PosForLineColumn rejects columns past
 the end of the line

A column beyond the end of a line was taken to be a position on a later line,
although it is documented to be out of bounds.
---
 textpos/textpos_from_go_token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/textpos/textpos_from_go_token.go b/textpos/textpos_from_go_token.go
index b79aaa8..b73bda0 100644
--- a/textpos/textpos_from_go_token.go
+++ b/textpos/textpos_from_go_token.go
@@ -489,6 +489,10 @@ func (f *File) PosForLineColumn(lc LineColumn) Pos {
 	if f.checkPos(finalPos) != nil {
 		return NoPos
 	}
+	// The column must not run into the next line.
+	if next := f.lineStartOrNoPosWithMutexHeld(LineFromOrdinal(lc.line.Ordinal() + 1)); next != NoPos && finalPos >= next {
+		return NoPos
+	}
 	return finalPos
 }
 
-- 
2.43.0


From 3f9ff7ad9eecf1d93901ad430ed8aed9da6e7506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 009/100] fix: textpos.LineColumn.String tests the column's own
 validity

---
 textpos/textpos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textpos/textpos.go b/textpos/textpos.go
index ee9e605..183b060 100644
--- a/textpos/textpos.go
+++ b/textpos/textpos.go
@@ -83,7 +83,7 @@ func (p LineColumn) String() string {
 	if p.Line().IsValid() {
 		l = fmt.Sprintf("%d", p.Line().Ordinal())
 	}
-	if p.Line().IsValid() {
+	if p.Column().IsValid() {
 		c = fmt.Sprintf("%d", p.Column().Ordinal())
 	}
 	return fmt.Sprintf("%s:%s", l, c)
-- 
2.43.0


From 9276c48ce333bf6aacaa2f75193019d49e13d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 010/100] fix: sexpr keeps slashes in symbols

A slash inside of a symbol was dropped (a/b read as the symbol ab), a symbol of
one slash was refused, and a slash at the end of the text was silently ignored,
even inside of an unclosed list.
---
 sexpr/sexpr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index fc143fe..70c19aa 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -317,6 +317,7 @@ loop:
 			// is in the middle of the symbol.
 			r2, err := fr.src.readRune()
 			if err == io.EOF {
+				literal.WriteRune(r)
 				break loop
 			}
 			if err := fr.src.unreadRune(); err != nil {
@@ -330,6 +331,7 @@ loop:
 				}
 				break loop
 			}
+			literal.WriteRune(r)
 		default:
 			literal.WriteRune(r)
 		}
@@ -363,6 +365,10 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 	contents := strings.Builder{}
 	contents.WriteRune('/')
 	secondCommentRune, err := fr.src.readRune()
+	if err == io.EOF {
+		// A slash at the end of the file is not a comment.
+		return nil, false, nil
+	}
 	if err != nil {
 		return nil, false, err
 	}
-- 
2.43.0


From 1b65f8c141ce5c11e52d0b1251c804b7da8c75b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 011/100] fix: sexpr block comments end at the first */

A comment that ends in **/ ran on, as the rune after each star was consumed
without being looked at as a star itself.
---
 sexpr/sexpr.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 70c19aa..55037c2 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -376,6 +376,7 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 	switch secondCommentRune {
 	case '*':
 		// Consume the contents of the multi-line comment.
+		prevRune := rune(0)
 		for {
 			r, err := fr.src.readRune()
 			if err == io.EOF {
@@ -385,20 +386,10 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 				return nil, false, err
 			}
 			contents.WriteRune(r)
-			if r != '*' {
-				continue
-			}
-			r2, err := fr.src.readRune()
-			contents.WriteRune(r2)
-			if err == io.EOF {
-				break
-			}
-			if err != nil {
-				return nil, false, err
-			}
-			if r2 == '/' {
+			if prevRune == '*' && r == '/' {
 				break
 			}
+			prevRune = r
 		}
 		end := fr.src.cursorOffset()
 		c, err := fr.factory.NewCommentForm(contents.String(), fr.makeSpan(start, end))
-- 
2.43.0


From c2f541fe21b56f0488ef0f4f5c407035d204f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 012/100] fix: sexpr strings that hold an escaped backslash

A string ending in an escaped backslash ("a\\\\") was read past its closing
quote, and a backslash before a literal newline turned into the two characters
of an escape sequence.
---
 sexpr/sexpr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 55037c2..c117bd6 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -222,6 +222,9 @@ loop:
 		}
 		switch r {
 		case '\n':
+			if prevCharWasEscape {
+				return nil, fr.errorfWithPosition("error parsing string - backslash before a newline")
+			}
 			value.WriteString(`\n`) // Replace newline literals with the literal `\n`, which is supported by strconv.Unquote.
 			//return nil, fr.errorfWithPosition("unexpected newline before terminating \" character", src)
 		case '"':
@@ -233,7 +236,7 @@ loop:
 		default:
 			value.WriteRune(r)
 		}
-		prevCharWasEscape = (r == '\\')
+		prevCharWasEscape = r == '\\' && !prevCharWasEscape
 	}
 	parsedValue, err := strconv.Unquote(value.String())
 	if err != nil {
-- 
2.43.0


From 8ee123cf247b98d473011e81f4acebc5d8b02aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 013/100] fix: sexpr reads inf, nan and infinity as symbols

They were taken to be numbers, with an unknown constant for a value, since the
constant package has neither infinities nor NaN.
---
 sexpr/sexpr_util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sexpr/sexpr_util.go b/sexpr/sexpr_util.go
index 5a72ce1..b5c941e 100644
--- a/sexpr/sexpr_util.go
+++ b/sexpr/sexpr_util.go
@@ -3,6 +3,7 @@ package sexpr
 import (
 	"fmt"
 	"go/constant"
+	"math"
 	"regexp"
 	"strconv"
 )
@@ -52,6 +53,10 @@ func parseNumber(s string) (*number, error) {
 		return &number{int64: &i}, nil
 	}
 	f, err := strconv.ParseFloat(s, 64)
+	if err == nil && (math.IsInf(f, 0) || math.IsNaN(f)) {
+		// The words that ParseFloat knows, like inf and nan, are symbols.
+		return nil, nil
+	}
 	if err == nil {
 		return &number{float64: &f}, nil
 	}
-- 
2.43.0


From 8b858c9c8d85a59f1d1b47edfec83b018bd4dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 014/100] fix: sexpr.ReadForm skips every valueless form

With a custom FormFactory, whitespace and comments were returned as forms,
unless they were of the default factory's types.
---
 sexpr/sexpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index c117bd6..29812c6 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -113,7 +113,7 @@ func (fr *FormReader) ReadForm() (Form, error) {
 		if err != nil {
 			return nil, err
 		}
-		if _, ok := form.(nonSubstantiveForm); ok {
+		if _, ok := form.(ValuelessForm); ok {
 			continue
 		}
 		return form, nil
-- 
2.43.0


From bd98d217767a5ad02e2c64c8f42731b7e99ac25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 015/100] fix: sexpr bounds the nesting of forms

A few million opening parentheses or quotes overflowed the stack, which ends
the process. The limit is that of go/parser.
---
 sexpr/sexpr.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 29812c6..0985f96 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -55,8 +55,12 @@ type FormReader struct {
 	src       sourceFile
 	readTable readTable
 	factory   FormFactory
+	depth     int // number of forms being read
 }
 
+// maxDepth limits the nesting of forms, as reading uses the stack.
+const maxDepth = 100000
+
 // Option is used to configure a FormReader.
 type Option interface {
 	apply(*FormReader)
@@ -95,7 +99,7 @@ func NewFileReader(fileName, contents string, opts ...Option) *FormReader {
 
 func newFormReader(name, code string) *FormReader {
 	sf := newStrSourceFile(name, code)
-	fr := &FormReader{sf, make(readTable), nil}
+	fr := &FormReader{src: sf, readTable: make(readTable)}
 	fr.factory = DefaultFormFactory(fr)
 
 	// To give a flavor of macro characters, we use a non-builtin method of
@@ -123,6 +127,11 @@ func (fr *FormReader) ReadForm() (Form, error) {
 // readFormEvenTrivial returns a (Form, error), just like ReadForm(), but it
 // also reads comments and whitespace.
 func (fr *FormReader) readFormEvenTrivial() (Form, error) {
+	fr.depth++
+	defer func() { fr.depth-- }()
+	if fr.depth > maxDepth {
+		return nil, fr.errorfWithPosition("forms are nested too deeply")
+	}
 	r, err := fr.src.peekRune()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 71854de849ebec04098867582f2df6fd0fbd157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 016/100] fix: wirepath.ParseString: keep every element of
 paths of more than two

---
 wirepath/wirepath_from_string.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 8d296ba..7438420 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -78,6 +78,7 @@ func ParseString(wirePathLiteral string) (*WirePath, error) {
 			topLevel = elem
 		} else {
 			parent.Child = elem
+			parent = elem
 		}
 	}
 	return FromProto(topLevel)
-- 
2.43.0


From 9affb3849de51171b1cd965ba5f4dfe8513aa6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 017/100] fix: wirepath.ParseString: an sfixed32 map key is an
 sfixed32, not an sfixed64

---
 wirepath/wirepath_from_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 7438420..70b5ff6 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -204,7 +204,7 @@ func setSlotBasedOnMapKeyLiteral(out *pb.WirePath, literal, typeName string) err
 		case "sint32":
 			out.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: int32(number)}
 		case "sfixed32":
-			out.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: int64(number)}
+			out.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: int32(number)}
 		default:
 			panic("bug")
 		}
-- 
2.43.0


From 99a98b487556216bd6057f2e313524f7fd742075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 018/100] fix: wirepath: print every element of paths of more
 than eleven

---
 wirepath/wirepath.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 4e10f07..e9e1b0c 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -185,15 +185,10 @@ func debugString(path *WirePath, evaluatedAgainstValue protoreflect.Value, forma
 		formatOpts = &pathFormatOptions{}
 	}
 	var strs []string
-	i := 0
 	for ; path != nil && path.proto != nil; path = path.child() {
 		elem, childValue := extractPrettyPathElem(path, evaluatedAgainstValue)
 		strs = append(strs, elem.string(formatOpts))
 		evaluatedAgainstValue = childValue
-		i++
-		if i > 10 {
-			break
-		}
 	}
 	return strings.Join(strs, "/")
 }
-- 
2.43.0


From 268f7ca6dc7e11d6f01ef70fd5c7562a9a4963b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 019/100] fix: wirepath: print bool map keys as the 0 and 1
 that ParseString accepts

---
 wirepath/wirepath.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index e9e1b0c..483741f 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -327,7 +327,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 			mapKey = protoreflect.ValueOf(slot.MapKeySfixed64).MapKey()
 
 		case *pb.WirePath_MapKeyBool:
-			out.formattedSlot = formattedSlotForMapKey(fmt.Sprintf("%v", slot.MapKeyBool), protoreflect.BoolKind)
+			out.formattedSlot = formattedSlotForMapKey(boolKeyLiteral(slot.MapKeyBool), protoreflect.BoolKind)
 			mapKey = protoreflect.ValueOf(slot.MapKeyBool).MapKey()
 
 		default:
@@ -357,6 +357,14 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 	return out, childValue
 }
 
+// boolKeyLiteral returns the literal ParseString accepts for a bool map key.
+func boolKeyLiteral(v bool) string {
+	if v {
+		return "1"
+	}
+	return "0"
+}
+
 func extractSlotMapKeyKind(proto *pb.WirePath) protoreflect.Kind {
 	var defaultKind protoreflect.Kind
 	switch proto.GetSlot().(type) {
-- 
2.43.0


From d91f337794bfe3521f668b523a2e9e706d30c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 020/100] fix: wirepath.ParseString: an unescaped quote ends a
 string key

---
 wirepath/wirepath_protostrings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index e17ef14..a8bf06d 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -29,7 +29,7 @@ const (
 		`\\[xX](` + hexDigit + hexDigit + `)|` + // hex
 		`\\0(` + octalDigit + octalDigit + octalDigit + `)|` + // octal
 		`\\([abfnrtv\\'"])` + "|" + // charEscape
-		`([^\0\n\\])` + // regular character
+		`([^\0\n\\"])` + // regular character
 		`)`
 	protobufStringLiteralDoubleQuoted = `(?:"` + protobufStringLiteralChar + `*")`
 )
-- 
2.43.0


From cc0872cebf09e92a9b5fa0a0c5bd20f04754c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 021/100] fix: wirepath: print string map keys with escapes
 that ParseString understands

---
 wirepath/wirepath.go              |  2 +-
 wirepath/wirepath_protostrings.go | 32 +++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 483741f..8c2d9b1 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -283,7 +283,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 			}
 
 		case *pb.WirePath_MapKeyString:
-			out.formattedSlot = strconv.Quote(slot.MapKeyString)
+			out.formattedSlot = quoteProtobufString(slot.MapKeyString)
 			mapKey = protoreflect.ValueOf(slot.MapKeyString).MapKey()
 
 		case *pb.WirePath_MapKeyInt32:
diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index a8bf06d..8d9f147 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -5,6 +5,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // const (
@@ -34,6 +35,37 @@ const (
 	protobufStringLiteralDoubleQuoted = `(?:"` + protobufStringLiteralChar + `*")`
 )
 
+// quoteProtobufString returns a double-quoted literal of s that
+// parseProtobufStringLiteral converts back to s.
+func quoteProtobufString(s string) string {
+	out := &strings.Builder{}
+	out.WriteByte('"')
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		char := s[:size]
+		s = s[size:]
+		switch {
+		case r == '"' || r == '\\':
+			out.WriteByte('\\')
+			out.WriteString(char)
+		case r == '\n':
+			out.WriteString(`\n`)
+		case r == '\r':
+			out.WriteString(`\r`)
+		case r == '\t':
+			out.WriteString(`\t`)
+		case strconv.IsPrint(r) && !(r == utf8.RuneError && size == 1):
+			out.WriteString(char)
+		default:
+			for i := 0; i < len(char); i++ {
+				fmt.Fprintf(out, `\x%02x`, char[i])
+			}
+		}
+	}
+	out.WriteByte('"')
+	return out.String()
+}
+
 var protobufStringElemRegexp = regexp.MustCompile("^" + protobufStringLiteralChar)
 
 // parseProtobufStringLiteral parses a string literal according to the protobuf spec:
-- 
2.43.0


From 30c70aac2ddc8c670a4a2422a07931b2866b563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 022/100] fix: wirepath: a path element that is unset implies
 SELF, as documented in the proto

---
 wirepath/wirepath.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 8c2d9b1..d812083 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -81,7 +81,7 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	}
 
 	var immediateValue protoreflect.Value
-	if p.proto.GetSpecialPath() == pb.WirePath_SELF {
+	if isSelf(p.proto) {
 		immediateValue = protoreflect.ValueOfMessage(within.ProtoReflect())
 	} else {
 		m := within.ProtoReflect()
@@ -137,6 +137,13 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	return getValue(newCtx)
 }
 
+// isSelf reports whether the first element of the path refers to the value
+// itself, which is implied when neither a field number nor a special path is
+// set.
+func isSelf(path *pb.WirePath) bool {
+	return path.GetElement() == nil || path.GetSpecialPath() == pb.WirePath_SELF
+}
+
 func slotMapKeyValue(p *WirePath) protoreflect.MapKey {
 	switch slot := p.proto.GetSlot().(type) {
 	case *pb.WirePath_MapKeyString:
@@ -232,7 +239,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 	out := &pathElemPretty{}
 	var immediateValue protoreflect.Value
 	var fieldDescriptor protoreflect.FieldDescriptor
-	if path == nil || path.proto == nil || path.proto.GetSpecialPath() == pb.WirePath_SELF {
+	if path == nil || path.proto == nil || isSelf(path.proto) {
 		out.self = true
 		immediateValue = value
 	} else {
-- 
2.43.0


From a387ad9b81469e1c7976954bcb66af8ec807fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 023/100] fix: wirepath.GetValue: return an error for a field
 the message lacks instead of panicking

---
 wirepath/wirepath.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index d812083..ce34ab8 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -87,6 +87,9 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 		m := within.ProtoReflect()
 
 		fieldDescriptor := m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		if fieldDescriptor == nil {
+			return protoreflect.Value{}, ctx.errorf("%s has no field %d", m.Descriptor().FullName(), p.proto.GetFieldNumber())
+		}
 		immediateValue = m.Get(fieldDescriptor)
 	}
 	if p.proto.GetSlot() != nil {
-- 
2.43.0


From 8414b6f2615f89d87ac1ed1ffb708bb2d2622825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 024/100] fix: wirepath: report a negative offset as out of
 range instead of panicking

---
 wirepath/wirepath.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index ce34ab8..37f0a36 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -98,7 +98,7 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if !ok {
 				return protoreflect.Value{}, ctx.errorf("path references element %d of a non-repeated field", slot)
 			}
-			if int(slot.RepeatedFieldOffset) >= list.Len() {
+			if slot.RepeatedFieldOffset < 0 || slot.RepeatedFieldOffset >= int64(list.Len()) {
 				return protoreflect.Value{}, ctx.errorf("%d is out of range (repeated field length = %d)", slot, list.Len())
 			}
 			immediateValue = list.Get(int(slot.RepeatedFieldOffset))
@@ -285,7 +285,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 
 			list, isList := immediateValue.Interface().(protoreflect.List)
 			if isList {
-				if int(slot.RepeatedFieldOffset) < list.Len() {
+				if slot.RepeatedFieldOffset >= 0 && slot.RepeatedFieldOffset < int64(list.Len()) {
 					childValue = list.Get(int(slot.RepeatedFieldOffset))
 				} else {
 					childValue = list.NewElement()
-- 
2.43.0


From cbcf7403e80625bde7c9551464d04fff8953e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 025/100] fix: wirepath.GetValue: return an error for a map key
 of another type instead of panicking

---
 wirepath/wirepath.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 37f0a36..f90ce73 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -81,12 +81,13 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	}
 
 	var immediateValue protoreflect.Value
+	var fieldDescriptor protoreflect.FieldDescriptor
 	if isSelf(p.proto) {
 		immediateValue = protoreflect.ValueOfMessage(within.ProtoReflect())
 	} else {
 		m := within.ProtoReflect()
 
-		fieldDescriptor := m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		fieldDescriptor = m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
 		if fieldDescriptor == nil {
 			return protoreflect.Value{}, ctx.errorf("%s has no field %d", m.Descriptor().FullName(), p.proto.GetFieldNumber())
 		}
@@ -112,6 +113,9 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if mapKey.IsValid() && !valueIsMap() {
 				return protoreflect.Value{}, ctx.errorf("tried to get value of map key %v of value that is not a Map", mapKey.Interface())
 			}
+			if got, want := fieldDescriptor.MapKey().Kind(), extractSlotMapKeyKind(p.proto); got != want {
+				return protoreflect.Value{}, ctx.errorf("map key %v is of kind %s, the keys of %s are of kind %s", mapKey.Interface(), want, fieldDescriptor.FullName(), got)
+			}
 			immediateValue = immediateValue.Map().Get(mapKey)
 
 		} else {
-- 
2.43.0


From 67cf8c069f4d944fb28674c44459a59872032987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 026/100] fix: wirepath: do not panic on printing a map key of
 the value itself

---
 wirepath/wirepath.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index f90ce73..519b746 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -355,9 +355,9 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 				out.error = fmt.Errorf("specified map key for non-map value")
 			} else {
 				if fieldDescriptor == nil {
-					panic("internal assumption is incorrect - field descriptor should be available")
-				}
-				if got, want := fieldDescriptor.MapKey().Kind(), mapKeyKind; got != want {
+					// A slot of the value itself: GetValue does not support it.
+					out.error = fmt.Errorf("specified map key without a field")
+				} else if got, want := fieldDescriptor.MapKey().Kind(), mapKeyKind; got != want {
 					out.error = fmt.Errorf("wirepath specifies map key %v of kind %s, %s key type is %s", mapKey.Interface(), want, fieldDescriptor.FullName(), got)
 				} else {
 					childValue = m.Get(mapKey)
-- 
2.43.0


From b70d2d6986f612fc8ec44a3554329f9329a88123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 027/100] fix: iri.Parse: check fragments past their first line
 break

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index fc08224..b7949fd 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -286,7 +286,7 @@ var (
 	}()
 
 	// re from RFC 3986 page 50.
-	uriRE                            = mustCompileNamed("uriRE", `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?`)
+	uriRE                            = mustCompileNamed("uriRE", `(?s)^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$`)
 	uriRESchemeGroup                 = 2
 	uriREAuthorityWithSlashSlahGroup = 3
 	uriREAuthorityGroup              = 4
-- 
2.43.0


From c5b9295f8a5b4c1c83ae664361b81fe130897543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 028/100] fix: iri.Parse: match queries with the grammar's
 iquery, not ipath

---
 rdf/iri/iri.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index b7949fd..f6ad659 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -209,11 +209,11 @@ const (
 	// non-zero-length segment without any colon ":"
 	isegmentnznc = `(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|` + `[@])`
 
-	iquery = `(?:(?:` + ipchar + `|` + iprivate + `|` + `\/\?` + `)*)`
+	iquery = `(?:(?:` + ipchar + `|` + iprivate + `|` + `[\/\?]` + `)*)`
 
 	ifragment = `(?:(?:` + ipchar + `|` + `[\/\?]` + `)*)`
 
-	iprivate = `[\x{E000}-\x{F8FF}` + `\x{F0000]-\x{FFFFD}` + `\x{100000}-\x{10FFFD}]`
+	iprivate = `[\x{E000}-\x{F8FF}` + `\x{F0000}-\x{FFFFD}` + `\x{100000}-\x{10FFFD}]`
 )
 
 // IP Address related
@@ -256,7 +256,7 @@ var (
 	iauthorityRE        = mustCompileNamed("iauthorityRE", "^"+iauthority+"$")
 	iauthorityCaptureRE = mustCompileNamed("iauthorityCaptureRE", "^"+iauthorityCapture+"$")
 	ipathRE             = mustCompileNamed("ipath", "^"+ipath+"$")
-	iqueryRE            = mustCompileNamed("iquery", "^"+ipath+"$")
+	iqueryRE            = mustCompileNamed("iquery", "^"+iquery+"$")
 	ifragmentRE         = mustCompileNamed("ifragment", "^"+ifragment+"$")
 
 	percentEncodedChar      = mustCompileNamed("percentEncodedChar", pctEncoded)
-- 
2.43.0


From 7b27fb2bf134c41d215a8fbf80d3931bbcc5c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 029/100] fix: iri.Parse: allow colons in the user information

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index f6ad659..01d207b 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -187,7 +187,7 @@ const (
 	iauthorityUserInfoGroup = 1
 	iauthorityHostGroup     = 2
 	iauthorityPortGroup     = 3
-	iuserinfo               = `(?:(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `)*)`
+	iuserinfo               = `(?:(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|\:)*)`
 	port                    = `(?:\d*)`
 	ihost                   = `(?:` + ipLiteral + `|` + ipV4Address + `|` + iregName + `)`
 	iregName                = "(?:(?:" + iunreserved + "|" + pctEncoded + "|" + subDelims + ")*)" // *( iunreserved / pctEncoded / subDelims )
-- 
2.43.0


From 8c401cab7ec05e696dcf3dff47a22d5fc93756ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 030/100] fix: iri.Parse: only dots separate the octets of an
 IPv4 address

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 01d207b..e196c80 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -238,7 +238,7 @@ const (
 
 	h16         = `(?:` + hex + hex + hex + hex + `)`
 	ls32        = `(?:` + h16 + `\:` + h16 + `|` + ipV4Address + `)`
-	ipV4Address = `(?:` + decOctet + `.` + decOctet + `.` + decOctet + `.` + decOctet + `)`
+	ipV4Address = `(?:` + decOctet + `\.` + decOctet + `\.` + decOctet + `\.` + decOctet + `)`
 
 	decOctet = (`(?:\d` + `|` + // 0-9
 		`[1-9]\d` + `|` + // 10-99
-- 
2.43.0


From 4abe29ef7513859285cee40fc66384112bf45f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 031/100] fix: iri.Parse: accept abbreviated IPv6 addresses

---
 rdf/iri/iri.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index e196c80..7b2fb3b 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -224,19 +224,18 @@ const (
 
 	// see https://stackoverflow.com/questions/3032593/using-explicitly-numbered-repetition-instead-of-question-mark-star-and-plus
 	ipV6Address = (`(?:` +
-		`(?:(?:` + h16 + `\:){6}` + ls32 + `)` + //          6( h16 `:` ) ls32
-		// TODO(reddaly): below lines
-		//  + `|` +                       `::` 5( h16 `:` ) ls32
-		//  + `|` + [               h16 ] `::` 4( h16 `:` ) ls32
-		//  + `|` + [ *1( h16 `:` ) h16 ] `::` 3( h16 `:` ) ls32
-		//  + `|` + [ *2( h16 `:` ) h16 ] `::` 2( h16 `:` ) ls32
-		//  + `|` + [ *3( h16 `:` ) h16 ] `::`    h16 `:`   ls32
-		//  + `|` + [ *4( h16 `:` ) h16 ] `::`              ls32
-		//  + `|` + [ *5( h16 `:` ) h16 ] `::`              h16
-		//  + `|` + [ *6( h16 `:` ) h16 ] `::`
+		`(?:` + h16 + `\:){6}` + ls32 + // 6( h16 `:` ) ls32
+		`|\:\:(?:` + h16 + `\:){5}` + ls32 + // `::` 5( h16 `:` ) ls32
+		`|(?:` + h16 + `)?\:\:(?:` + h16 + `\:){4}` + ls32 + // [ h16 ] `::` 4( h16 `:` ) ls32
+		`|(?:(?:` + h16 + `\:){0,1}` + h16 + `)?\:\:(?:` + h16 + `\:){3}` + ls32 + // [ *1( h16 `:` ) h16 ] `::` 3( h16 `:` ) ls32
+		`|(?:(?:` + h16 + `\:){0,2}` + h16 + `)?\:\:(?:` + h16 + `\:){2}` + ls32 + // [ *2( h16 `:` ) h16 ] `::` 2( h16 `:` ) ls32
+		`|(?:(?:` + h16 + `\:){0,3}` + h16 + `)?\:\:` + h16 + `\:` + ls32 + // [ *3( h16 `:` ) h16 ] `::` h16 `:` ls32
+		`|(?:(?:` + h16 + `\:){0,4}` + h16 + `)?\:\:` + ls32 + // [ *4( h16 `:` ) h16 ] `::` ls32
+		`|(?:(?:` + h16 + `\:){0,5}` + h16 + `)?\:\:` + h16 + // [ *5( h16 `:` ) h16 ] `::` h16
+		`|(?:(?:` + h16 + `\:){0,6}` + h16 + `)?\:\:` + // [ *6( h16 `:` ) h16 ] `::`
 		`)`)
 
-	h16         = `(?:` + hex + hex + hex + hex + `)`
+	h16         = `(?:` + hex + `{1,4})`
 	ls32        = `(?:` + h16 + `\:` + h16 + `|` + ipV4Address + `)`
 	ipV4Address = `(?:` + decOctet + `\.` + decOctet + `\.` + decOctet + `\.` + decOctet + `)`
 
-- 
2.43.0


From 2f4878b79e9ecd9fb46bcbe4c0bb5c298ec07f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 032/100] fix: iri.Parse: match IPvFuture addresses as the
 grammar has them

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 7b2fb3b..a357f56 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -220,7 +220,7 @@ const (
 const (
 	ipLiteral = `\[(?:` + ipV6Address + `|` + ipVFuture + `)\]`
 
-	ipVFuture = `v` + hex + `\.(?:` + unreserved + `|` + subDelims + `|\:)*`
+	ipVFuture = `[vV]` + hex + `+\.(?:` + unreserved + `|` + subDelims + `|\:)+`
 
 	// see https://stackoverflow.com/questions/3032593/using-explicitly-numbered-repetition-instead-of-question-mark-star-and-plus
 	ipV6Address = (`(?:` +
-- 
2.43.0


From 5f898e5638ee9ad45925b882f6e7825803a8f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 033/100] fix: iri.Parse: reject a colon in front of everything
 else

---
 rdf/iri/iri.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index a357f56..ccb1b99 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -38,6 +38,9 @@ func Parse(s string) (IRI, error) {
 	if path != "" && !ipathRE.MatchString(path) {
 		return "", fmt.Errorf("%q is not a valid IRI: invalid path %q does not match regexp %s", s, path, ipathRE)
 	}
+	if scheme == "" && match[uriREAuthorityWithSlashSlahGroup] == "" && !irelativepathRE.MatchString(path) {
+		return "", fmt.Errorf("%q is not a valid IRI: invalid path %q without a scheme does not match regexp %s", s, path, irelativepathRE)
+	}
 	if query != "" && !iqueryRE.MatchString(query) {
 		return "", fmt.Errorf("%q is not a valid IRI: invalid query %q does not match regexp %s", s, query, iqueryRE)
 	}
@@ -198,6 +201,9 @@ const (
 		`|` + ipathrootless + // begins with a segment
 		`|` + ipathempty + `)`) // zero characters
 
+	// irelativepath is a path without an authority and a scheme before it.
+	irelativepath = `(?:` + ipathabsolute + `|` + ipathnoscheme + `|` + ipathempty + `)`
+
 	ipathabempty  = `(?:(?:\/` + isegment + `)*)`
 	ipathabsolute = `(?:\/(?:` + isegmentnz + `(?:\/` + isegment + `)*` + `)?)`
 	ipathnoscheme = `(?:` + isegmentnznc + `(?:\/` + isegment + `)*)`
@@ -207,7 +213,7 @@ const (
 	isegment   = `(?:` + ipchar + `*)`
 	isegmentnz = `(?:` + ipchar + `+)`
 	// non-zero-length segment without any colon ":"
-	isegmentnznc = `(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|` + `[@])`
+	isegmentnznc = `(?:(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|` + `[@])+)`
 
 	iquery = `(?:(?:` + ipchar + `|` + iprivate + `|` + `[\/\?]` + `)*)`
 
@@ -255,6 +261,7 @@ var (
 	iauthorityRE        = mustCompileNamed("iauthorityRE", "^"+iauthority+"$")
 	iauthorityCaptureRE = mustCompileNamed("iauthorityCaptureRE", "^"+iauthorityCapture+"$")
 	ipathRE             = mustCompileNamed("ipath", "^"+ipath+"$")
+	irelativepathRE     = mustCompileNamed("irelativepath", "^"+irelativepath+"$")
 	iqueryRE            = mustCompileNamed("iquery", "^"+iquery+"$")
 	ifragmentRE         = mustCompileNamed("ifragment", "^"+ifragment+"$")
 
-- 
2.43.0


From 10283c6abb59c4a5c173149ac0cf09937b73cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 034/100] fix: iri: %EF%BF%BD is a valid escape

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index ccb1b99..3ce2cac 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -336,7 +336,7 @@ func (iri IRI) normalizePercentEncoding() (IRI, error) {
 		octetsOffset := 0
 		for len(unconsumedOctets) > 0 {
 			codePoint, size := utf8.DecodeRune(unconsumedOctets)
-			if codePoint == utf8.RuneError {
+			if codePoint == utf8.RuneError && size <= 1 {
 				errs = append(errs, fmt.Errorf("percent-encoded sequence %q  contains invalid UTF-8 code point at start of byte sequence %+v", pctEscaped[octetsOffset*3:], unconsumedOctets))
 				return pctEscaped
 			}
-- 
2.43.0


From 00f0916b067d5cdd4b29c3f9b6111e762a27b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 035/100] fix: iri: resolving keeps the port and the empty
 authority of the base

---
 rdf/iri/iri_resolve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index 3a0cfa2..d54fa2b 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -106,7 +106,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	if ref.Scheme() == "" {
 		url.scheme = base.Scheme()
 	}
-	if ref.Scheme() != "" || ref.Host() != "" || ref.User() != "" {
+	if ref.Scheme() != "" || ref.HasAuthority() {
 		// The "absoluteURI" or "net_path" cases.
 		// We can ignore the error from setPath since we know we provided a
 		// validly-escaped path.
@@ -130,7 +130,9 @@ func resolveReference(base, ref resolveRefArg) *parts {
 		}
 	}
 	// The "abs_path" or "rel_path" cases.
+	url.emptyAuth = base.HasAuthority() && base.Host() == "" && base.Port() == "" && base.User() == ""
 	url.host = base.Host()
+	url.port = base.Port()
 	url.userInfo = base.User()
 	url.path = resolvePath(base.Path(), ref.Path())
 	return url
-- 
2.43.0


From 9efa1e43b76d78d9f9c993279551eecd31124431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 036/100] fix: iri: resolving keeps the colon of an empty port

---
 rdf/iri/iri.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 3ce2cac..135098e 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -106,7 +106,7 @@ type parts struct {
 	emptyAuth     bool // true if the iri is something like `///path` but if iri is `//hostname/path`
 	userInfo      string
 	host          string
-	port          string
+	port          string // with the :
 	path          string
 	query         string // with the ?
 	emptyFragment bool
@@ -128,8 +128,8 @@ func (p *parts) toIRI() IRI {
 		s += p.host
 	}
 
-	if p.port != "" { // TODO(reddaly): Deal with blank
-		s += ":" + p.port
+	if p.port != "" {
+		s += p.port
 	}
 	if p.path != "" { // TODO(reddaly): Deal with blank
 		s += p.path
@@ -186,7 +186,7 @@ const (
 	scheme = "(?:" + alphaChars + "(?:" + alphaChars + "|" + digitChars + `|[\+\-\.])*)`
 
 	iauthority              = `(?:` + iuserinfo + "@)?" + ihost + `(?:\:` + port + `)?`
-	iauthorityCapture       = `(?:(` + iuserinfo + "@)?(" + ihost + `)(?:\:(` + port + `))?)`
+	iauthorityCapture       = `(?:(` + iuserinfo + "@)?(" + ihost + `)(\:` + port + `)?)`
 	iauthorityUserInfoGroup = 1
 	iauthorityHostGroup     = 2
 	iauthorityPortGroup     = 3
-- 
2.43.0


From 65be11a959c509719637b0722189d12e402c3d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 037/100] fix: iri: resolving does not put a slash in front of
 paths like that of urn:a:b

---
 rdf/iri/iri_resolve.go | 86 ++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index d54fa2b..a577433 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -110,7 +110,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 		// The "absoluteURI" or "net_path" cases.
 		// We can ignore the error from setPath since we know we provided a
 		// validly-escaped path.
-		url.path = resolvePath(ref.Path(), "")
+		url.path = removeDotSegments(ref.Path())
 		return url
 	}
 	// TODO(reddaly): Deal with opaque.
@@ -134,7 +134,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	url.host = base.Host()
 	url.port = base.Port()
 	url.userInfo = base.User()
-	url.path = resolvePath(base.Path(), ref.Path())
+	url.path = resolvePath(base.Path(), ref.Path(), base.HasAuthority())
 	return url
 }
 
@@ -147,63 +147,57 @@ func formattedQuery(q *string) string {
 
 // resolvePath applies special path segments from refs and applies
 // them to base, per RFC 3986.
-func resolvePath(base, ref string) string {
+func resolvePath(base, ref string, baseHasAuthority bool) string {
 	var full string
 	if ref == "" {
 		full = base
+	} else if ref[0] != '/' && base == "" && baseHasAuthority {
+		full = "/" + ref
 	} else if ref[0] != '/' {
 		i := strings.LastIndex(base, "/")
 		full = base[:i+1] + ref
 	} else {
 		full = ref
 	}
-	if full == "" {
-		return ""
-	}
+	return removeDotSegments(full)
+}
 
-	var (
-		last string
-		elem string
-		i    int
-		dst  strings.Builder
-	)
-	first := true
-	remaining := full
-	for i >= 0 {
-		i = strings.IndexByte(remaining, '/')
-		if i < 0 {
-			last, elem, remaining = remaining, remaining, ""
+// removeDotSegments is the procedure of RFC 3986 section 5.2.4.
+func removeDotSegments(in string) string {
+	out := ""
+	removeLast := func() {
+		if i := strings.LastIndexByte(out, '/'); i >= 0 {
+			out = out[:i]
 		} else {
-			elem, remaining = remaining[:i], remaining[i+1:]
+			out = ""
 		}
-		if elem == "." {
-			first = false
-			// drop
-			continue
-		}
-
-		if elem == ".." {
-			str := dst.String()
-			index := strings.LastIndexByte(str, '/')
-
-			dst.Reset()
-			if index == -1 {
-				first = true
-			} else {
-				dst.WriteString(str[:index])
-			}
-		} else {
-			if !first {
-				dst.WriteByte('/')
+	}
+	for in != "" {
+		switch {
+		case strings.HasPrefix(in, "../"):
+			in = in[3:]
+		case strings.HasPrefix(in, "./"):
+			in = in[2:]
+		case strings.HasPrefix(in, "/./"):
+			in = in[2:]
+		case in == "/.":
+			in = "/"
+		case strings.HasPrefix(in, "/../"):
+			in = in[3:]
+			removeLast()
+		case in == "/..":
+			in = "/"
+			removeLast()
+		case in == "." || in == "..":
+			in = ""
+		default:
+			i := strings.IndexByte(in[1:], '/') + 1
+			if i == 0 {
+				i = len(in)
 			}
-			dst.WriteString(elem)
-			first = false
+			out += in[:i]
+			in = in[i:]
 		}
 	}
-
-	if last == "." || last == ".." {
-		dst.WriteByte('/')
-	}
-
-	return "/" + strings.TrimPrefix(dst.String(), "/")
+	return out
 }
-- 
2.43.0


From 700c61a4acbbde1721689b00560dcf97d2908bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 038/100] fix: iri: a reference without a path keeps the base's
 path as it is

---
 rdf/iri/iri_resolve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index a577433..b849469 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -150,7 +150,7 @@ func formattedQuery(q *string) string {
 func resolvePath(base, ref string, baseHasAuthority bool) string {
 	var full string
 	if ref == "" {
-		full = base
+		return base
 	} else if ref[0] != '/' && base == "" && baseHasAuthority {
 		full = "/" + ref
 	} else if ref[0] != '/' {
-- 
2.43.0


From fb8f85302b67266944577988ba490b1422fb278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 039/100] fix: wirepath.ParseString: end string keys at the
 first unescaped quote, with the character regexp as it was

---
 wirepath/wirepath_protostrings.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index 8d9f147..bcf380b 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -30,9 +30,10 @@ const (
 		`\\[xX](` + hexDigit + hexDigit + `)|` + // hex
 		`\\0(` + octalDigit + octalDigit + octalDigit + `)|` + // octal
 		`\\([abfnrtv\\'"])` + "|" + // charEscape
-		`([^\0\n\\"])` + // regular character
+		`([^\0\n\\])` + // regular character
 		`)`
-	protobufStringLiteralDoubleQuoted = `(?:"` + protobufStringLiteralChar + `*")`
+	// The extent of a string literal, which ends with its first unescaped quote.
+	protobufStringLiteralDoubleQuoted = `(?:"(?:[^"\\]|\\.)*")`
 )
 
 // quoteProtobufString returns a double-quoted literal of s that
@@ -97,6 +98,9 @@ func parseProtobufStringLiteral(literal string) (string, error) {
 		unparsed = unparsed[len(groups[0]):]
 
 		if g := groups[regularCharGroup]; g != "" {
+			if g == `"` {
+				return "", fmt.Errorf("invalid string literal %s: unescaped quote", literal)
+			}
 			out.WriteString(g)
 			continue
 		}
-- 
2.43.0


From 7ca2931f234b67002c4b23e30bf3f4959725abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 040/100] fix: ntriples: LangString names rdf:langString,
 without a leading space

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 741f1d9..7742334 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -23,7 +23,7 @@ type IRI = iri.IRI
 const (
 	// LangString is the type of a literal string that has a language annotation.
 	// https://www.w3.org/TR/2014/REC-rdf11-concepts-20140225/#dfn-literal.
-	LangString IRI = " http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
+	LangString IRI = "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
 
 	// XMLSchemaString is the type of a literal string with no language
 	// annotation.
-- 
2.43.0


From 28c2c2d8d210f934ae9114a5e0173fb1226d28a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 041/100] fix: ntriples: language tags may have any number of
 subtags

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 7742334..5d26568 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -393,7 +393,7 @@ const (
 
 	stringLiteralQuote = `"((?:[^\x22\x5C\x{A}\x{D}]|` + echar + `|` + uchar + `)*)"`
 	iriref             = `<((?:[^\x00-\x20<>"{}|^` + "`" + `\\]|` + uchar + `)*)>`
-	langTag            = `@([a-zA-Z]+(?:\-[a-zA-Z0-9]+)?)`
+	langTag            = `@([a-zA-Z]+(?:\-[a-zA-Z0-9]+)*)`
 )
 
 var (
-- 
2.43.0


From d1a5a810940f9bd7156682e4db99a8e64c9d2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 042/100] fix: ntriples: a blank node label does not end with
 the full stop after it

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 5d26568..face7ac 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -400,7 +400,7 @@ var (
 	irirefRegexp = regexp.MustCompile("^" + iriref)
 
 	// 	BLANK_NODE_LABEL	::=	'_:' (PN_CHARS_U | [0-9]) ((PN_CHARS | '.')* PN_CHARS)?
-	blankNodeLabel = regexp.MustCompile(`^_\:[` + pnCharsU + `0-9][` + pnChars + `\.]*[` + pnChars + `]?`)
+	blankNodeLabel = regexp.MustCompile(`^_\:[` + pnCharsU + `0-9](?:[` + pnChars + `\.]*[` + pnChars + `])?`)
 	literalRegexp  = regexp.MustCompile(`^` + stringLiteralQuote + `(?:(?:\^\^` + iriref + `)|` + langTag + `)?`)
 )
 
-- 
2.43.0


From c6d254d81a896b450fe8b3db1f11577bc3c68522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 043/100] fix: ntriples: blank node labels may contain
 supplementary characters, not "#"

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index face7ac..10204b4 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -387,7 +387,7 @@ const (
 	hex         = `[0-9A-Fa-f]`
 	uchar       = `(?:\\u` + hex + hex + hex + hex + `|\\U` + hex + hex + hex + hex + hex + hex + hex + hex + `)`
 	echar       = `\\[\\tbnrf"']`
-	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{1000}0\#xEFFFF`
+	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}`
 	pnCharsU    = pnCharsBase + `_\:`
 	pnChars     = pnCharsU + `\-0-9\x{00B7}\x{0300}-\x{036F}\x{203F}-\x{2040}`
 
-- 
2.43.0


From 7477fd449071f27459c163a0454f8e1fa625e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 044/100] fix: ntriples: datatype IRIs are unescaped and
 normalized like any other IRI

---
 rdf/ntriples/ntriples.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 10204b4..66b42f9 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -447,12 +447,17 @@ func ParseLiteral(input string) (Literal, string, error) {
 	if err != nil {
 		return nil, "", err
 	}
-	if iri == "" && lang == "" {
-		return NewLiteral(lexicalForm, XMLSchemaString, ""), rest, nil
-	} else if lang != "" {
+	if lang != "" {
 		return NewLiteral(lexicalForm, LangString, lang), rest, nil
 	}
-	return NewLiteral(lexicalForm, IRI(iri), lang), rest, nil
+	if strings.HasSuffix(parts[0], `"`) {
+		return NewLiteral(lexicalForm, XMLSchemaString, ""), rest, nil
+	}
+	datatype, err := canonicalizeIRILiteral(iri)
+	if err != nil {
+		return nil, "", fmt.Errorf("failed to normalize datatype IRI string %q: %w", iri, err)
+	}
+	return NewLiteral(lexicalForm, IRI(datatype), ""), rest, nil
 }
 
 // Comment is a line comment in an N-Tuples file.
-- 
2.43.0


From e41d4ebd4795fafa9ff0ff2b409416d354b3687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 045/100] fix: ntriples: reject escapes that denote no
 character or one not allowed in IRIs

---
 rdf/ntriples/ntriples.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 66b42f9..1d406b4 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/google/xtoproto/rdf/iri"
 )
@@ -483,6 +484,19 @@ const (
 	stringLiteralUCharGroup       = 3
 )
 
+// parseUChar returns the code point denoted by an escape sequence that matches
+// the uchar regular expression.
+func parseUChar(uchar string) (rune, error) {
+	code, err := strconv.ParseUint(uchar[2:], 16, 32)
+	if err != nil {
+		return 0, fmt.Errorf("internal error: bad hex sequence %q: %w", uchar, err)
+	}
+	if code > utf8.MaxRune || !utf8.ValidRune(rune(code)) {
+		return 0, fmt.Errorf("escape sequence %s does not denote a unicode character", uchar)
+	}
+	return rune(code), nil
+}
+
 // parseStringLiteral parses the literal form a string into a Go string.
 func parseStringLiteral(in string) (string, error) {
 	builder := strings.Builder{}
@@ -501,11 +515,11 @@ func parseStringLiteral(in string) (string, error) {
 			continue
 		}
 		if c := charMatch[stringLiteralUCharGroup]; len(c) != 0 {
-			code, err := strconv.ParseInt(c[2:], 16, 64)
+			r, err := parseUChar(c)
 			if err != nil {
-				return "", fmt.Errorf("internal error: bad hex sequence %q: %w", c, err)
+				return "", err
 			}
-			builder.WriteRune(rune(code))
+			builder.WriteRune(r)
 		} else {
 			return "", fmt.Errorf("internal error with string %q - charmatch %+v", in, charMatch)
 		}
@@ -561,6 +575,9 @@ func canonicalStringLiteral(in string) (string, error) {
 	return quoted.String(), nil
 }
 
+// iriRegularChar matches a character that may occur unescaped in an IRIREF.
+var iriRegularChar = regexp.MustCompile(`^[^\x00-\x20<>"{}|^` + "`" + `\\]$`)
+
 var iriLiteralCharCapture = regexp.MustCompile(`(?:` +
 	// capture group 1 is a non-uchar character:
 	`([^\x00-\x20<>"{}|^` + "`" + `\\])` +
@@ -579,12 +596,14 @@ func canonicalizeIRILiteral(in string) (string, error) {
 		if c := charMatch[1]; len(c) != 0 {
 			canonical.WriteString(c)
 		} else if c := charMatch[2]; len(c) != 0 {
-			code, err := strconv.ParseInt(c[2:], 16, 64)
+			r, err := parseUChar(c)
 			if err != nil {
 				return "", err
 			}
-			// TODO(reddaly): Check if the character needs to be percent-encoded?
-			canonical.WriteRune(rune(code))
+			if !iriRegularChar.MatchString(string(r)) {
+				return "", fmt.Errorf("escape sequence %s denotes %q, which is not allowed in an IRI", c, r)
+			}
+			canonical.WriteRune(r)
 		} else {
 			return "", fmt.Errorf("internal error with string %q - charmatch[%d] = %s", in, i, mustJSONStr(charMatch))
 		}
-- 
2.43.0


From 94119f27c8cf2e9dfa08bb9c76b2207aa61ad742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 046/100] fix: ntriples: accept blank lines, leading spaces and
 comments after a triple

---
 rdf/ntriples/ntriples.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 1d406b4..744afd5 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -291,6 +291,7 @@ var termSep = regexp.MustCompile(`\s+`)
 
 // ParseLine returns either a triple, a comment, or a parsing error.
 func ParseLine(line string) (*Triple, *Comment, error) {
+	line = strings.TrimLeft(line, " \t")
 	if len(line) == 0 {
 		return nil, nil, fmt.Errorf("invalid zero-length line")
 	}
@@ -303,25 +304,31 @@ func ParseLine(line string) (*Triple, *Comment, error) {
 	}
 	pred, rest, err := parseIRIRef(strings.TrimLeft(rest, " \t"))
 	if err != nil {
-		return nil, nil, fmt.Errorf("failed to parse subject of line: %w", err)
+		return nil, nil, fmt.Errorf("failed to parse predicate of line: %w", err)
 	}
 	obj, rest, err := parseObject(strings.TrimLeft(rest, " \t"))
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to parse object of line: %w", err)
 	}
 	rest = strings.Trim(rest, " \t")
-	if rest != "." {
+	if !strings.HasPrefix(rest, ".") {
 		return nil, nil, fmt.Errorf("last term must be `.`, got %q", rest)
 	}
+	if rest = strings.TrimLeft(rest[1:], " \t"); rest != "" && rest[0] != '#' {
+		return nil, nil, fmt.Errorf("only a comment may follow the last term `.`, got %q", rest)
+	}
 
 	return NewTriple(sub, pred, obj), nil, nil
 }
 
 // ParseLines returns all of the triples parsed from the input lines. Comments
-// are excluded.
+// and blank lines are excluded.
 func ParseLines(lines []string) ([]*Triple, error) {
 	var triples []*Triple
 	for i, line := range lines {
+		if strings.Trim(line, " \t") == "" {
+			continue
+		}
 		t, _, err := ParseLine(line)
 		if err != nil {
 			return nil, fmt.Errorf("%d: %w", i+1, err)
-- 
2.43.0


From 7eb3ab806b65bda805dfeda52999461296092f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 047/100] fix: ntriples: reject text that is not valid UTF-8

---
 rdf/ntriples/ntriples.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 744afd5..da2d711 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -295,6 +295,9 @@ func ParseLine(line string) (*Triple, *Comment, error) {
 	if len(line) == 0 {
 		return nil, nil, fmt.Errorf("invalid zero-length line")
 	}
+	if !utf8.ValidString(line) {
+		return nil, nil, fmt.Errorf("invalid UTF-8 in line %q", line)
+	}
 	if line[0] == '#' {
 		return nil, &Comment{line[1:]}, nil
 	}
@@ -449,6 +452,9 @@ func ParseLiteral(input string) (Literal, string, error) {
 	if parts == nil {
 		return nil, "", fmt.Errorf("invalid literal: %s", input)
 	}
+	if !utf8.ValidString(parts[0]) {
+		return nil, "", fmt.Errorf("invalid UTF-8 in literal %q", parts[0])
+	}
 	rest := input[len(parts[0]):]
 	quotedLexicalForm, iri, lang := parts[1], parts[2], parts[3]
 	lexicalForm, err := parseStringLiteral(quotedLexicalForm)
-- 
2.43.0


From 9f304c8cf2887e6da3bc67348d035a4025eade82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 048/100] fix: ntriples: reject relative IRIs

---
 rdf/ntriples/ntriples.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index da2d711..4a56985 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -426,10 +426,23 @@ func parseIRIRef(input string) (IRI, string, error) {
 		return "", "", fmt.Errorf("failed to normalize IRI string %q: %w", unnormalized, err)
 	}
 	rest := input[match[1]:]
+	if err := checkAbsolute(normalized); err != nil {
+		return "", "", err
+	}
 	// TODO(reddaly): Canonicalize IRI (e.g., make unicode hex all one case).
 	return IRI(normalized), rest, nil
 }
 
+var schemeRegexp = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9+.\-]*:`)
+
+// checkAbsolute returns an error if the IRI has no scheme.
+func checkAbsolute(iri string) error {
+	if !schemeRegexp.MatchString(iri) {
+		return fmt.Errorf("IRI <%s> is relative; IRIs must be absolute", iri)
+	}
+	return nil
+}
+
 func parseBlankNode(input string) (BlankNodeID, string, error) {
 	match := blankNodeLabel.FindStringIndex(input)
 	if len(match) == 0 {
@@ -471,6 +484,9 @@ func ParseLiteral(input string) (Literal, string, error) {
 	if err != nil {
 		return nil, "", fmt.Errorf("failed to normalize datatype IRI string %q: %w", iri, err)
 	}
+	if err := checkAbsolute(datatype); err != nil {
+		return nil, "", err
+	}
 	return NewLiteral(lexicalForm, IRI(datatype), ""), rest, nil
 }
 
-- 
2.43.0


From 4adfc0f2efd5aff2db44f11e2a0782cff066e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 049/100] fix: ntriples: a literal made without a datatype gets
 the one RDF prescribes

---
 rdf/ntriples/ntriples.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 4a56985..6dbf2ab 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -194,7 +194,15 @@ type Literal interface {
 }
 
 // NewLiteral returns a new object that fulfills the Literal interface.
+//
+// If the datatype is empty, it is LangString if there is a language tag and
+// XMLSchemaString otherwise.
 func NewLiteral(lexicalForm string, datatype IRI, langTag string) Literal {
+	if datatype == "" && langTag != "" {
+		datatype = LangString
+	} else if datatype == "" {
+		datatype = XMLSchemaString
+	}
 	return &genericLiteral{lexicalForm, datatype, langTag}
 }
 
-- 
2.43.0


From 98ff374043977cdcbfc019c5236cefd2f8f5bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 050/100] fix: recordinfer: InferredProto.Code writes import
 statements, each import once

---
 recordinfer/recordinfer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index 97a8057..1869a30 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -42,12 +42,19 @@ type InferredProto struct {
 
 // Code returns the source for a .proto file.
 func (ip *InferredProto) Code() string {
-	var imports []string
+	importSet := make(map[string]bool)
 	body := ""
 	for _, col := range ip.columns {
 		body += fmt.Sprintf("%s\n", col.protoFieldCode())
-		imports = append(imports, col.columnType.protoImports()...)
+		for _, path := range col.columnType.protoImports() {
+			importSet[path] = true
+		}
+	}
+	var imports []string
+	for path := range importSet {
+		imports = append(imports, fmt.Sprintf("import %q;", path))
 	}
+	sort.Strings(imports)
 
 	return fmt.Sprintf(`syntax = "proto3";
 
-- 
2.43.0


From 76373db7a473b62a7567083c5235c7bf6b4663ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 051/100] fix: recordinfer: inferred field names are valid and
 distinct

---
 recordinfer/recordinfer.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index 1869a30..3922d47 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -147,6 +147,7 @@ func (b *RecordBasedInferrer) Build() (*InferredProto, error) {
 		goOpts:      gOpts,
 	}
 
+	usedNames := make(map[string]bool)
 	for i := 0; i < numCols; i++ {
 		cv := &columnValues{i, b.rows}
 		comment := cv.statisticalComment()
@@ -156,7 +157,7 @@ func (b *RecordBasedInferrer) Build() (*InferredProto, error) {
 		}
 		result.columns = append(result.columns, &inferredColumn{
 			csvColumnName: cv.columnName(),
-			fieldName:     columnNameToFieldName(cv.columnName()),
+			fieldName:     uniqueFieldName(columnNameToFieldName(cv.columnName()), usedNames),
 			columnType:    colType,
 			tag:           i + 1,
 			comment:       comment,
@@ -317,3 +318,24 @@ func columnNameToFieldName(colName string) string {
 	s = strings.TrimSuffix(s, "_")
 	return strcase.SnakeCase(s)
 }
+
+// uniqueFieldName returns a valid proto field name based on the argument, which
+// may be empty or start with a digit, and records it as used. protoc rejects
+// names that differ only in case and underscores, so these are distinguished by
+// a numeric suffix.
+func uniqueFieldName(base string, used map[string]bool) string {
+	if base == "" {
+		base = "column"
+	} else if base[0] >= '0' && base[0] <= '9' {
+		base = "column_" + base
+	}
+	jsonKey := func(name string) string {
+		return strings.ToLower(strings.ReplaceAll(name, "_", ""))
+	}
+	name := base
+	for n := 2; used[jsonKey(name)]; n++ {
+		name = fmt.Sprintf("%s_%d", base, n)
+	}
+	used[jsonKey(name)] = true
+	return name
+}
-- 
2.43.0


From 322110b83929bb57747b94dd9f6368f7a6473e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 052/100] fix: recordinfer: do not infer Timestamp for times
 that none can hold

---
 recordinfer/recordinfer_timestamps.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/recordinfer/recordinfer_timestamps.go b/recordinfer/recordinfer_timestamps.go
index 84c7ee6..6f8cdcb 100644
--- a/recordinfer/recordinfer_timestamps.go
+++ b/recordinfer/recordinfer_timestamps.go
@@ -77,19 +77,28 @@ func (t *timeColumnType) updateMapping(mapping *pb.ColumnToFieldMapping) {
 
 func (t *timeColumnType) asInferrerFunc() func(string) (columnType, error) {
 	return func(value string) (columnType, error) {
+		var parsed time.Time
 		var parseErr error
 		if t.loc == nil {
-			_, parseErr = time.Parse(t.layout, value)
+			parsed, parseErr = time.Parse(t.layout, value)
 		} else {
-			_, parseErr = time.ParseInLocation(t.layout, value, t.loc)
+			parsed, parseErr = time.ParseInLocation(t.layout, value, t.loc)
 		}
-		if parseErr == nil {
+		if parseErr == nil && representableAsTimestamp(parsed) {
 			return t, nil
 		}
 		return nil, nil
 	}
 }
 
+// representableAsTimestamp reports whether a google.protobuf.Timestamp may hold
+// the time, i.e. if it is within the years 1 through 9999. Times parsed with a
+// layout without a year are not.
+func representableAsTimestamp(t time.Time) bool {
+	t = t.UTC()
+	return t.Year() >= 1 && t.Year() <= 9999
+}
+
 func timeFormatInferrers(loc *time.Location) []func(string) (columnType, error) {
 	var out []func(string) (columnType, error)
 	for _, ct := range candidateTimeColumnTypes(loc) {
-- 
2.43.0


From 6416936f9b5ef5936adc3752952a9852db807ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 053/100] fix: csvtoproto: leave the package statement out if
 there is no package

---
 csvtoproto/csvtoproto.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/csvtoproto/csvtoproto.go b/csvtoproto/csvtoproto.go
index fc302d4..870a265 100644
--- a/csvtoproto/csvtoproto.go
+++ b/csvtoproto/csvtoproto.go
@@ -78,16 +78,18 @@ func (cg *codeGenerator) protoCode() string {
 		fieldCodeSections = append(fieldCodeSections, section)
 	}
 
+	packageStatement := ""
+	if cg.mapping.PackageName != "" {
+		packageStatement = fmt.Sprintf("package %s;\n\n", cg.mapping.PackageName)
+	}
 	return fmt.Sprintf(`syntax = "proto3";
 
-package %s;
-
-%s
+%s%s
 
 message %s {
 %s
 }
-`, cg.mapping.PackageName, importStatements(imports), cg.mapping.MessageName, strings.Join(fieldCodeSections, "\n\n"))
+`, packageStatement, importStatements(imports), cg.mapping.MessageName, strings.Join(fieldCodeSections, "\n\n"))
 }
 
 const protoWrapColumn = 80
-- 
2.43.0


From 185b0e296cd5177ac12f8b35f6d6bddbb9b2882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 054/100] fix: csvtoproto: a NUL character in a comment does
 not end the .proto file

---
 csvtoproto/csvtoproto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csvtoproto/csvtoproto.go b/csvtoproto/csvtoproto.go
index 870a265..72528e8 100644
--- a/csvtoproto/csvtoproto.go
+++ b/csvtoproto/csvtoproto.go
@@ -106,6 +106,8 @@ func formatProtoComment(comment string, indent int) string {
 	out := ""
 	linePrefix := strings.Repeat(" ", indent) + "// "
 	maxContentLineLength := uint(protoWrapColumn - len(linePrefix))
+	// protoc takes a NUL character for the end of the file.
+	comment = strings.ReplaceAll(comment, "\x00", "\uFFFD")
 	comment = wordwrap.WrapString(comment, maxContentLineLength)
 
 	for _, line := range strings.Split(comment, "\n") {
-- 
2.43.0


From a04a7adc68862373c1c5aa4bbe2c747be3e0ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 055/100] fix: csvtoproto: code generated for Duration columns
 compiles and uses their unit

---
 csvtoproto/csvtoproto_go_codegen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 5d806fa..b69fb0c 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -301,7 +301,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Duration")
 		code, err := templateExecString(durationTypeTemplate, map[string]string{
 			"T":    typeName,
-			"unit": c2f.GetTimeFormat().GetGoLayout(),
+			"unit": c2f.GetDurationFormat().GetGoUnitSuffix(),
 		})
 		if err != nil {
 			return nil, err
@@ -351,16 +351,16 @@ func (d {{.T}}) duration() time.Duration {
 
 func init() {
 	textcoder.Register(
-		reflect.TypeOf({{.T}}{}),
+		reflect.TypeOf({{.T}}(0)),
 		func(d {{.T}}) (string, error) {
-			return d.Duration().String(), nil
+			return d.duration().String(), nil
 		},
 		func(s string, dst *{{.T}}) error {
-			d, err := csvtoprotoparse.ParseDuration(s, unit)
+			d, err := csvtoprotoparse.ParseDuration(s, {{.unit | printf "%q"}})
 			if err != nil {
 				return fmt.Errorf("error parsing {{.T}}: %w", err)
 			}
-			*dst = {{.T}}(d)
+			*dst = {{.T}}(d.AsDuration())
 			return nil
 		},
 
-- 
2.43.0


From f0d303325e344ba03628b07b5f09c7fe1575930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 056/100] fix: csvtoproto: column names may contain backquotes

---
 csvtoproto/csvtoproto_go_codegen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index b69fb0c..530bffb 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -217,7 +217,9 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 		if fieldType.topLevelCode != "" {
 			topLevelLines = append(topLevelLines, fieldType.topLevelCode)
 		}
-		fieldLines = append(fieldLines, fmt.Sprintf("%s %s `csv:%q`", fieldName, fieldType.typeName, c2f.GetColName()))
+		// The tag is a raw string literal, which cannot contain a backquote.
+		quotedColName := strings.ReplaceAll(fmt.Sprintf("%q", c2f.GetColName()), "`", `\x60`)
+		fieldLines = append(fieldLines, fmt.Sprintf("%s %s `csv:%s`", fieldName, fieldType.typeName, quotedColName))
 
 		expr, err := getGoToProtoFieldExpression(
 			fmt.Sprintf("r.%s", fieldName),
-- 
2.43.0


From 76a046e3748c755fe6466b8f93af9a8038d6ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 057/100] fix: csvtoproto: generated code for a message called
 New compiles

---
 csvtoproto/csvtoproto_go_codegen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 530bffb..ff56dfb 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -53,7 +53,7 @@ var (
 
 {{.record_struct_definition}}
 
-func newRecord() *{{.struct_name}} { return &{{.struct_name}}{} }
+func newRowStruct() *{{.struct_name}} { return &{{.struct_name}}{} }
 
 
 var parseRowReaderHooks []func(reader *Reader, parsedMsg *{{.message_type}}, parseErrors []error) error
@@ -81,7 +81,7 @@ type Reader struct {
 func NewReader(r io.Reader, options... csvtoprotoparse.ReaderOption) (*Reader, error) {
 	reader := csv.NewReader(r)
 
-	fileParser, err := csvcoder.NewFileParser(reader, "input.csv", newRecord())
+	fileParser, err := csvcoder.NewFileParser(reader, "input.csv", newRowStruct())
 	if err != nil {
 		return nil, err
 	}
@@ -262,7 +262,7 @@ func (r *{{.struct_name}}) Proto() (*{{.message_type}}, error) {
 {{.field_type_declarations}}
 
 func init() {
-	csvcoder.RegisterRowStruct(reflect.TypeOf(newRecord()))
+	csvcoder.RegisterRowStruct(reflect.TypeOf(newRowStruct()))
 }
 
 `))
-- 
2.43.0


From ebe9c07b91880e7969a0259c539706cfecc07932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 058/100] fix: csvtoproto: generated code names fields and
 messages as protoc-gen-go does

---
 csvtoproto/csvtoproto_go_codegen.go | 92 +++++++++++++++++++++++++----
 1 file changed, 81 insertions(+), 11 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index ff56dfb..1dd091e 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -21,8 +21,6 @@ import (
 	"text/template"
 
 	pb "github.com/google/xtoproto/proto/recordtoproto"
-
-	"github.com/stoewer/go-strcase"
 )
 
 var goFileTemplate = template.Must(template.New("classdef").Parse(
@@ -142,7 +140,7 @@ func NewMessageReader(r io.Reader, options... csvtoprotoparse.ReaderOption) (pro
 `))
 
 func (cg *codeGenerator) recordStructTypeName() string {
-	return strcase.LowerCamelCase(cg.mapping.MessageName) + "Record"
+	return lowerFirst(goCamelCase(cg.mapping.MessageName)) + "Record"
 }
 
 func (cg *codeGenerator) goCode() (string, error) {
@@ -184,7 +182,7 @@ func (cg *codeGenerator) sharedTemplateParams() (map[string]string, error) {
 	return map[string]string{
 		"package":      cg.mapping.GoOptions.GoPackageName,
 		"proto_import": cg.mapping.GoOptions.ProtoImport,
-		"message_type": fmt.Sprintf("pb.%s", cg.mapping.MessageName),
+		"message_type": fmt.Sprintf("pb.%s", goCamelCase(cg.mapping.MessageName)),
 		"struct_name":  cg.recordStructTypeName(),
 	}, nil
 }
@@ -204,13 +202,18 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	fieldLines := []string{""}
 	var toProtoInitStatements, protoFieldLiterals []string
 
+	messageFieldNames := newGoNamer(protocGenGoReservedNames...)
+	// The row struct has a Proto method.
+	structFieldNames := newGoNamer("Proto")
+
 	for i, c2f := range cg.mapping.ColumnToFieldMappings {
 		if c2f.Ignored {
 			continue
 		}
 
-		fieldName := strcase.UpperCamelCase(c2f.ProtoName)
-		fieldType, err := getFieldTypeCode(c2f)
+		messageFieldName := messageFieldNames.unique(goCamelCase(c2f.ProtoName))
+		fieldName := structFieldNames.unique(messageFieldName)
+		fieldType, err := getFieldTypeCode(c2f, fieldName)
 		if err != nil {
 			return nil, fmt.Errorf("failed to generate code for mapping[%d] = %v: %w", i, c2f, err)
 		}
@@ -223,7 +226,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 
 		expr, err := getGoToProtoFieldExpression(
 			fmt.Sprintf("r.%s", fieldName),
-			strcase.LowerCamelCase("parsed_"+c2f.GetProtoName()),
+			"parsed"+fieldName,
 			c2f.GetProtoType())
 		if err != nil {
 			return nil, fmt.Errorf("failed to handle proto field %q", c2f.GetProtoName())
@@ -232,7 +235,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 			toProtoInitStatements = append(toProtoInitStatements, expr.parseStatements)
 		}
 
-		protoFieldLiterals = append(protoFieldLiterals, fmt.Sprintf("%s: %s,", strcase.UpperCamelCase(c2f.ProtoName), expr.valueExpr))
+		protoFieldLiterals = append(protoFieldLiterals, fmt.Sprintf("%s: %s,", messageFieldName, expr.valueExpr))
 	}
 
 	structDef := fmt.Sprintf("type %s struct{%s\n}", structName, strings.Join(fieldLines, "\n  "))
@@ -267,12 +270,79 @@ func init() {
 
 `))
 
+// goCamelCase returns the name protoc-gen-go gives the Go identifier for a
+// message or field with the given name.
+func goCamelCase(name string) string {
+	isLower := func(c byte) bool { return 'a' <= c && c <= 'z' }
+	isDigit := func(c byte) bool { return '0' <= c && c <= '9' }
+	var b []byte
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		switch {
+		case c == '_' && i == 0:
+			b = append(b, 'X')
+		case c == '_' && i+1 < len(name) && isLower(name[i+1]):
+			// The underscore is dropped and the next letter capitalized.
+		case isDigit(c):
+			b = append(b, c)
+		default:
+			if isLower(c) {
+				c -= 'a' - 'A'
+			}
+			b = append(b, c)
+			for ; i+1 < len(name) && isLower(name[i+1]); i++ {
+				b = append(b, name[i+1])
+			}
+		}
+	}
+	return string(b)
+}
+
+func lowerFirst(s string) string {
+	if s == "" {
+		return s
+	}
+	return strings.ToLower(s[:1]) + s[1:]
+}
+
+// protocGenGoReservedNames are the names that protoc-gen-go does not use for a
+// field because the message type has a method with that name.
+var protocGenGoReservedNames = []string{
+	"Reset", "String", "ProtoMessage", "Marshal", "Unmarshal", "ExtensionRangeArray", "ExtensionMap", "Descriptor",
+}
+
+// goNamer assigns the same names to struct fields that protoc-gen-go does.
+type goNamer struct {
+	used map[string]bool
+}
+
+func newGoNamer(reserved ...string) *goNamer {
+	n := &goNamer{make(map[string]bool)}
+	for _, name := range reserved {
+		n.used[name] = true
+	}
+	return n
+}
+
+// unique returns the name with underscores appended until neither the field
+// name nor its getter's name is taken.
+func (n *goNamer) unique(name string) string {
+	for n.used[name] || n.used["Get"+name] {
+		name += "_"
+	}
+	n.used[name] = true
+	n.used["Get"+name] = true
+	return name
+}
+
 type fieldTypeCode struct {
 	// Go code to be inserted at the top level of the file.
 	topLevelCode, typeName string
 }
 
-func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
+// getFieldTypeCode returns the type of the row struct's field with the given
+// name.
+func getFieldTypeCode(c2f *pb.ColumnToFieldMapping, fieldName string) (*fieldTypeCode, error) {
 	switch protoType := c2f.GetProtoType(); protoType {
 	case "int32":
 		return &fieldTypeCode{"", "int32"}, nil
@@ -285,7 +355,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 	case "string":
 		return &fieldTypeCode{"", "string"}, nil
 	case "google.protobuf.Timestamp":
-		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Time")
+		typeName := lowerFirst(fieldName) + "Time"
 		tz := c2f.GetTimeFormat().GetTimeZoneName()
 		if tz == "" {
 			tz = "UTC"
@@ -300,7 +370,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 		}
 		return &fieldTypeCode{code, typeName}, nil
 	case "google.protobuf.Duration":
-		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Duration")
+		typeName := lowerFirst(fieldName) + "Duration"
 		code, err := templateExecString(durationTypeTemplate, map[string]string{
 			"T":    typeName,
 			"unit": c2f.GetDurationFormat().GetGoUnitSuffix(),
-- 
2.43.0


From 88599bf45dd8aabcc07fd6e4e06cef6e980681a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 059/100] fix: service: report wrapped file errors according to
 their cause

---
 service/service_infer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/service/service_infer.go b/service/service_infer.go
index 197f2d0..f8969aa 100644
--- a/service/service_infer.go
+++ b/service/service_infer.go
@@ -16,6 +16,7 @@ package service
 
 import (
 	"context"
+	"errors"
 	"os"
 	"time"
 
@@ -77,10 +78,10 @@ func (s *service) Infer(ctx context.Context, req *spb.InferRequest) (*spb.InferR
 }
 
 func fileErrToStatusErr(path string, err error) error {
-	if os.IsNotExist(err) {
+	if errors.Is(err, os.ErrNotExist) {
 		return grpc.Errorf(codes.NotFound, "specified file %q does not exist: %v", path, err)
 	}
-	if os.IsPermission(err) {
+	if errors.Is(err, os.ErrPermission) {
 		return grpc.Errorf(codes.PermissionDenied, "permission defnied accessing file %q: %v", path, err)
 	}
 	return grpc.Errorf(codes.Unknown, "error reading or writing file %q: %v", path, err)
-- 
2.43.0


From a257d170c2365d66631258d876db0ef137dc8b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 060/100] fix: service: check every output path before writing
 any file

---
 service/service_generate_code.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/service/service_generate_code.go b/service/service_generate_code.go
index 15c4f00..a237a76 100644
--- a/service/service_generate_code.go
+++ b/service/service_generate_code.go
@@ -47,33 +47,40 @@ func (s *service) GenerateCode(ctx context.Context, req *spb.GenerateCodeRequest
 		return nil, grpc.Errorf(codes.InvalidArgument, "failed to generate code: %v", err)
 	}
 
-	var outputProtoFile *spb.GenerateCodeResponse_File
+	// Check all of the output paths before writing any file.
+	var protoCodePath, protoCodePathWSRelative, goCodePath, goCodePathWSRelative string
 	if genProto {
-		codePath, codePathWSRelative, err := s.protoPath(req)
+		protoCodePath, protoCodePathWSRelative, err = s.protoPath(req)
 		if err != nil {
 			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .proto file: %v", err)
 		}
+	}
+	if genGo {
+		goCodePath, goCodePathWSRelative, err = s.converterGoPath(req)
+		if err != nil {
+			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .go file: %v", err)
+		}
+	}
+
+	var outputProtoFile *spb.GenerateCodeResponse_File
+	if genProto {
 		// TODO(reddaly): Consider configurable overwrite behavior.
-		if err := s.writeFile(ctx, codePath, []byte(protoCode)); err != nil {
-			return nil, fileErrToStatusErr(codePath, err)
+		if err := s.writeFile(ctx, protoCodePath, []byte(protoCode)); err != nil {
+			return nil, fileErrToStatusErr(protoCodePath, err)
 		}
 		outputProtoFile = &spb.GenerateCodeResponse_File{
-			WorkspaceRelativePath: codePathWSRelative,
+			WorkspaceRelativePath: protoCodePathWSRelative,
 			NewContents:           []byte(protoCode),
 		}
 	}
 	var outputGoFile *spb.GenerateCodeResponse_File
 	if genGo {
-		codePath, codePathWSRelative, err := s.converterGoPath(req)
-		if err != nil {
-			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .go file: %v", err)
-		}
 		// TODO(reddaly): Consider configurable overwrite behavior.
-		if err := s.writeFile(ctx, codePath, []byte(goCode)); err != nil {
-			return nil, fileErrToStatusErr(codePath, err)
+		if err := s.writeFile(ctx, goCodePath, []byte(goCode)); err != nil {
+			return nil, fileErrToStatusErr(goCodePath, err)
 		}
 		outputGoFile = &spb.GenerateCodeResponse_File{
-			WorkspaceRelativePath: codePathWSRelative,
+			WorkspaceRelativePath: goCodePathWSRelative,
 			NewContents:           []byte(goCode),
 		}
 	}
-- 
2.43.0


From 22461e3e9538eb1010e9492d2bb509849b036dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 061/100] fix: recordinfer Code() has no package statement when
 there is no package name

---
 recordinfer/recordinfer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index 3922d47..a0fbb28 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -56,15 +56,18 @@ func (ip *InferredProto) Code() string {
 	}
 	sort.Strings(imports)
 
-	return fmt.Sprintf(`syntax = "proto3";
+	packageStatement := ""
+	if ip.packageName != "" {
+		packageStatement = fmt.Sprintf("package %s;\n\n", ip.packageName)
+	}
 
-package %s;
+	return fmt.Sprintf(`syntax = "proto3";
 
-%s
+%s%s
 
 message %s {
 %s
-}`, ip.packageName, strings.Join(imports, "\n"), ip.messageName, body)
+}`, packageStatement, strings.Join(imports, "\n"), ip.messageName, body)
 }
 
 // Mapping returns a protobuf representation of the inferred mapping between Record and proto.
-- 
2.43.0


From cc50e17637db3fc83fc32dec3e596d29b9e43c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 062/100] fix: GenerateCode refuses to write both outputs to
 one file

---
 service/service_generate_code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/service/service_generate_code.go b/service/service_generate_code.go
index a237a76..52d7db7 100644
--- a/service/service_generate_code.go
+++ b/service/service_generate_code.go
@@ -61,6 +61,9 @@ func (s *service) GenerateCode(ctx context.Context, req *spb.GenerateCodeRequest
 			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .go file: %v", err)
 		}
 	}
+	if genProto && genGo && protoCodePath == goCodePath {
+		return nil, grpc.Errorf(codes.InvalidArgument, "the .proto file and the .go file would both be written to %q", protoCodePath)
+	}
 
 	var outputProtoFile *spb.GenerateCodeResponse_File
 	if genProto {
-- 
2.43.0


From 131f0ce308c275f905857d5f9b1dc24d385efa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 063/100] fix: xmlinfer lists equally frequent examples in a
 fixed order

---
 xmlinfer/xmlinfer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index d6876e7..16f39c7 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -190,7 +190,10 @@ func topNExamplesComment(m map[string]int) string {
 		total += count
 	}
 	sort.Slice(strs, func(i int, j int) bool {
-		return m[strs[i]] > m[strs[j]]
+		if m[strs[i]] != m[strs[j]] {
+			return m[strs[i]] > m[strs[j]]
+		}
+		return strs[i] < strs[j]
 	})
 
 	if len(strs) > 5 {
-- 
2.43.0


From b2dcc4e959ee8527b996e5bf3285c257f970d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 064/100] fix: xmlinfer gives the fields and messages legal and
 distinct names

---
 xmlinfer/xmlinfer.go | 51 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index 16f39c7..c308c26 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -109,8 +109,9 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		LeadingComment: fmt.Sprintf(" %d attrFields, %d elemFields: %s, based on %d examples",
 			len(sc.attrFields), len(sc.elemFields), strings.Join(elemFieldNames, ", "), sc.occurenceCount),
 	})
+	names := make(fieldNamer)
 	for _, attr := range sc.attrFields {
-		attrField, err := attr.fieldBuilder()
+		attrField, err := attr.fieldBuilder(names.fieldName(attr.name))
 		if err != nil {
 			return nil, err
 		}
@@ -120,7 +121,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 	all := []*builder.MessageBuilder{b}
 
 	for _, ef := range sc.elemFields {
-		fieldDesc, mainChildElemMsg, otherChildElemMsgs, err := ef.fieldBuilder()
+		fieldDesc, mainChildElemMsg, otherChildElemMsgs, err := ef.fieldBuilder(names.fieldName(ef.sc.name))
 		if err != nil {
 			return nil, err
 		}
@@ -164,8 +165,7 @@ func (ac *attrFieldCandidate) recordExampleValue(s string) {
 	ac.sampleValueCounts[s]++
 }
 
-func (ac *attrFieldCandidate) fieldBuilder() (*builder.FieldBuilder, error) {
-	fieldName := xmlToFieldName(ac.name)
+func (ac *attrFieldCandidate) fieldBuilder(fieldName string) (*builder.FieldBuilder, error) {
 	ft, err := inferFieldTypeFromExampleStrings(ac.sampleValueCounts)
 	if err != nil {
 		return nil, fmt.Errorf("failed to infer type for attribute %q: %w", fieldName, err)
@@ -222,11 +222,10 @@ func (ef *elementFieldCandidate) recordCardinality(c int) {
 	ef.cardinalityCounts[c]++
 }
 
-func (ef *elementFieldCandidate) fieldBuilder() (*builder.FieldBuilder, *builder.MessageBuilder, []*builder.MessageBuilder, error) {
+func (ef *elementFieldCandidate) fieldBuilder(fieldName string) (*builder.FieldBuilder, *builder.MessageBuilder, []*builder.MessageBuilder, error) {
 	var b *builder.FieldBuilder
 	var mainChild *builder.MessageBuilder
 	var otherChildren []*builder.MessageBuilder
-	fieldName := xmlToFieldName(ef.sc.name)
 	if ef.sc.hasNoAttributesOrChildElements() {
 		ft, err := inferFieldTypeFromExampleStrings(ef.sc.chardataField.sampleValueCounts)
 		if err != nil {
@@ -404,9 +403,45 @@ func (s *state) consumeElementTokens(startTok xml.StartElement, sc *structCandid
 }
 
 func xmlToMessageName(xn xml.Name) string {
-	return strcase.UpperCamelCase(xn.Local)
+	return toProtoIdent(strcase.UpperCamelCase(xn.Local), "Message_")
 }
 
 func xmlToFieldName(xn xml.Name) string {
-	return strcase.LowerCamelCase(xn.Local)
+	name := toProtoIdent(strcase.LowerCamelCase(xn.Local), "field_")
+	return strings.ToLower(name[:1]) + name[1:]
+}
+
+// toProtoIdent returns a protocol buffer identifier for a name. XML permits
+// characters within names that protocol buffers do not.
+func toProtoIdent(name, prefix string) string {
+	name = strings.Map(func(r rune) rune {
+		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
+			return r
+		}
+		return '_'
+	}, name)
+	if name == "" || name[0] == '_' || name[0] >= '0' && name[0] <= '9' {
+		name = prefix + name
+	}
+	return name
+}
+
+// fieldNamer gives out the field names of a message. Attributes and child
+// elements may share a name, and distinct XML names may give the same name or
+// names with the same JSON name, which protocol buffers do not permit within
+// one message.
+type fieldNamer map[string]bool
+
+func (fn fieldNamer) fieldName(xn xml.Name) string {
+	base := xmlToFieldName(xn)
+	name := base
+	for i := 2; fn[jsonKey(name)]; i++ {
+		name = fmt.Sprintf("%s%d", base, i)
+	}
+	fn[jsonKey(name)] = true
+	return name
+}
+
+func jsonKey(fieldName string) string {
+	return strings.ToLower(strings.ReplaceAll(fieldName, "_", ""))
 }
-- 
2.43.0


From b39dfafd129fa70c543e2f7508bf797960a9e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 065/100] fix: xmlinfer honors IncludeExamplesOption(false)

---
 xmlinfer/xmlinfer.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index c308c26..3d8d2c0 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -30,7 +30,7 @@ import (
 
 // Infer infers a protocol buffer definition from a stream of XML tokens.
 func Infer(tr xml.TokenReader, options ...Option) (*InferResult, error) {
-	s := &state{tr, false}
+	s := &state{tr, true}
 	for _, opt := range options {
 		opt.applyToState(s)
 	}
@@ -43,7 +43,8 @@ func Infer(tr xml.TokenReader, options ...Option) (*InferResult, error) {
 
 // InferResult holds the results of inference.
 type InferResult struct {
-	roots []*structCandidate
+	roots           []*structCandidate
+	includeExamples bool
 }
 
 func (ir *InferResult) String() string {
@@ -57,7 +58,7 @@ func (ir *InferResult) ProtoFile() (string, error) {
 	}
 	b := builder.NewFile("output.proto").SetProto3(true)
 	for _, r := range ir.roots {
-		msgs, err := r.inferredMessages()
+		msgs, err := r.inferredMessages(ir.includeExamples)
 		if err != nil {
 			return "", fmt.Errorf("could not infer messages of root element %s: %w", r, err)
 		}
@@ -95,7 +96,7 @@ func (sc *structCandidate) hasNoAttributesOrChildElements() bool {
 	return len(sc.elemFields) == 0 && len(sc.attrFields) == 0
 }
 
-func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error) {
+func (sc *structCandidate) inferredMessages(includeExamples bool) ([]*builder.MessageBuilder, error) {
 	if sc.hasNoAttributesOrChildElements() {
 		return nil, nil
 	}
@@ -111,7 +112,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 	})
 	names := make(fieldNamer)
 	for _, attr := range sc.attrFields {
-		attrField, err := attr.fieldBuilder(names.fieldName(attr.name))
+		attrField, err := attr.fieldBuilder(names.fieldName(attr.name), includeExamples)
 		if err != nil {
 			return nil, err
 		}
@@ -121,7 +122,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 	all := []*builder.MessageBuilder{b}
 
 	for _, ef := range sc.elemFields {
-		fieldDesc, mainChildElemMsg, otherChildElemMsgs, err := ef.fieldBuilder(names.fieldName(ef.sc.name))
+		fieldDesc, mainChildElemMsg, otherChildElemMsgs, err := ef.fieldBuilder(names.fieldName(ef.sc.name), includeExamples)
 		if err != nil {
 			return nil, err
 		}
@@ -165,7 +166,7 @@ func (ac *attrFieldCandidate) recordExampleValue(s string) {
 	ac.sampleValueCounts[s]++
 }
 
-func (ac *attrFieldCandidate) fieldBuilder(fieldName string) (*builder.FieldBuilder, error) {
+func (ac *attrFieldCandidate) fieldBuilder(fieldName string, includeExamples bool) (*builder.FieldBuilder, error) {
 	ft, err := inferFieldTypeFromExampleStrings(ac.sampleValueCounts)
 	if err != nil {
 		return nil, fmt.Errorf("failed to infer type for attribute %q: %w", fieldName, err)
@@ -173,13 +174,13 @@ func (ac *attrFieldCandidate) fieldBuilder(fieldName string) (*builder.FieldBuil
 	b := builder.NewField(fieldName, ft)
 
 	b.SetComments(builder.Comments{
-		LeadingComment: topNExamplesComment(ac.sampleValueCounts),
+		LeadingComment: topNExamplesComment(ac.sampleValueCounts, includeExamples),
 	})
 
 	return b, nil
 }
 
-func topNExamplesComment(m map[string]int) string {
+func topNExamplesComment(m map[string]int, includeExamples bool) string {
 	if len(m) == 0 {
 		return "inferred type from 0 examples"
 	}
@@ -189,6 +190,9 @@ func topNExamplesComment(m map[string]int) string {
 		strs = append(strs, s)
 		total += count
 	}
+	if !includeExamples {
+		return fmt.Sprintf(" inferred type from %d examples, %d unique values", total, len(m))
+	}
 	sort.Slice(strs, func(i int, j int) bool {
 		if m[strs[i]] != m[strs[j]] {
 			return m[strs[i]] > m[strs[j]]
@@ -222,7 +226,7 @@ func (ef *elementFieldCandidate) recordCardinality(c int) {
 	ef.cardinalityCounts[c]++
 }
 
-func (ef *elementFieldCandidate) fieldBuilder(fieldName string) (*builder.FieldBuilder, *builder.MessageBuilder, []*builder.MessageBuilder, error) {
+func (ef *elementFieldCandidate) fieldBuilder(fieldName string, includeExamples bool) (*builder.FieldBuilder, *builder.MessageBuilder, []*builder.MessageBuilder, error) {
 	var b *builder.FieldBuilder
 	var mainChild *builder.MessageBuilder
 	var otherChildren []*builder.MessageBuilder
@@ -233,10 +237,10 @@ func (ef *elementFieldCandidate) fieldBuilder(fieldName string) (*builder.FieldB
 		}
 		b = builder.NewField(fieldName, ft)
 		b.SetComments(builder.Comments{
-			LeadingComment: topNExamplesComment(ef.sc.chardataField.sampleValueCounts),
+			LeadingComment: topNExamplesComment(ef.sc.chardataField.sampleValueCounts, includeExamples),
 		})
 	} else {
-		childStructs, err := ef.sc.inferredMessages()
+		childStructs, err := ef.sc.inferredMessages(includeExamples)
 		if err != nil {
 			return nil, nil, nil, fmt.Errorf("error getting child structs of %q: %w", fieldName, err)
 		}
@@ -279,7 +283,7 @@ func (cdf *chardataFieldCandidate) recordExampleValue(s string) {
 }
 
 // IncludeExamplesOption returns an option that enables or disables showing
-// example values in the generated protobuf.
+// example values in the generated protobuf. They are shown by default.
 func IncludeExamplesOption(include bool) Option {
 	return &simpleOption{func(s *state) {
 		s.includeExamples = include
@@ -305,7 +309,7 @@ type state struct {
 }
 
 func (s *state) inferTopLevel() (*InferResult, error) {
-	ir := &InferResult{}
+	ir := &InferResult{includeExamples: s.includeExamples}
 
 	for {
 		tok, err := s.tr.Token()
-- 
2.43.0


From a46402b81cd2d8eee2358f23717af89f274f7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 066/100] fix: xmlinfer uses a token that comes together with
 io.EOF

---
 xmlinfer/xmlinfer.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index 3d8d2c0..46f5ad4 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -30,7 +30,7 @@ import (
 
 // Infer infers a protocol buffer definition from a stream of XML tokens.
 func Infer(tr xml.TokenReader, options ...Option) (*InferResult, error) {
-	s := &state{tr, true}
+	s := &state{tr: tr, includeExamples: true}
 	for _, opt := range options {
 		opt.applyToState(s)
 	}
@@ -306,13 +306,27 @@ func (so *simpleOption) applyToState(s *state) {
 type state struct {
 	tr              xml.TokenReader
 	includeExamples bool
+	err             error // returned along with the last token
+}
+
+// token returns either a token or an error. A TokenReader may return both.
+func (s *state) token() (xml.Token, error) {
+	if s.err != nil {
+		return nil, s.err
+	}
+	tok, err := s.tr.Token()
+	if tok != nil {
+		s.err = err
+		return tok, nil
+	}
+	return nil, err
 }
 
 func (s *state) inferTopLevel() (*InferResult, error) {
 	ir := &InferResult{includeExamples: s.includeExamples}
 
 	for {
-		tok, err := s.tr.Token()
+		tok, err := s.token()
 		if err != nil {
 			if err == io.EOF {
 				return ir, nil
@@ -366,7 +380,7 @@ func (s *state) consumeElementTokens(startTok xml.StartElement, sc *structCandid
 		}
 	}
 	for {
-		tok, err := s.tr.Token()
+		tok, err := s.token()
 		if err != nil {
 			return fmt.Errorf("failed parsing XML tokens within %q: %w", sc.name, err)
 		}
-- 
2.43.0


From 8f6a2ed8a547a2f09f86baed7f5b86d5c1fa0111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 067/100] fix: recordinfer: adjusting a mapping does not alter
 later ones

---
 recordinfer/recordinfer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index a0fbb28..0d2aa52 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -76,7 +76,10 @@ func (ip *InferredProto) Mapping() *pb.RecordProtoMapping {
 	m := &pb.RecordProtoMapping{
 		PackageName: ip.packageName,
 		MessageName: ip.messageName,
-		GoOptions:   ip.goOpts,
+	}
+	if ip.goOpts != nil {
+		// The caller may adjust the mapping.
+		m.GoOptions = proto.Clone(ip.goOpts).(*pb.GoOptions)
 	}
 	for _, col := range ip.columns {
 		fieldMapping := &pb.ColumnToFieldMapping{
-- 
2.43.0


From 27e2543028de9b9877c5a2d321e9b71a17624f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 068/100] fix: recordinfer: types do not depend on the local
 time zone

---
 recordinfer/recordinfer_timestamps.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/recordinfer/recordinfer_timestamps.go b/recordinfer/recordinfer_timestamps.go
index 6f8cdcb..cc404f1 100644
--- a/recordinfer/recordinfer_timestamps.go
+++ b/recordinfer/recordinfer_timestamps.go
@@ -77,13 +77,12 @@ func (t *timeColumnType) updateMapping(mapping *pb.ColumnToFieldMapping) {
 
 func (t *timeColumnType) asInferrerFunc() func(string) (columnType, error) {
 	return func(value string) (columnType, error) {
-		var parsed time.Time
-		var parseErr error
-		if t.loc == nil {
-			parsed, parseErr = time.Parse(t.layout, value)
-		} else {
-			parsed, parseErr = time.ParseInLocation(t.layout, value, t.loc)
+		loc := t.loc
+		if loc == nil {
+			// Unlike time.Parse, do not depend on the local time zone.
+			loc = time.UTC
 		}
+		parsed, parseErr := time.ParseInLocation(t.layout, value, loc)
 		if parseErr == nil && representableAsTimestamp(parsed) {
 			return t, nil
 		}
-- 
2.43.0


From fedcb2fb030bb0eb3a311c9526c3c6432405d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:26 +0000
Subject: [PATCH 069/100] fix: protoreflectcmp compares an unset list as an
 empty one

---
 internal/protoreflectcmp/protoreflectcmp.go | 81 ++++++++++-----------
 1 file changed, 40 insertions(+), 41 deletions(-)

diff --git a/internal/protoreflectcmp/protoreflectcmp.go b/internal/protoreflectcmp/protoreflectcmp.go
index 610b5c0..e5ca913 100644
--- a/internal/protoreflectcmp/protoreflectcmp.go
+++ b/internal/protoreflectcmp/protoreflectcmp.go
@@ -106,52 +106,51 @@ func analyzeValue(v interface{}) analysis {
 	}
 	if list, ok := v.(protoreflect.List); ok {
 		a.IsList = true
-		if list.IsValid() {
-			prototypeInstance := list.NewElement().Interface()
-			switch instance := prototypeInstance.(type) {
-			case bool:
-				a.SliceElementType = boolType
-			case int32:
-				a.SliceElementType = int32Type
-			case int64:
-				a.SliceElementType = int64Type
-			case uint32:
-				a.SliceElementType = uint32Type
-			case uint64:
-				a.SliceElementType = uint64Type
-			case float32:
-				a.SliceElementType = float32Type
-			case float64:
-				a.SliceElementType = float64Type
-			case string:
-				a.SliceElementType = stringType
-			case []byte:
-				a.SliceElementType = bytesType
-			case protoreflect.EnumNumber: // protobuf tupe: EnumKind
-				a.SliceElementType = enumNumberType
+		// An unset list (one that is not valid) is an empty list.
+		prototypeInstance := list.NewElement().Interface()
+		switch instance := prototypeInstance.(type) {
+		case bool:
+			a.SliceElementType = boolType
+		case int32:
+			a.SliceElementType = int32Type
+		case int64:
+			a.SliceElementType = int64Type
+		case uint32:
+			a.SliceElementType = uint32Type
+		case uint64:
+			a.SliceElementType = uint64Type
+		case float32:
+			a.SliceElementType = float32Type
+		case float64:
+			a.SliceElementType = float64Type
+		case string:
+			a.SliceElementType = stringType
+		case []byte:
+			a.SliceElementType = bytesType
+		case protoreflect.EnumNumber: // protobuf tupe: EnumKind
+			a.SliceElementType = enumNumberType
+		case protoreflect.Message: // protobuf tupe: MessageKind, GroupKind
+			a.SliceElementType = protoMessageType
+			a.SliceMessageName = instance.Descriptor().FullName()
+		default:
+			panic("unsupported protoreflect.Value type")
+		}
+
+		normalizedSlice := reflect.MakeSlice(reflect.SliceOf(a.SliceElementType), list.Len(), list.Len())
+		for i := 0; i < list.Len(); i++ {
+			value := list.Get(i).Interface()
+			var sliceValue reflect.Value
+			switch castValue := value.(type) {
 			case protoreflect.Message: // protobuf tupe: MessageKind, GroupKind
-				a.SliceElementType = protoMessageType
-				a.SliceMessageName = instance.Descriptor().FullName()
+				var m proto.Message = castValue.Interface()
+				sliceValue = reflect.ValueOf(m)
 			default:
-				panic("unsupported protoreflect.Value type")
+				sliceValue = reflect.ValueOf(value)
 			}
+			normalizedSlice.Index(i).Set(sliceValue)
 
-			normalizedSlice := reflect.MakeSlice(reflect.SliceOf(a.SliceElementType), list.Len(), list.Len())
-			for i := 0; i < list.Len(); i++ {
-				value := list.Get(i).Interface()
-				var sliceValue reflect.Value
-				switch castValue := value.(type) {
-				case protoreflect.Message: // protobuf tupe: MessageKind, GroupKind
-					var m proto.Message = castValue.Interface()
-					sliceValue = reflect.ValueOf(m)
-				default:
-					sliceValue = reflect.ValueOf(value)
-				}
-				normalizedSlice.Index(i).Set(sliceValue)
-
-			}
-			a.NormalizedSlice = normalizedSlice.Interface()
 		}
+		a.NormalizedSlice = normalizedSlice.Interface()
 	} else {
 		typeOfValue := reflect.TypeOf(v)
 		typeOfValueKind := typeOfValue.Kind()
-- 
2.43.0


From 16d6aa2e942651c6595aa14824bdfb2a7470897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 070/100] fix: protoreflectcmp does not fail on the slices that
 protocmp.Transform makes

---
 internal/protoreflectcmp/protoreflectcmp.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/protoreflectcmp/protoreflectcmp.go b/internal/protoreflectcmp/protoreflectcmp.go
index e5ca913..77dd049 100644
--- a/internal/protoreflectcmp/protoreflectcmp.go
+++ b/internal/protoreflectcmp/protoreflectcmp.go
@@ -65,15 +65,17 @@ var (
 )
 
 var compareListsOpt = cmp.FilterValues(func(a, b interface{}) bool {
-	aAnalysis := analyzeValue(a)
-	bAnalysis := analyzeValue(b)
-	bothNormalizeToSlice := aAnalysis.NormalizedSlice != nil && bAnalysis.NormalizedSlice != nil
-	if !bothNormalizeToSlice {
+	// Don't proceed unless at least one argument is a list... two slices are
+	// already comparable. (And a slice that protocmp.Transform made holds
+	// messages that analyzeValue cannot deal with.)
+	_, aIsList := a.(protoreflect.List)
+	_, bIsList := b.(protoreflect.List)
+	if !aIsList && !bIsList {
 		return false
 	}
-	// Don't proceed unless at least one argument is a list... two slices are
-	// already comparable.
-	return aAnalysis.IsList || bAnalysis.IsList
+	aAnalysis := analyzeValue(a)
+	bAnalysis := analyzeValue(b)
+	return aAnalysis.NormalizedSlice != nil && bAnalysis.NormalizedSlice != nil
 }, cmp.Transformer("normalizeList", func(x interface{}) interface{} {
 	return analyzeValue(x).NormalizedSlice
 }))
-- 
2.43.0


From 57c955b565211ecbc8fef0dec1e1a1d2e862ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 071/100] fix: rdfxml: unqualified about, ID, resource,
 parseType and type are rdf attributes, others are errors

---
 rdf/rdfxml/rdfxml.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 307cd56..775f78b 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -350,6 +350,9 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 	if err != nil {
 		return nil, err
 	}
+	if start.Attr, err = qualifyAttrs(start.Attr); err != nil {
+		return nil, p.errorf("bad attributes of %+v: %w", start.Name, err)
+	}
 	// From the spec:
 	//
 	// If there is an attribute a with a.URI == rdf:ID, then e.subject :=
@@ -877,6 +880,9 @@ func readPropertyElem(p *Parser, liCounter *int, subject *ntriples.Subject, prop
 	if err != nil {
 		return err
 	}
+	if propElem.Attr, err = qualifyAttrs(propElem.Attr); err != nil {
+		return p.errorf("bad attributes of %+v: %w", propElem.Name, err)
+	}
 	if err := readPropertyElemInternal(p, liCounter, subject, propElem); err != nil {
 		return err
 	}
@@ -1116,6 +1122,25 @@ func readWhitespaceUntilEndElem(p *Parser, startElem *xml.StartElement) error {
 
 var startWithXMLRegexp = regexp.MustCompile(`^(?i)xml`)
 
+// qualifyAttrs gives the attributes without a namespace that the spec allows
+// their RDF names. See the URI accessor in
+// https://www.w3.org/TR/rdf-syntax-grammar/#section-attribute-node.
+func qualifyAttrs(attrs []xml.Attr) ([]xml.Attr, error) {
+	var out []xml.Attr
+	for _, a := range attrs {
+		if a.Name.Space == "" && !isXMLAttr(a.Name) {
+			switch a.Name.Local {
+			case "ID", "about", "resource", "parseType", "type":
+				a.Name.Space = string(RDF)
+			default:
+				return nil, fmt.Errorf("attribute %q has no namespace", a.Name.Local)
+			}
+		}
+		out = append(out, a)
+	}
+	return out, nil
+}
+
 // rdfAttributes returns all the attributes that should be considered as the
 // attributes of an element according to the RDF/XML spec.
 func rdfAttributes(attrs []xml.Attr) []xml.Attr {
-- 
2.43.0


From 3fd642397aa61bcac2beae9014ef3d388e0c4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 072/100] fix: rdfxml: an empty property element with
 rdf:datatype is an empty typed literal

---
 rdf/rdfxml/rdfxml.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 775f78b..965ca3b 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -662,17 +662,20 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 
 	if childInfo.isEmptyProperty {
 		// 7.2.21 Production emptyPropertyElt
-		idAttr, _, _, _, propAttrs, attrCount, err := parseEmptyPropertyElementAttributes(propElem.Attr)
+		idAttr, resourceAttr, nodeIDAttr, dtAttr, propAttrs, _, err := parseEmptyPropertyElementAttributes(propElem.Attr)
 		if err != nil {
 			return p.errorf("error processing attributs of empty literal property: %w", err)
 		}
 
-		if attrCount == 0 || (attrCount == 1 && idAttr != nil) {
+		if resourceAttr == nil && nodeIDAttr == nil && len(propAttrs) == 0 {
 			// If there are no attributes or only the optional rdf:ID attribute i then
 			// o := literal(literal-value:="", literal-language := e.language) and the
 			// following statement is added to the graph:
 			// e.parent.subject.string-value e.URI-string-value o.string-value .
-			literal, err := parseLiteral(p, "")
+			//
+			// With an rdf:datatype attribute, this is a literalPropertyElt with an
+			// empty text.
+			literal, err := parseLiteralOrTypedLiteral(p, "", dtAttr)
 			if err != nil {
 				return p.errorf("error emitting empty literal property: %w", err)
 			}
@@ -765,22 +768,13 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 	}
 
 	// 7.2.16 Production literalPropertyElt
-	var literal ntriples.Literal
 	idAttr, dtAttr, err := parseLiteralPropertyElementAttributes(propElem.Attr)
 	if err != nil {
 		return p.errorf("bad literalPropertyElt: %w", err)
 	}
-	if dtAttr != nil {
-		datatype, err := parseIRI(dtAttr.Value)
-		if err != nil {
-			return err
-		}
-		literal = ntriples.NewLiteral(childInfo.text, datatype, "")
-	} else {
-		literal, err = parseLiteral(p, childInfo.text)
-		if err != nil {
-			return err
-		}
+	literal, err := parseLiteralOrTypedLiteral(p, childInfo.text, dtAttr)
+	if err != nil {
+		return err
 	}
 	triple := ntriples.NewTriple(subject, elemURI, ntriples.NewObjectLiteral(literal))
 	ind, err := p.tripleCallback(triple)
@@ -1039,6 +1033,17 @@ func parseLiteral(p *Parser, s string) (ntriples.Literal, error) {
 	return ntriples.NewLiteral(s, "", lang), nil
 }
 
+func parseLiteralOrTypedLiteral(p *Parser, s string, dtAttr *xml.Attr) (ntriples.Literal, error) {
+	if dtAttr == nil {
+		return parseLiteral(p, s)
+	}
+	datatype, err := parseIRI(dtAttr.Value)
+	if err != nil {
+		return nil, err
+	}
+	return ntriples.NewLiteral(s, datatype, ""), nil
+}
+
 func parseIRI(s string) (ntriples.IRI, error) {
 	unnormalized, err := iri.Parse(s)
 	if err != nil {
-- 
2.43.0


From 59b79536a68b420153afaa0067a93e3062396149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 073/100] fix: rdfxml: the text of an XML literal declares its
 namespaces properly

---
 rdf/rdfxml/rdfxml.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 965ca3b..40ec325 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1076,23 +1076,33 @@ func findAttr(elem xml.StartElement, iri ntriples.IRI) *xml.Attr {
 func readElementContents(p *Parser) ([]byte, error) {
 	buf := &bytes.Buffer{}
 	enc := xml.NewEncoder(buf)
-	depth := 0
+	var namespaces []string // of the open elements
 	for {
 		tok, err := p.reader.Token()
 		if err != nil {
 			return nil, p.errorf("XML read error: %w", err)
 		}
-		switch tok.(type) {
+		switch t := tok.(type) {
 		case xml.EndElement:
-			if depth == 0 {
+			if len(namespaces) == 0 {
 				if err := enc.Flush(); err != nil {
 					return nil, p.errorf("XML printing error: %w", err)
 				}
 				return buf.Bytes(), nil
 			}
-			depth--
+			namespaces = namespaces[:len(namespaces)-1]
 		case xml.StartElement:
-			depth++
+			// The encoder declares the namespaces that it needs, and would take
+			// the declarations for attributes in a namespace called xmlns.
+			t.Attr = filterAttrs(t.Attr, func(a xml.Attr) bool {
+				return a.Name.Space != "xmlns" && (a.Name.Space != "" || a.Name.Local != "xmlns")
+			})
+			if t.Name.Space == "" && len(namespaces) > 0 && namespaces[len(namespaces)-1] != "" {
+				// But it does not return to no namespace.
+				t.Attr = append(t.Attr, xml.Attr{Name: xml.Name{Local: "xmlns"}})
+			}
+			namespaces = append(namespaces, t.Name.Space)
+			tok = t
 		}
 		if err := enc.EncodeToken(tok); err != nil {
 			return nil, p.errorf("XML printing error: %w", err)
-- 
2.43.0


From 6bd19a69d4c17a367bdd0d801aba2c45935edff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 074/100] fix: rdfxml: attributes in a namespace may have local
 names that begin with xml

---
 rdf/rdfxml/rdfxml.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 40ec325..9213b2e 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1318,10 +1318,15 @@ func filterAttrs(attrs []xml.Attr, pred func(xml.Attr) bool) []xml.Attr {
 }
 
 var beginsWithXMLExpr = regexp.MustCompile(`^(?i)xml`)
-var xmlnsRE = regexp.MustCompile(`^(?i)` + regexp.QuoteMeta(xmlNS))
 
+// isXMLAttr reports whether the attribute is one of the reserved XML names,
+// which have the prefix xml or another one that begins with xml, or have no
+// prefix and a local name that begins with xml.
 func isXMLAttr(name xml.Name) bool {
-	return xmlnsRE.MatchString(name.Space) || beginsWithXMLExpr.MatchString(name.Local) || beginsWithXMLExpr.MatchString(name.Space)
+	if name.Space == "" {
+		return beginsWithXMLExpr.MatchString(name.Local)
+	}
+	return name.Space == xmlNS || beginsWithXMLExpr.MatchString(name.Space)
 }
 
 func isPropertyAttr(name xml.Name) bool {
-- 
2.43.0


From ee5ec018ea03bf5c4183c4d71b2981dfcf2a16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 075/100] fix: rdfxml: the first cell of a collection is the
 object of its property

---
 rdf/rdfxml/rdfxml.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 9213b2e..7d4afe9 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -843,18 +843,16 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 		}
 	}
 
-	isFirst := true
 	for i, emittedSub := range emittedSubjects {
-		nextSeqID := p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
-		if !isFirst {
+		if i > 0 {
+			nextSeqID := p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
 			triple := ntriples.NewTriple(ntriples.NewSubjectBlankNodeID(seqID), RDFRest, ntriples.NewObjectBlankNodeID(nextSeqID))
 			ind, err := p.tripleCallback(triple)
 			if err != nil || ind == Stop {
 				return err
 			}
+			seqID = nextSeqID
 		}
-		isFirst = false
-		seqID = nextSeqID
 		triple := ntriples.NewTriple(ntriples.NewSubjectBlankNodeID(seqID), RDFFirst, ntriples.NewObjectFromSubject(emittedSub))
 		ind, err := p.tripleCallback(triple)
 		if err != nil || ind == Stop {
-- 
2.43.0


From 09e42b8be68c1b472b32171508381fa2e45c793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 076/100] fix: rdfxml uses a token that comes together with
 io.EOF

---
 rdf/rdfxml/rdfxml.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 7d4afe9..2588816 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -75,7 +75,7 @@ func readTriples(p *Parser, receiver func(t *ntriples.Triple) (IterationDecision
 func readRootOrNodeElem(p *Parser) error {
 	started, finished := false, false
 	for {
-		tok, err := p.reader.Token()
+		tok, err := p.token()
 		if err == io.EOF {
 			if finished {
 				return nil
@@ -129,7 +129,7 @@ func readNodeElemsAndEndRootElement(p *Parser) error {
 func readNodeElemsAndEndElement(p *Parser, wantEnd ntriples.IRI) ([]*ntriples.Subject, error) {
 	var subjects []*ntriples.Subject
 	for {
-		tok, err := p.reader.Token()
+		tok, err := p.token()
 		if err == io.EOF {
 			return nil, fmt.Errorf("unexpected end of file while parsing rdf:Root")
 		}
@@ -190,12 +190,13 @@ type Parser struct {
 	langStack          []string
 	nextBlankNodeID    int
 	observedBlankNodes map[ntriples.BlankNodeID]bool
+	readErr            error // returned along with the last token
 }
 
 // NewParser returns a new RDF/XML parser that reads from the given xml document
 // tr.
 func NewParser(tr xml.TokenReader, opts *ParserOptions) *Parser {
-	p := &Parser{tr, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}}
+	p := &Parser{reader: tr, observedBlankNodes: map[ntriples.BlankNodeID]bool{}}
 	if opts != nil && opts.BaseURL != "" {
 		p.pushBaseURI(opts.BaseURL)
 	}
@@ -213,6 +214,20 @@ func (p *Parser) ReadAllTriples() ([]*ntriples.Triple, error) {
 	return all, err
 }
 
+// token returns either the next token or an error. A TokenReader may return
+// both.
+func (p *Parser) token() (xml.Token, error) {
+	if p.readErr != nil {
+		return nil, p.readErr
+	}
+	tok, err := p.reader.Token()
+	if tok != nil {
+		p.readErr = err
+		return tok, nil
+	}
+	return nil, err
+}
+
 func (p *Parser) errorf(format string, args ...interface{}) error {
 	// TODO(reddaly): Add position within xml to error output.
 	return fmt.Errorf(format, args...)
@@ -491,7 +506,7 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 func readPropertyElems(p *Parser, startElemName xml.Name, subject *ntriples.Subject) error {
 	liCounter := 1
 	for {
-		tok, err := p.reader.Token()
+		tok, err := p.token()
 		if err == io.EOF {
 			return p.errorf("unexpected EOF while reading property elem")
 		}
@@ -968,7 +983,7 @@ type propertyElemParseInfo struct {
 func readNextChildOfPropertyElement(p *Parser) (*propertyElemParseInfo, error) {
 	textBuilder := &strings.Builder{}
 	for {
-		tok, err := p.reader.Token()
+		tok, err := p.token()
 		if err != nil {
 			return nil, p.errorf("XML read error: %w", err)
 		}
@@ -1076,7 +1091,7 @@ func readElementContents(p *Parser) ([]byte, error) {
 	enc := xml.NewEncoder(buf)
 	var namespaces []string // of the open elements
 	for {
-		tok, err := p.reader.Token()
+		tok, err := p.token()
 		if err != nil {
 			return nil, p.errorf("XML read error: %w", err)
 		}
@@ -1110,7 +1125,7 @@ func readElementContents(p *Parser) ([]byte, error) {
 
 func readWhitespaceUntilEndElem(p *Parser, startElem *xml.StartElement) error {
 	for {
-		tok, err := p.reader.Token()
+		tok, err := p.token()
 		if err != nil {
 			return p.errorf("XML read error: %w", err)
 		}
-- 
2.43.0


From 789e1bf09bf9696ea66cea67747dbf64b8d39bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 077/100] fix: rdfxml: generated blank nodes differ from those
 that the document names

---
 rdf/rdfxml/rdfxml.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 2588816..a287437 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -189,14 +189,19 @@ type Parser struct {
 	xmlBaseStack       []*baseStackEntry
 	langStack          []string
 	nextBlankNodeID    int
-	observedBlankNodes map[ntriples.BlankNodeID]bool
-	readErr            error // returned along with the last token
+	observedBlankNodes map[ntriples.BlankNodeID]bool   // labels in use
+	namedBlankNodes    map[string]ntriples.BlankNodeID // labels by rdf:nodeID
+	readErr            error                           // returned along with the last token
 }
 
 // NewParser returns a new RDF/XML parser that reads from the given xml document
 // tr.
 func NewParser(tr xml.TokenReader, opts *ParserOptions) *Parser {
-	p := &Parser{reader: tr, observedBlankNodes: map[ntriples.BlankNodeID]bool{}}
+	p := &Parser{
+		reader:             tr,
+		observedBlankNodes: map[ntriples.BlankNodeID]bool{},
+		namedBlankNodes:    map[string]ntriples.BlankNodeID{},
+	}
 	if opts != nil && opts.BaseURL != "" {
 		p.pushBaseURI(opts.BaseURL)
 	}
@@ -301,6 +306,7 @@ func (p *Parser) generateBlankNodeID() ntriples.BlankNodeID {
 		if p.observedBlankNodes[candidate] {
 			continue
 		}
+		p.observedBlankNodes[candidate] = true
 		return candidate
 	}
 }
@@ -312,6 +318,7 @@ func (p *Parser) generateBlankNodeIDWithHint(hint string) ntriples.BlankNodeID {
 		if p.observedBlankNodes[candidate] {
 			continue
 		}
+		p.observedBlankNodes[candidate] = true
 		return candidate
 	}
 }
@@ -413,7 +420,7 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 			if err := checkXMLNCName(attr.Value); err != nil {
 				return nil, p.errorf("invalid rdf:nodeID parameter: %w", err)
 			}
-			blankID, err := parseBlankNodeID(attr.Value)
+			blankID, err := p.parseBlankNodeID(attr.Value)
 			if err != nil {
 				return nil, p.errorf("bad IRI for rdf:Description's rdf:NodeID attribute: %w", err)
 			}
@@ -949,7 +956,7 @@ func parseEmptyPropertyResource(p *Parser, attrs []xml.Attr) (*ntriples.Subject,
 			if err := checkXMLNCName(attr.Value); err != nil {
 				return nil, p.errorf("invalid rdf:nodeID parameter: %w", err)
 			}
-			blankID, err := parseBlankNodeID(attr.Value)
+			blankID, err := p.parseBlankNodeID(attr.Value)
 			if err != nil {
 				return nil, p.errorf("bad IRI for rdf:Description's rdf:NodeID attribute: %w", err)
 			}
@@ -1065,10 +1072,19 @@ func parseIRI(s string) (ntriples.IRI, error) {
 	return unnormalized.NormalizePercentEncoding(), err
 }
 
-func parseBlankNodeID(s string) (ntriples.BlankNodeID, error) {
+func (p *Parser) parseBlankNodeID(s string) (ntriples.BlankNodeID, error) {
 	// TODO(reddaly): Check blank node id syntax.
-	value := ntriples.BlankNodeID(s)
-	return value, nil
+	if id, ok := p.namedBlankNodes[s]; ok {
+		return id, nil
+	}
+	id := ntriples.BlankNodeID(s)
+	if p.observedBlankNodes[id] {
+		// The parser generated this label for another node.
+		id = p.generateBlankNodeID()
+	}
+	p.observedBlankNodes[id] = true
+	p.namedBlankNodes[s] = id
+	return id, nil
 }
 
 func xmlNameToIRI(n xml.Name) ntriples.IRI {
-- 
2.43.0


From 35736745f971b07bf955492a5e59dc91dab4c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:27 +0000
Subject: [PATCH 078/100] fix: rdfxml resolves a relative xml:base against the
 outer one

---
 rdf/rdfxml/rdfxml.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index a287437..785964a 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -339,7 +339,8 @@ func (p *Parser) handleGenericStartElem(elem xml.StartElement) (func() error, er
 		}
 	}
 	if base != nil {
-		baseIRI, err := parseIRI(*base)
+		// The value may be relative to the base URI of the parent.
+		baseIRI, err := resolve(p, *base)
 		if err != nil {
 			return nil, p.errorf("xml:base value invalid: %w", err)
 		}
-- 
2.43.0


From ebca4f077013f64ed34422e2551e55d06739e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:43 +0000
Subject: [PATCH 079/100] fix: rdfxml: an rdf:nodeID that ends in a full stop
 gets a label that N-Triples allows

---
 rdf/rdfxml/rdfxml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 785964a..cb1ea7e 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1079,8 +1079,9 @@ func (p *Parser) parseBlankNodeID(s string) (ntriples.BlankNodeID, error) {
 		return id, nil
 	}
 	id := ntriples.BlankNodeID(s)
-	if p.observedBlankNodes[id] {
-		// The parser generated this label for another node.
+	if p.observedBlankNodes[id] || strings.HasSuffix(s, ".") {
+		// The parser generated this label for another node, or it would not be a
+		// label in N-Triples.
 		id = p.generateBlankNodeID()
 	}
 	p.observedBlankNodes[id] = true
-- 
2.43.0


From 65e5dca292709380391459badd6b5dd68a1a10d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:52 +0000
Subject: [PATCH 080/100] fix: rdfxml: names may have underscores

---
 rdf/rdfxml/rdfxml_xmlname.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml_xmlname.go b/rdf/rdfxml/rdfxml_xmlname.go
index f5295df..dc9484e 100644
--- a/rdf/rdfxml/rdfxml_xmlname.go
+++ b/rdf/rdfxml/rdfxml_xmlname.go
@@ -30,7 +30,7 @@ func checkXMLNCName(candidate string) error {
 
 const (
 	// See https://www.w3.org/TR/xml/ 2.3
-	xmlNameStartChar = (`[\:A-Za-z` +
+	xmlNameStartChar = (`[\:A-Z_a-z` +
 		`\xC0-\xD6` +
 		`\xD8-\xF6` +
 		`\xF8-\x{2FF}` +
-- 
2.43.0


From 4645216660ee760a9801fb03355b939ef9bca9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 081/100] fix: rdfxml: only XML white space may stand between
 elements

---
 rdf/rdfxml/rdfxml.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index cb1ea7e..5424dc5 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -111,7 +111,7 @@ func readRootOrNodeElem(p *Parser) error {
 			// end elements should be consumed
 		case xml.CharData:
 			str := string(t)
-			if strings.TrimSpace(str) != "" {
+			if trimWhitespace(str) != "" {
 				return p.errorf("unexpected non-whitespace element text %q", str)
 			}
 		case xml.Comment: // ignore
@@ -152,7 +152,7 @@ func readNodeElemsAndEndElement(p *Parser, wantEnd ntriples.IRI) ([]*ntriples.Su
 			return subjects, nil
 		case xml.CharData:
 			str := string(t)
-			if strings.TrimSpace(str) != "" {
+			if trimWhitespace(str) != "" {
 				return nil, p.errorf("unexpected non-whitespace element text %q", str)
 			}
 		case xml.Comment: // ignore
@@ -1009,7 +1009,7 @@ func readNextChildOfPropertyElement(p *Parser) (*propertyElemParseInfo, error) {
 			}
 		case xml.StartElement:
 			text := textBuilder.String()
-			if strings.TrimSpace(text) != "" {
+			if trimWhitespace(text) != "" {
 				return nil, p.errorf("got start element %s for property and also non-whitespace element text %q", xmlNameToIRI(t.Name), text)
 			}
 			return &propertyElemParseInfo{
@@ -1154,7 +1154,7 @@ func readWhitespaceUntilEndElem(p *Parser, startElem *xml.StartElement) error {
 			}
 			return nil
 		case xml.CharData:
-			nonWS := strings.TrimSpace(string(t))
+			nonWS := trimWhitespace(string(t))
 			if len(nonWS) != 0 {
 				return p.errorf("expected only whitespace in contents, got %q", nonWS)
 			}
@@ -1166,6 +1166,12 @@ func readWhitespaceUntilEndElem(p *Parser, startElem *xml.StartElement) error {
 	}
 }
 
+// trimWhitespace removes the characters from both ends of s that are white
+// space in XML.
+func trimWhitespace(s string) string {
+	return strings.Trim(s, " \t\r\n")
+}
+
 var startWithXMLRegexp = regexp.MustCompile(`^(?i)xml`)
 
 // qualifyAttrs gives the attributes without a namespace that the spec allows
-- 
2.43.0


From 6f4b143927b0c2dfa4b5c7c4ad262a348e647d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 082/100] fix: rdfxml: text between property elements is an
 error

---
 rdf/rdfxml/rdfxml.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 5424dc5..5b7cd5c 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -533,6 +533,10 @@ func readPropertyElems(p *Parser, startElemName xml.Name, subject *ntriples.Subj
 			}
 			return nil
 		case xml.CharData:
+			str := string(t)
+			if trimWhitespace(str) != "" {
+				return p.errorf("unexpected non-whitespace element text %q", str)
+			}
 		case xml.Comment: // ignore
 		case xml.ProcInst: // ignore
 		case xml.Directive: // ignore aside from the usual handling
-- 
2.43.0


From 31ac0278ae9237ff04a88d91e34ca0afcdd8364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 083/100] fix: rdfxml: an error for elements or text behind the
 root element

---
 rdf/rdfxml/rdfxml.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 5b7cd5c..d7348e2 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -88,7 +88,7 @@ func readRootOrNodeElem(p *Parser) error {
 		switch t := tok.(type) {
 		case xml.StartElement:
 			if started {
-				return p.errorf("internal error? got second start element at root level %+v", t)
+				return p.errorf("got second start element at root level %+v", t)
 			}
 			started = true
 
@@ -97,18 +97,17 @@ func readRootOrNodeElem(p *Parser) error {
 				if err != nil {
 					return err
 				}
-				return readNodeElemsAndEndRootElement(p)
-			}
-			// Otherwise, treat this like reading a regular node element.
-			// See https://www.w3.org/TR/rdf-syntax-grammar/#nodeElement.
-			_, err := readNodeElem(p, t)
-			return err
-		case xml.EndElement:
-			if xmlNameToIRI(t.Name) != RDFRoot {
-				return p.errorf("internal parsing error - only expect an end element when handlng rdf:Root; probably forgot to consume an EndElement elsewhere: %+v", t)
+				if err := readNodeElemsAndEndRootElement(p); err != nil {
+					return err
+				}
+			} else if _, err := readNodeElem(p, t); err != nil {
+				// Otherwise, treat this like reading a regular node element.
+				// See https://www.w3.org/TR/rdf-syntax-grammar/#nodeElement.
+				return err
 			}
 			finished = true
-			// end elements should be consumed
+		case xml.EndElement:
+			return p.errorf("internal parsing error - end elements should have been consumed along with their start elements: %+v", t)
 		case xml.CharData:
 			str := string(t)
 			if trimWhitespace(str) != "" {
-- 
2.43.0


From 0c3b1bc2705148d8eb68c39d6ebe3d3a6daaf88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 084/100] fix: rdfxml: an rdf:ID must be a name

---
 rdf/rdfxml/rdfxml.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index d7348e2..c0d4147 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -404,7 +404,7 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 	for _, attr := range idAttrs {
 		switch xmlNameToIRI(attr.Name) {
 		case RDFID:
-			subIRI, err := resolve(p, "#"+attr.Value)
+			subIRI, err := resolveID(p, attr.Value)
 			if err != nil {
 				return nil, p.errorf("bad IRI for rdf:Description's rdf:ID attribute: %w", err)
 			}
@@ -576,7 +576,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := resolveID(p, attr.Value)
 				if err != nil {
 					return err
 				}
@@ -627,7 +627,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := resolveID(p, attr.Value)
 				if err != nil {
 					return err
 				}
@@ -671,7 +671,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		// a.string-value))) using the reification rules in section 7.3 and
 		// e.subject := i.
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -717,7 +717,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// with uri(identifier := resolve(e, concat("#", i.string-value))) using
 			// the reification rules in section 7.3.
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := resolveID(p, idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -777,7 +777,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// 7.3.
 
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := resolveID(p, idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -811,7 +811,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		return nil
 	}
 	if idAttr != nil {
-		i, err := resolve(p, "#"+idAttr.Value)
+		i, err := resolveID(p, idAttr.Value)
 		if err != nil {
 			return err
 		}
@@ -841,7 +841,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -859,7 +859,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := resolveID(p, attr.Value)
 			if err != nil {
 				return err
 			}
@@ -1049,6 +1049,14 @@ func resolve(p *Parser, s string) (ntriples.IRI, error) {
 	return p.baseURI().ResolveReference(sIRI).NormalizePercentEncoding(), nil
 }
 
+// resolveID returns the IRI that the value of an rdf:ID attribute stands for.
+func resolveID(p *Parser, id string) (ntriples.IRI, error) {
+	if err := checkXMLNCName(id); err != nil {
+		return "", p.errorf("invalid rdf:ID attribute: %w", err)
+	}
+	return resolve(p, "#"+id)
+}
+
 func parseLiteral(p *Parser, s string) (ntriples.Literal, error) {
 	lang := p.language()
 	if lang == "" {
-- 
2.43.0


From 63899c996741f26071bb6eefe3be055fd3a6f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 085/100] fix: rdfxml: no rdf:ID may be used twice with the
 same base

---
 rdf/rdfxml/rdfxml.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index c0d4147..6f88eab 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -168,8 +168,7 @@ type ParserOptions struct {
 }
 
 type baseStackEntry struct {
-	iri         ntriples.IRI
-	declaredIDs map[ntriples.IRI]bool
+	iri ntriples.IRI
 }
 
 // Parser is an RDF/XML document parser.
@@ -186,6 +185,7 @@ type Parser struct {
 	// is useful for defining a set of distinct, related terms relative to the
 	// same IRI.
 	xmlBaseStack       []*baseStackEntry
+	declaredIDs        map[ntriples.IRI]bool // IRIs of all rdf:ID attributes
 	langStack          []string
 	nextBlankNodeID    int
 	observedBlankNodes map[ntriples.BlankNodeID]bool   // labels in use
@@ -198,6 +198,7 @@ type Parser struct {
 func NewParser(tr xml.TokenReader, opts *ParserOptions) *Parser {
 	p := &Parser{
 		reader:             tr,
+		declaredIDs:        map[ntriples.IRI]bool{},
 		observedBlankNodes: map[ntriples.BlankNodeID]bool{},
 		namedBlankNodes:    map[string]ntriples.BlankNodeID{},
 	}
@@ -244,8 +245,7 @@ func (p *Parser) pushBaseURI(baseURI ntriples.IRI) {
 	// part of the base URI; any fragment part is ignored. See Uniform Resource
 	// Identifiers (URI) [RFC3986].
 	entry := &baseStackEntry{
-		iri:         removeFragment(baseURI),
-		declaredIDs: map[ntriples.IRI]bool{},
+		iri: removeFragment(baseURI),
 	}
 	p.xmlBaseStack = append(p.xmlBaseStack, entry)
 }
@@ -277,17 +277,14 @@ func (p *Parser) baseURI() ntriples.IRI {
 	return p.xmlBaseStack[len(p.xmlBaseStack)-1].iri
 }
 
-// declareID declares that a nodeElement with the given ID has been encountered
-// in the scope of the current xml:base element. If such an ID has already been
-// registered in the current scope, an error is returned.
+// declareID declares that an rdf:ID attribute that stands for the given IRI has
+// been encountered. The pair of an rdf:ID and the base URI that is in scope must
+// be unique in the document; if it is not, an error is returned.
 func (p *Parser) declareID(id ntriples.IRI) error {
-	if len(p.xmlBaseStack) == 0 {
-		return p.errorf("internal error - empty base stack")
-	}
-	entry := p.xmlBaseStack[len(p.xmlBaseStack)-1]
-	if entry.declaredIDs[id] {
+	if p.declaredIDs[id] {
 		return p.errorf("duplicate node element id within same xml:base scope; see section 2.14 of the RDF/XML spec <https://www.w3.org/TR/rdf-syntax-grammar/#nodeElementURIs>; offending id = %s", id)
 	}
+	p.declaredIDs[id] = true
 	return nil
 }
 
@@ -408,8 +405,8 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 			if err != nil {
 				return nil, p.errorf("bad IRI for rdf:Description's rdf:ID attribute: %w", err)
 			}
-			if err := p.declareID(subIRI); err != nil {
-				return nil, err
+			if len(p.xmlBaseStack) == 0 {
+				return nil, p.errorf("rdf:ID attribute without a base URI")
 			}
 			newSubject := ntriples.NewSubjectIRI(subIRI)
 			if subject != nil {
@@ -1049,12 +1046,17 @@ func resolve(p *Parser, s string) (ntriples.IRI, error) {
 	return p.baseURI().ResolveReference(sIRI).NormalizePercentEncoding(), nil
 }
 
-// resolveID returns the IRI that the value of an rdf:ID attribute stands for.
+// resolveID returns the IRI that the value of an rdf:ID attribute stands for,
+// and declares it.
 func resolveID(p *Parser, id string) (ntriples.IRI, error) {
 	if err := checkXMLNCName(id); err != nil {
 		return "", p.errorf("invalid rdf:ID attribute: %w", err)
 	}
-	return resolve(p, "#"+id)
+	iri, err := resolve(p, "#"+id)
+	if err != nil {
+		return "", err
+	}
+	return iri, p.declareID(iri)
 }
 
 func parseLiteral(p *Parser, s string) (ntriples.Literal, error) {
-- 
2.43.0


From 10a92b5dba7aedd4dd4329ad338f4d9a275b36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 086/100] fix: rdfxml: the only attribute of a property element
 with a node is rdf:ID

---
 rdf/rdfxml/rdfxml.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 6f88eab..feed11c 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -645,6 +645,11 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 	}
 	if childInfo.nodeElemStart != nil {
 		// 7.2.15: Production resourcePropertyElt
+		for _, attr := range rdfAttributes(propElem.Attr) {
+			if xmlNameToIRI(attr.Name) != RDFID {
+				return p.errorf("property element %+v has a node element, so its only attribute may be rdf:ID, got %s", propElem.Name, attr.Name.Local)
+			}
+		}
 		valueSubject, err := readNodeElem(p, *childInfo.nodeElemStart)
 		if err != nil {
 			return p.errorf("failed to parse resourcePropertyElt %s property of %s: %w", xmlNameToIRI(childInfo.nodeElemStart.Name), subject, err)
-- 
2.43.0


From eb11035cf95a705765e2a558603a183b482d29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 087/100] fix: rdfxml: rdf:RDF has no attributes

---
 rdf/rdfxml/rdfxml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index feed11c..aecdb1e 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -97,6 +97,9 @@ func readRootOrNodeElem(p *Parser) error {
 				if err != nil {
 					return err
 				}
+				if attrs := rdfAttributes(t.Attr); len(attrs) != 0 {
+					return p.errorf("rdf:RDF may not have attributes, got %s", attrs[0].Name.Local)
+				}
 				if err := readNodeElemsAndEndRootElement(p); err != nil {
 					return err
 				}
-- 
2.43.0


From aaac25fb42ddc282861e9c264d347b1123655a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 088/100] fix: rdfxml: an error for elements that are nested
 too deeply

---
 rdf/rdfxml/rdfxml.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index aecdb1e..7610390 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -174,6 +174,9 @@ type baseStackEntry struct {
 	iri ntriples.IRI
 }
 
+// maxDepth limits the nesting of property elements, as reading uses the stack.
+const maxDepth = 5000
+
 // Parser is an RDF/XML document parser.
 type Parser struct {
 	reader         xml.TokenReader
@@ -194,6 +197,7 @@ type Parser struct {
 	observedBlankNodes map[ntriples.BlankNodeID]bool   // labels in use
 	namedBlankNodes    map[string]ntriples.BlankNodeID // labels by rdf:nodeID
 	readErr            error                           // returned along with the last token
+	depth              int                             // number of property elements being read
 }
 
 // NewParser returns a new RDF/XML parser that reads from the given xml document
@@ -899,6 +903,11 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 // readPropertyElems parses the property elements of a nodeElem per
 // https://www.w3.org/TR/rdf-syntax-grammar/#propertyElt.
 func readPropertyElem(p *Parser, liCounter *int, subject *ntriples.Subject, propElem xml.StartElement) error {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		return p.errorf("more than %d property elements within each other", maxDepth)
+	}
 	handleCloseElem, err := p.handleGenericStartElem(propElem)
 	if err != nil {
 		return err
-- 
2.43.0


From 465dec1c01a0669953d5b85bbdc017e9f4dbd7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 089/100] fix: xtoproto command: --codegen_request and
 --codegen_convert_go_out had no effect

---
 cmd/xtoproto/xtoproto.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cmd/xtoproto/xtoproto.go b/cmd/xtoproto/xtoproto.go
index bcb101f..79a33b3 100644
--- a/cmd/xtoproto/xtoproto.go
+++ b/cmd/xtoproto/xtoproto.go
@@ -83,6 +83,9 @@ func run(ctx context.Context) error {
 	if cfg.codegenRequestJSON != "" {
 		return runConverterCodeGen(ctx, s)
 	}
+	if cfg.codegenRequestPath != "" {
+		return runCodeGenRequest(ctx, s)
+	}
 
 	resp1, err := s.Infer(ctx, &spb.InferRequest{
 		GoPackageName: "example",
@@ -126,6 +129,31 @@ func run(ctx context.Context) error {
 	return nil
 }
 
+// runCodeGenRequest issues the request in the file given by --codegen_request.
+func runCodeGenRequest(ctx context.Context, s spb.XToProtoServiceServer) error {
+	data, err := readFile(ctx, cfg.codegenRequestPath)
+	if err != nil {
+		return err
+	}
+	req := &spb.GenerateCodeRequest{}
+	if err := prototext.Unmarshal(data, req); err != nil {
+		return err
+	}
+	if cfg.overrideConverterOutputPath != "" {
+		if req.Converter == nil {
+			req.Converter = &spb.GenerateCodeRequest_Converter{}
+		}
+		req.Converter.Directory = filepath.Dir(cfg.overrideConverterOutputPath)
+		req.Converter.GoFileName = filepath.Base(cfg.overrideConverterOutputPath)
+	}
+	resp, err := s.GenerateCode(ctx, req)
+	if err != nil {
+		return fmt.Errorf("GenerateCode failed: %w", err)
+	}
+	fmt.Printf("GenerateCodeResponse:\n%s\n", prototext.Format(resp))
+	return nil
+}
+
 type bazelRequest struct {
 	PartialGenerateCodeRequestPath string        `json:"partial_request_path"`
 	ConverterGoOut                 bazelFilePath `json:"converter_go_output"`
-- 
2.43.0


From 2cb662b8e6c141bd4ac79c8b52b5bef569e298dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 090/100] fix: playground: any timestamp_location but UTC was
 refused, as there are no time zone files on web

---
 playground/playground.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/playground/playground.go b/playground/playground.go
index fedd3ab..21326b3 100644
--- a/playground/playground.go
+++ b/playground/playground.go
@@ -33,6 +33,7 @@ import (
 	"os"
 	"syscall/js"
 	"time"
+	_ "time/tzdata" // there are no time zone files on web
 
 	"github.com/google/xtoproto/service"
 	"google.golang.org/protobuf/encoding/prototext"
-- 
2.43.0


From 428088203602dcd1472de10895f0018e70a4a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 091/100] fix: make_release reported success without doing
 anything if it could not tell the working directory

---
 releasing/make_release/make_release.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/releasing/make_release/make_release.go b/releasing/make_release/make_release.go
index 5f43b01..aeed18d 100644
--- a/releasing/make_release/make_release.go
+++ b/releasing/make_release/make_release.go
@@ -58,7 +58,7 @@ func run() error {
 	if root == "" {
 		r, err := os.Getwd()
 		if err != nil {
-			return nil
+			return err
 		}
 		root = r
 	}
-- 
2.43.0


From 6511f00115dab2044ecaaa4ab70170850a47787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 092/100] fix: make_release could not handle a --workspace that
 is a relative path

---
 releasing/make_release/make_release.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/releasing/make_release/make_release.go b/releasing/make_release/make_release.go
index aeed18d..1b206dc 100644
--- a/releasing/make_release/make_release.go
+++ b/releasing/make_release/make_release.go
@@ -62,6 +62,10 @@ func run() error {
 		}
 		root = r
 	}
+	root, err := filepath.Abs(root)
+	if err != nil {
+		return err
+	}
 	if err := os.Chdir(root); err != nil {
 		return err
 	}
-- 
2.43.0


From 4918e8299bddc667f338f8d16523d25362067d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 093/100] fix: make_release left the pages without the new
 files if --staging is a relative path

---
 releasing/make_release/make_release.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/releasing/make_release/make_release.go b/releasing/make_release/make_release.go
index 1b206dc..66a7522 100644
--- a/releasing/make_release/make_release.go
+++ b/releasing/make_release/make_release.go
@@ -66,6 +66,10 @@ func run() error {
 	if err != nil {
 		return err
 	}
+	staging, err := filepath.Abs(*stagingDir)
+	if err != nil {
+		return err
+	}
 	if err := os.Chdir(root); err != nil {
 		return err
 	}
@@ -103,10 +107,10 @@ func run() error {
 	// `bazel run //cmd/xtoproto_web"` and outputting the static files to a
 	// temporary directory, then copying those files back into a newly created
 	// branch of the repo for the gh-pages release.
-	if err := os.MkdirAll(*stagingDir, 0770); err != nil {
+	if err := os.MkdirAll(staging, 0770); err != nil {
 		return err
 	}
-	got, err := exec.Command("bazel", "run", "//cmd/xtoproto_web", "--", "--output_dir", *stagingDir).CombinedOutput()
+	got, err := exec.Command("bazel", "run", "//cmd/xtoproto_web", "--", "--output_dir", staging).CombinedOutput()
 	if err != nil {
 		return fmt.Errorf("error generating gh-pages content: %w/%s", err, string(got))
 	}
@@ -117,13 +121,13 @@ func run() error {
 	if err := runCmd(exec.Command("git", "checkout", ghPagesBranch)); err != nil {
 		return fmt.Errorf("failed to checkout gh pages branch: %w", err)
 	}
-	files, err := filepath.Glob(filepath.Join(*stagingDir, "*"))
+	files, err := filepath.Glob(filepath.Join(staging, "*"))
 	if err != nil {
 		return err
 	}
 	for _, f := range files {
 		if err := runCmd(exec.Command("cp", "-R", f, root+"/")); err != nil {
-			return fmt.Errorf("failed to copy %q to %q: %w", f, *stagingDir, err)
+			return fmt.Errorf("failed to copy %q to %q: %w", f, root, err)
 		}
 	}
 	fmt.Printf("Created release branch %s; push it to the main repository with the command\n   git push google %s\n", releaseBranch, *tag)
-- 
2.43.0


From 6ed349be4f460ea750d841b41f806091b70997d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 094/100] fix: make_release left the pages without the new
 files if the path of the staging directory has characters special in globs

---
 releasing/make_release/make_release.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/releasing/make_release/make_release.go b/releasing/make_release/make_release.go
index 66a7522..cccd83c 100644
--- a/releasing/make_release/make_release.go
+++ b/releasing/make_release/make_release.go
@@ -26,6 +26,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"io/ioutil"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -121,11 +122,12 @@ func run() error {
 	if err := runCmd(exec.Command("git", "checkout", ghPagesBranch)); err != nil {
 		return fmt.Errorf("failed to checkout gh pages branch: %w", err)
 	}
-	files, err := filepath.Glob(filepath.Join(staging, "*"))
+	files, err := ioutil.ReadDir(staging)
 	if err != nil {
 		return err
 	}
-	for _, f := range files {
+	for _, info := range files {
+		f := filepath.Join(staging, info.Name())
 		if err := runCmd(exec.Command("cp", "-R", f, root+"/")); err != nil {
 			return fmt.Errorf("failed to copy %q to %q: %w", f, root, err)
 		}
-- 
2.43.0


From 97ce6a2fa89a3d1fce5a4155d09b3f9864642fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 095/100] fix: generate_test_cases left out the document URLs
 of the negative tests and counted the positive ones for them

---
 .../generate_test_cases.go                    |  5 ++-
 rdf/rdfxml/rdftestcases/rdftestcases.go       | 43 ++++++++++++++++++-
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/rdf/rdfxml/generate_test_cases/generate_test_cases.go b/rdf/rdfxml/generate_test_cases/generate_test_cases.go
index c950b83..6a5ee8b 100644
--- a/rdf/rdfxml/generate_test_cases/generate_test_cases.go
+++ b/rdf/rdfxml/generate_test_cases/generate_test_cases.go
@@ -109,16 +109,17 @@ type NegativeParserCase struct {
 	}
 	code += fmt.Sprintf("var Positives = []PositiveParserCase{\n%s\n}\n\n", strings.Join(posStructStrings, "\n"))
 
-	code += fmt.Sprintf("// Negatives contains %d invalid examples of RDF/XML.\n", len(positives))
+	code += fmt.Sprintf("// Negatives contains %d invalid examples of RDF/XML.\n", len(negatives))
 	negStructStrings := []string{}
 	for _, t := range negatives {
 		negStructStrings = append(negStructStrings,
 			fmt.Sprintf(`  {
     Name:           %q,
     InputXML:       %q,
+    DocumentURL:    %q,
     Description:    %q,
   },`,
-				t.Name, t.InputXML, t.Description))
+				t.Name, t.InputXML, t.DocumentURL, t.Description))
 	}
 	code += fmt.Sprintf("var Negatives = []NegativeParserCase{\n%s\n}\n\n", strings.Join(negStructStrings, "\n"))
 
diff --git a/rdf/rdfxml/rdftestcases/rdftestcases.go b/rdf/rdfxml/rdftestcases/rdftestcases.go
index 1b752c2..a2d3b1f 100644
--- a/rdf/rdfxml/rdftestcases/rdftestcases.go
+++ b/rdf/rdfxml/rdftestcases/rdftestcases.go
@@ -803,211 +803,252 @@ var Positives = []PositiveParserCase{
   },
 }
 
-// Negatives contains 128 invalid examples of RDF/XML.
+// Negatives contains 41 invalid examples of RDF/XML.
 var Negatives = []NegativeParserCase{
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdf-containers-syntax-vs-schema/Manifest.rdf#error001",
     InputXML:       "<?xml version=\"1.0\"?>\r\n<!-- \tIssue: rdf-containers-syntax-vs-schema\r\n        Test:  error01\r\n        $Header: /w3ccvs/WWW/2000/10/rdf-tests/rdfcore/rdf-containers-syntax-vs-schema/error001.rdf,v 1.6 2001/09/06 21:23:35 barstow Exp $\r\n\r\n        rdf:li is not allowed as as an attribute\r\n-->\r\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  $Id: error001.rdf,v 1.6 2001/09/06 21:23:35 barstow Exp $\n-->\n\r\n\r\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\r\n         xmlns:foo=\"http://foo/\">\r\n\r\n  <foo:bar rdf:li=\"1\"/>\r\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdf-containers-syntax-vs-schema/error001.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdf-containers-syntax-vs-schema/Manifest.rdf#error002",
     InputXML:       "<?xml version=\"1.0\"?>\n<!-- \tIssue: rdf-containers-syntax-vs-schema\n        Test:  error002\n        $Header: /w3ccvs/WWW/2000/10/rdf-tests/rdfcore/rdf-containers-syntax-vs-schema/error002.rdf,v 1.4 2001/12/20 22:10:28 bmcbride Exp $\n\n        rdf:li elements as typed nodes - a bizarre case\nAs specified in\n\n  http://lists.w3.org/Archives/Public/w3c-rdfcore-wg/2001Nov/0651.html\n\nis now an error.\n-->\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  $Id: error002.rdf,v 1.4 2001/12/20 22:10:28 bmcbride Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n         xmlns:foo=\"http://foo/\">\n  <rdf:li/>\n</rdf:RDF>\n\n\n\n\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdf-containers-syntax-vs-schema/error002.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-abouteach/Manifest.rdf#error001",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue: http://www.w3.org/2000/03/rdf-tracking/#rdfms-abouteach\n  Test:  1 (error)\n  Author: Dave Beckett\n\n    aboutEach removed from the RDF specifications.\n    See URI above for further details.\n\n\n  $Id: error001.rdf,v 1.1 2002/04/05 23:01:15 dajobe Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n         xmlns:eg=\"http://example.org/\">\n\n  <rdf:Bag rdf:ID=\"node\">\n    <rdf:li rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Bag>\n\n  <rdf:Description rdf:aboutEach=\"#node\">\n    <dc:rights xmlns:dc=\"http://purl.org/dc/elements/1.1/\">me</dc:rights>\n  </rdf:Description>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-abouteach/error001.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-abouteach/Manifest.rdf#error002",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue: http://www.w3.org/2000/03/rdf-tracking/#rdfms-abouteach\n  Test:  2 (error)\n  Author: Dave Beckett\n\n    aboutEachPrefix removed from the RDF specifications.\n    See URI above for further details.\n\n\n  $Id: error002.rdf,v 1.1 2002/04/05 23:01:15 dajobe Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n         xmlns:eg=\"http://example.org/\">\n\n  <rdf:Description rdf:about=\"http://example.org/node\">\n    <eg:property>foo</eg:property>\n  </rdf:Description>\n\n  <rdf:Description rdf:aboutEachPrefix=\"http://example.org/\">\n    <dc:creator xmlns:dc=\"http://purl.org/dc/elements/1.1/\">me</dc:creator>\n  </rdf:Description>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-abouteach/error002.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-difference-between-ID-and-about/Manifest.rdf#error1",
     InputXML:       "<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  $Id: error1.rdf,v 1.2 2001/09/06 21:23:35 barstow Exp $\n-->\n<!-- \nBase URI: http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-difference-between-ID-and-about/error1.rdf\n\nThis is illegal RDF: two elements cannot use the same ID. \n-->\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n<rdf:Description rdf:ID=\"foo\">\n  <rdf:value>abc</rdf:value>\n</rdf:Description>\n<rdf:Description rdf:ID=\"foo\">\n  <rdf:value>abc</rdf:value>\n</rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-difference-between-ID-and-about/error1.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-empty-property-elements/Manifest.rdf#error001",
     InputXML:       "<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  $Id: error001.rdf,v 1.1 2001/09/10 14:31:48 barstow Exp $\n-->\n<!--\n\n Assumed base URI:\n\nhttp://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-empty-property-elements/error001.nrdf\n\n Description:\n\n This is not legal RDF; specifying an rdf:parseType of \"Literal\" and an\n rdf:resource attribute at the same time is an error.\n\n-->\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n  xmlns:random=\"http://random.ioctl.org/#\">\n\n<rdf:Description rdf:about=\"http://random.ioctl.org/#bar\">\n  <random:someProperty rdf:parseType=\"Literal\"\n    rdf:resource=\"http://random.ioctl.org/#foo\" />\n</rdf:Description>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-empty-property-elements/error001.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-empty-property-elements/Manifest.rdf#error002",
     InputXML:       "<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  $Id: error002.rdf,v 1.1 2001/09/10 14:33:09 barstow Exp $\n-->\n<!--\n\n Assumed base URI:\n\nhttp://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-empty-property-elements/error002.nrdf\n\n Description:\n\n This is not legal RDF; specifying an rdf:parseType of \"Literal\" and an\n rdf:resource attribute at the same time is an error.\n\n-->\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n  xmlns:random=\"http://random.ioctl.org/#\">\n\n<rdf:Description rdf:about=\"http://random.ioctl.org/#bar\">\n  <random:someProperty rdf:parseType=\"Literal\"\n    rdf:resource=\"http://random.ioctl.org/#foo\"></random:someProperty>\n</rdf:Description>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-empty-property-elements/error002.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-empty-property-elements/Manifest.rdf#error003",
     InputXML:       "<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  $Id: error003.rdf,v 1.1 2001/09/10 14:33:52 barstow Exp $\n-->\n<!--\n\n Assumed base URI:\n\nhttp://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-empty-property-elements/error003.nrdf\n\n Description:\n\n This is not legal RDF.\n From the original RDFMS document, paragraphs 229-234 and production [6.12],\n last clause: rdf:parseType=\"Literal\" is forbidden here since we're\n creating an additional resource node.\n\n See\nhttp://lists.w3.org/Archives/Public/www-archive/2001Jun/att-0021/00-part#229\n for details.\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n  xmlns:random=\"http://random.ioctl.org/#\">\n \n<rdf:Description rdf:about=\"http://random.ioctl.org/#bar\">\n  <random:someProperty random:prop2=\"baz\" rdf:parseType=\"Literal\" />\n</rdf:Description>\n</rdf:RDF>\n \n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-empty-property-elements/error003.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/Manifest.rdf#error001",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:ID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error001.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n\n <rdf:Description rdf:ID='333-555-666' />\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/error001.rdf",
     Description:    "\n\t  The value of rdf:ID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/Manifest.rdf#error002",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:ID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error002.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n\n <rdf:Description rdf:ID=\"_:xx\" />\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/error002.rdf",
     Description:    "\n\t  The value of rdf:ID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/Manifest.rdf#error003",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:ID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error003.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n         xmlns:eg=\"http://example.org/\">\n\n <rdf:Description>\n   <eg:prop rdf:ID=\"q:name\" />\n </rdf:Description>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/error003.rdf",
     Description:    "\n\t  The value of rdf:ID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/Manifest.rdf#error004",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:ID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error004.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n         xmlns:eg=\"http://example.org/\">\n\n <rdf:Description rdf:ID=\"a/b\" eg:prop=\"val\" />\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/error004.rdf",
     Description:    "\n\t  The value of rdf:ID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/Manifest.rdf#error005",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:ID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error005.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n         xmlns:eg=\"http://example.org/\">\n\n <!-- &#x301; is a non-spacing acute accent.\n      It is legal within an XML Name, but not as the first\n      character.     -->\n\n <rdf:Description rdf:ID=\"&#x301;bb\" eg:prop=\"val\" />\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/error005.rdf",
     Description:    "\n\t  The value of rdf:ID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/Manifest.rdf#error006",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:bagID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error006.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n\n <rdf:Description rdf:bagID='333-555-666' />\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/error006.rdf",
     Description:    "\n\t  The value of rdf:bagID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/Manifest.rdf#error007",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:bagID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error007.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n         xmlns:eg=\"http://example.org/\">\n\n <rdf:Description>\n   <eg:prop rdf:bagID=\"q:name\" />\n </rdf:Description>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-id/error007.rdf",
     Description:    "\n\t  The value of rdf:bagID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-001",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    RDF is forbidden as a node element name.\n\n  $Id: error-001.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:RDF/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-001.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-002",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    ID is forbidden as a node element name.\n\n  $Id: error-002.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:ID/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-002.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-003",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    about is forbidden as a node element name.\n\n  $Id: error-003.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:about/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-003.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-004",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    bagID is forbidden as a node element name.\n\n  $Id: error-004.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:bagID/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-004.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-005",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    parseType is forbidden as a node element name.\n\n  $Id: error-005.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:parseType/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-005.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-006",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    resource is forbidden as a node element name.\n\n  $Id: error-006.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:resource/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-006.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-007",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    nodeID is forbidden as a node element name.\n\n  $Id: error-007.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:nodeID/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-007.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-008",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    li is forbidden as a node element name.\n\n  $Id: error-008.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:li/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-008.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-009",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    aboutEach is forbidden as a node element name.\n\n  $Id: error-009.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:aboutEach/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-009.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-010",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    aboutEachPrefix is forbidden as a node element name.\n\n  $Id: error-010.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:aboutEachPrefix/>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-010.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-011",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    Description is forbidden as a property element name.\n\n  $Id: error-011.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:Description rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-011.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-012",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    RDF is forbidden as a property element name.\n\n  $Id: error-012.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:RDF rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-012.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-013",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    ID is forbidden as a property element name.\n\n  $Id: error-013.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:ID rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-013.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-014",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    about is forbidden as a property element name.\n\n  $Id: error-014.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:about rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-014.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-015",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    bagID is forbidden as a property element name.\n\n  $Id: error-015.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:bagID rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-015.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-016",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    parseType is forbidden as a property element name.\n\n  $Id: error-016.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:parseType rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-016.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-017",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    resource is forbidden as a property element name.\n\n  $Id: error-017.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:resource rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-017.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-018",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    nodeID is forbidden as a property element name.\n\n  $Id: error-018.rdf,v 1.2 2002/08/07 13:17:48 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:nodeID rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-018.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-019",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    aboutEach is forbidden as a property element name.\n\n  $Id: error-019.rdf,v 1.2 2002/08/07 13:17:49 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:aboutEach rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-019.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/Manifest.rdf#error-020",
     InputXML:       "<?xml version=\"1.0\"?>\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n  Issue http://www.w3.org/2000/03/rdf-tracking/#rdfms-rdf-names-use\n    Illegal or unusual use of names from the RDF namespace\n\n  Description: \n    aboutEachPrefix is forbidden as a property element name.\n\n  $Id: error-020.rdf,v 1.2 2002/08/07 13:17:49 dbeckett2 Exp $\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"http://example.org/node1\">\n    <rdf:aboutEachPrefix rdf:resource=\"http://example.org/node2\"/>\n  </rdf:Description>\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-rdf-names-use/error-020.rdf",
     Description:    "",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/Manifest.rdf#error001",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:nodeID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error001.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n\n <rdf:Description rdf:nodeID='333-555-666' />\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/error001.rdf",
     Description:    "\n\t  The value of rdf:nodeID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/Manifest.rdf#error002",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:nodeID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error002.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n\n <rdf:Description rdf:nodeID=\"_:bnode\" />\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/error002.rdf",
     Description:    "\n\t  The value of rdf:nodeID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/Manifest.rdf#error003",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  The value of rdf:nodeID must match the XML Name production,\n  (as modified by XML Namespaces). \n  $Id: error003.rdf,v 1.1 2002/07/30 09:45:51 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n         xmlns:eg=\"http://example.org/\">\n\n <rdf:Description>\n   <eg:prop rdf:nodeID=\"q:name\" />\n </rdf:Description>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/error003.rdf",
     Description:    "\n\t  The value of rdf:nodeID must match the XML Name production,\n        (as modified by XML Namespaces). \n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/Manifest.rdf#error004",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  Cannot have rdf:nodeID and rdf:ID.\n  $Id: error004.rdf,v 1.1 2002/08/03 05:32:32 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n\n <rdf:Description rdf:nodeID='a' rdf:ID='b'/>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/error004.rdf",
     Description:    "\n\t  Cannot have rdf:nodeID and rdf:ID.\n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/Manifest.rdf#error005",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  Cannot have rdf:nodeID and rdf:about\n  $Id: error005.rdf,v 1.1 2002/08/03 05:32:32 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n\n <rdf:Description rdf:nodeID=\"a\" rdf:about=\"http://example.org/\"/>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/error005.rdf",
     Description:    "\n\t  Cannot have rdf:nodeID and rdf:about.\n   ",
   },
   {
     Name:           "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/Manifest.rdf#error006",
     InputXML:       "<?xml version=\"1.0\"?>\n\n<!--\n  Copyright World Wide Web Consortium, (Massachusetts Institute of\n  Technology, Institut National de Recherche en Informatique et en\n  Automatique, Keio University).\n \n  All Rights Reserved.\n \n  Please see the full Copyright clause at\n  <http://www.w3.org/Consortium/Legal/copyright-software.html>\n\n-->\n<!--\n\n  Cannot have rdf:nodeID and rdf:resource.\n  $Id: error006.rdf,v 1.1 2002/08/03 05:32:31 jcarroll Exp $\n\n-->\n\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\"\n         xmlns:eg=\"http://example.org/\">\n\n <rdf:Description>\n   <eg:prop rdf:nodeID=\"a\" rdf:resource=\"http://www.example.org/\" />\n </rdf:Description>\n\n</rdf:RDF>\n",
+    DocumentURL:    "http://www.w3.org/2000/10/rdf-tests/rdfcore/rdfms-syntax-incomplete/error006.rdf",
     Description:    "\n\t  Cannot have rdf:nodeID and rdf:resource.\n   ",
   },
 }
-- 
2.43.0


From c7b106f523fbf4ae0a68634a23d63560f9f8e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 096/100] fix: sexpr read the carriage return of a CRLF line
 end as part of a symbol

---
 sexpr/sexpr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 0985f96..d29a567 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -149,7 +149,7 @@ func (fr *FormReader) readFormEvenTrivial() (Form, error) {
 	}
 
 	switch r {
-	case ' ', '\t', '\n':
+	case ' ', '\t', '\n', '\r':
 		return fr.readWhitespace()
 	case '"':
 		return fr.readString()
@@ -190,7 +190,7 @@ loop:
 			return nil, err
 		}
 		switch r {
-		case ' ', '\t', '\n':
+		case ' ', '\t', '\n', '\r':
 			literal.WriteRune(r)
 		default:
 			if err := fr.src.unreadRune(); err != nil {
@@ -308,7 +308,7 @@ loop:
 			return nil, err
 		}
 		switch r {
-		case ' ', '\t', '\n', ')', '(', '"':
+		case ' ', '\t', '\n', '\r', ')', '(', '"':
 			if err := fr.src.unreadRune(); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 36b7dbda57f5be77189eb0f1728a7ee5dd8c3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:39 +0000
Subject: [PATCH 097/100] fix: codegen gave imports like "x/2fa" or "x/type" a
 local name that is not a Go identifier

---
 codegen/codegen_imports.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/codegen/codegen_imports.go b/codegen/codegen_imports.go
index 0bd9ad3..930d2a2 100644
--- a/codegen/codegen_imports.go
+++ b/codegen/codegen_imports.go
@@ -3,6 +3,7 @@ package codegen
 
 import (
 	"fmt"
+	"go/token"
 	"path"
 	"strconv"
 	"strings"
@@ -105,6 +106,19 @@ func (i *Imports) suggestAliases(importPath string, callback func(alias string)
 		}
 	}
 
+	if name := preferredPackageName(""); !token.IsIdentifier(name) || name == blankAlias {
+		// Code cannot use the name, as of "x/2fa" or "x/type".
+		unusable := preferredPackageName
+		preferredPackageName = func(noise string) string {
+			return "pkg" + strings.Map(func(r rune) rune {
+				if notIdentifier(r) {
+					return -1
+				}
+				return r
+			}, unusable(noise))
+		}
+	}
+
 	for i := 1; ; i++ {
 		noise := ""
 		if i > 1 {
-- 
2.43.0


From 7d91a8083726072ede064d177babea634048858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 098/100] fix: sexpr reads +18446744073709551615 exactly

---
 sexpr/sexpr_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sexpr/sexpr_util.go b/sexpr/sexpr_util.go
index b5c941e..2ccb004 100644
--- a/sexpr/sexpr_util.go
+++ b/sexpr/sexpr_util.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"strings"
 )
 
 type number struct {
@@ -52,6 +53,13 @@ func parseNumber(s string) (*number, error) {
 	if err == nil {
 		return &number{int64: &i}, nil
 	}
+	if strings.HasPrefix(s, "+") {
+		// ParseUint takes no sign, and ParseInt no value beyond math.MaxInt64.
+		u, err := strconv.ParseUint(s[1:], 0, 64)
+		if err == nil {
+			return &number{uint64: &u}, nil
+		}
+	}
 	f, err := strconv.ParseFloat(s, 64)
 	if err == nil && (math.IsInf(f, 0) || math.IsNaN(f)) {
 		// The words that ParseFloat knows, like inf and nan, are symbols.
-- 
2.43.0


From a313c489871e353be7c78300c64a68491ac5a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:50 +0000
Subject: [PATCH 099/100] fix: the playground page shows generated code as the
 UTF-8 it is

---
 playground/index.html | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/playground/index.html b/playground/index.html
index 55bbb41..d4295ec 100644
--- a/playground/index.html
+++ b/playground/index.html
@@ -107,7 +107,9 @@
         }
 
         function setCode(id, obj) {
-            const contents = atob(obj['new_contents']);
+            // atob gives one character per byte of the UTF-8 text.
+            const bytes = Uint8Array.from(atob(obj['new_contents']), (c) => c.charCodeAt(0));
+            const contents = new TextDecoder('utf-8', { ignoreBOM: true }).decode(bytes);
             const name = obj['workspace_relative_path'];
             setTextContent(id, contents ? contents : '// no code available');
             setTextContent(id + '-filename', name ? name : '(unnamed file)');
-- 
2.43.0


From 57645ab7c15536368048d5a45fc5411b5f901cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 100/100] fix: the converter of an external repository's Bazel
 target goes where Bazel expects it

---
 cmd/xtoproto/xtoproto.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/xtoproto/xtoproto.go b/cmd/xtoproto/xtoproto.go
index 79a33b3..d160859 100644
--- a/cmd/xtoproto/xtoproto.go
+++ b/cmd/xtoproto/xtoproto.go
@@ -24,6 +24,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/google/xtoproto/service"
 	"google.golang.org/protobuf/encoding/prototext"
@@ -178,9 +179,15 @@ func runConverterCodeGen(ctx context.Context, s spb.XToProtoServiceServer) error
 	if err := prototext.Unmarshal(data, req); err != nil {
 		return err
 	}
+	// Below the root, a file of an external repository is at external/REPO/...,
+	// but its short path is ../REPO/...
+	outPath := br.ConverterGoOut.ShortPath
+	if prefix := br.ConverterGoOut.Root + "/"; strings.HasPrefix(br.ConverterGoOut.Path, prefix) {
+		outPath = strings.TrimPrefix(br.ConverterGoOut.Path, prefix)
+	}
 	req.Converter = &spb.GenerateCodeRequest_Converter{
-		Directory:        filepath.Dir(br.ConverterGoOut.ShortPath),
-		GoFileName:       filepath.Base(br.ConverterGoOut.ShortPath),
+		Directory:        filepath.Dir(outPath),
+		GoFileName:       filepath.Base(outPath),
 		UpdateBuildRules: false,
 	}
 	req.WorkspacePath = br.ConverterGoOut.Root
-- 
2.43.0

