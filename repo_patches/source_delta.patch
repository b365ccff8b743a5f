From afcd376eb936e7102d159f248f065030fffae881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 01/39] fix: unique output file names that stay unique and
 within the path limit

A numbered name could be that of another type's file, which was then
overwritten, an index of two digits could exceed the limit, and a limit
of 0 was refused instead of meaning no limit.
---
 internal/generator/gen.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 35d6d7a..a43b61a 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -60,8 +60,8 @@ func (limiter PathLengthLimiter) LimitPathLength(opts *options) {
 
 type data map[string]any
 
-// uniquePaths keeps track of all codes files that have been generated so far and adds an "_idx" suffix if the same path appears again
-var uniquePaths map[string]int
+// uniquePaths keeps track of all codes files that have been generated so far, an "_idx" suffix is added if the same path appears again
+var uniquePaths map[string]bool
 
 func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags ...Option) error {
 	opts := &options{
@@ -136,10 +136,10 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 
 func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (string, error) {
 	if uniquePaths == nil {
-		uniquePaths = make(map[string]int)
+		uniquePaths = make(map[string]bool)
 	}
 
-	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength < minLength {
+	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength > 0 && maxPathLength < minLength {
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
@@ -155,13 +155,21 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		}
 	}
 
-	if count, ok := uniquePaths[outputFile]; ok {
-		uniquePaths[outputFile]++
-		return fmt.Sprintf("%s_%d%s", outputFile, count, FileSuffix), nil
-	} else {
-		uniquePaths[outputFile] = 1
-		return fmt.Sprintf("%s%s", outputFile, FileSuffix), nil
+	uniqueFile := outputFile
+	for index := 1; uniquePaths[uniqueFile]; index++ {
+		suffix := fmt.Sprintf("_%d", index)
+		base := outputFile
+		if excess := len(base) + len(suffix) + len(FileSuffix) - maxPathLength; maxPathLength > 0 && excess > 0 {
+			// Leave space for an index with more than one digit.
+			if len(base)-excess < len(outputDir)+MinFileNameLength {
+				return "", fmt.Errorf("maximum path length %d is too short for a unique file name in the output directory", maxPathLength)
+			}
+			base = base[:len(base)-excess]
+		}
+		uniqueFile = base + suffix
 	}
+	uniquePaths[uniqueFile] = true
+	return uniqueFile + FileSuffix, nil
 }
 
 func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
-- 
2.43.0


From 6d1d71ed49780018deaff2c4ba362deaf3758d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 02/39] fix: assign output file names independently of map
 iteration order

---
 internal/generator/gen.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index a43b61a..d08d3a1 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -88,8 +88,11 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 		return generatePackage(rootPath, pkg, opts)
 	}
 
-	for _, pkg := range m.Packages {
-		if err := generatePackage(rootPath, pkg, opts); err != nil {
+	// The output file names depend on the order, so it needs to be stable.
+	names := maps.Keys(m.Packages)
+	sort.Strings(names)
+	for _, name := range names {
+		if err := generatePackage(rootPath, m.Packages[name], opts); err != nil {
 			return err
 		}
 	}
@@ -200,6 +203,7 @@ func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
 // output allows us easier passing of arguments to write packages.
 type output struct {
 	name         string // the name of the data structure that is output
+	typeName     string // the name of the type in the schema, different types may share the same name
 	template     string // template file name
 	data         data
 	withPreamble bool
@@ -247,7 +251,9 @@ func newTypeOutput(astType any, d data, withPreamble bool, opts *options) output
 		templateData[k] = v
 	}
 	templateData[typeName] = astType
-	return newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	o := newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	o.typeName = name
+	return o
 }
 
 func (o *output) executeTemplate(w io.Writer) error {
@@ -302,6 +308,9 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 
 	sort.Slice(outs, func(i, j int) bool {
 		if outs[i].template == outs[j].template {
+			if outs[i].name == outs[j].name {
+				return outs[i].typeName > outs[j].typeName
+			}
 			return outs[i].name > outs[j].name
 		}
 
-- 
2.43.0


From 41ff1756646793361f8c6de305b456b4c2ce0228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 03/39] fix: report an error when an output file cannot be
 closed

---
 internal/generator/gen.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index d08d3a1..e1c4635 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -132,9 +132,15 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 
 		_ = os.Remove(outputFile)
 	}()
-	defer f.Close()
 
-	return writeGoSource(f, code, opts.doNotFormatSource)
+	if err := writeGoSource(f, code, opts.doNotFormatSource); err != nil {
+		_ = f.Close()
+		return err
+	}
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("close: %w", err)
+	}
+	return nil
 }
 
 func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (string, error) {
-- 
2.43.0


From afdc56310b07dd0ba580316d6d1a81d377428fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 04/39] fix: refuse schema files with syntax errors instead of
 using the part that was understood

---
 internal/model/package.go | 43 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/internal/model/package.go b/internal/model/package.go
index 39b7b7a..c99871b 100644
--- a/internal/model/package.go
+++ b/internal/model/package.go
@@ -1,28 +1,67 @@
 package model
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr/v4"
 	"github.com/woven-planet/go-zserio/internal/ast"
 	"github.com/woven-planet/go-zserio/internal/parser"
 	"github.com/woven-planet/go-zserio/internal/visitor"
 )
 
+// ErrNoPackageName is returned for schema files that do not name their package.
+var ErrNoPackageName = errors.New("package name is missing")
+
+// SyntaxError is an error that was found in a schema file by the lexer or the
+// parser.
+type SyntaxError struct {
+	Line    int
+	Column  int
+	Message string
+}
+
+func (e SyntaxError) Error() string {
+	return fmt.Sprintf("line %d:%d %s", e.Line, e.Column, e.Message)
+}
+
+// errorListener keeps the first syntax error.
+type errorListener struct {
+	*antlr.DefaultErrorListener
+	err error
+}
+
+func (l *errorListener) SyntaxError(_ antlr.Recognizer, _ any, line, column int, msg string, _ antlr.RecognitionException) {
+	if l.err == nil {
+		l.err = SyntaxError{Line: line, Column: column, Message: msg}
+	}
+}
+
 func PackageFromFile(path string) (*ast.Package, error) {
 	input, err := antlr.NewFileStream(path)
 	if err != nil {
 		return nil, err
 	}
 
+	listener := &errorListener{DefaultErrorListener: antlr.NewDefaultErrorListener()}
 	lexer := parser.NewZserioLexer(input)
+	lexer.AddErrorListener(listener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewZserioParser(stream)
-	p.AddErrorListener(antlr.NewDiagnosticErrorListener(true))
+	p.AddErrorListener(listener)
 	tree := p.PackageDeclaration()
+	if listener.err != nil {
+		// The parser recovers from errors, but the tree is incomplete then.
+		return nil, fmt.Errorf("%s: %w", path, listener.err)
+	}
+	if ctx, ok := tree.(*parser.PackageDeclarationContext); ok && ctx.PackageNameDefinition() == nil {
+		return nil, fmt.Errorf("%s: %w", path, ErrNoPackageName)
+	}
 	visitor := &visitor.Visitor{}
 
 	switch v := visitor.Visit(tree).(type) {
 	case error:
-		return nil, err
+		return nil, v
 	case *ast.Package:
 		return v, nil
 	}
-- 
2.43.0


From 5962c2b05e4fcddbd2d97f4f40de345901449c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 05/39] fix: refuse a package that is declared by two files
 instead of dropping one of them

---
 internal/model/model.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/model/model.go b/internal/model/model.go
index 5255496..600a314 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -13,11 +13,15 @@ import (
 
 type Model struct {
 	Packages map[string]*ast.Package
+
+	// files has the name of the file that each package was read from.
+	files map[string]string
 }
 
 func NewModel() *Model {
 	return &Model{
 		Packages: map[string]*ast.Package{},
+		files:    map[string]string{},
 	}
 }
 
@@ -91,6 +95,12 @@ func (m *Model) parseFile(path string) error {
 		return err
 	}
 
+	path = filepath.Clean(path)
+	if other, found := m.files[pkg.Name]; found && other != path {
+		return fmt.Errorf("package %s is defined in both %s and %s", pkg.Name, other, path)
+	}
+	m.files[pkg.Name] = path
+
 	if err := pkg.CollectSymbols(); err != nil {
 		return err
 	}
-- 
2.43.0


From 17781054ca7293eff3f2e1f98d317eae4579d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 06/39] fix: instantiate the templates that are used by union
 fields

---
 internal/model/transform.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 3c58d54..6d1e43f 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -258,6 +258,32 @@ func (m *Model) InstantiateTemplates() error {
 			}
 		}
 
+		// instantiate all unions that have template fields
+		for _, union := range pkg.Unions {
+			// don't instantiate template unions
+			if len(union.TemplateParameters) > 0 {
+				continue
+			}
+			for _, field := range union.Fields {
+				if field.Type, err = m.instantiateType(
+					pkg,
+					field.Type,
+					field.Type.TemplateArguments,
+					""); // auto-generate a new name
+				err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: field.Name,
+						Err:   err,
+					}
+				}
+			}
+		}
+
 		// instantiate all choices that have template fields
 		for _, choice := range pkg.Choices {
 			// don't instantiate template choices
-- 
2.43.0


From 4bb3da8a0600b7d587338fb9f61e34d95686f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 07/39] fix: refuse packages that would define the same type in
 a shared output directory

---
 internal/generator/gen.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index e1c4635..207ce80 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -91,6 +91,9 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 	// The output file names depend on the order, so it needs to be stable.
 	names := maps.Keys(m.Packages)
 	sort.Strings(names)
+	if err := checkSharedDirectories(m, names); err != nil {
+		return err
+	}
 	for _, name := range names {
 		if err := generatePackage(rootPath, m.Packages[name], opts); err != nil {
 			return err
@@ -99,6 +102,22 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 	return nil
 }
 
+// checkSharedDirectories reports types that would be defined twice because
+// the names of their packages only differ in case, and share a directory.
+func checkSharedDirectories(m *model.Model, names []string) error {
+	definedIn := map[string]string{}
+	for _, name := range names {
+		for typeName := range m.Packages[name].LocalSymbols.TypeScope {
+			id := strings.ToLower(name) + "." + strings.Title(typeName)
+			if other, found := definedIn[id]; found && other != name {
+				return fmt.Errorf("packages %s and %s share an output directory and both define %s", other, name, typeName)
+			}
+			definedIn[id] = name
+		}
+	}
+	return nil
+}
+
 func executeTemplate(out io.Writer, tmpl string, data data) error {
 	templ := templates.Lookup(tmpl)
 	if templ == nil {
-- 
2.43.0


From 4258f33a5df75d55421f44ab5dfa520f036cdabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 08/39] fix: size code for enums over varint, varuint and
 varsize compiles

---
 internal/generator/templates/enum.go.tmpl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index d2dcd9b..ff4e364 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -2,6 +2,7 @@
 {{ $enum := .enum }}
 {{ $options := .options }}
 {{ $native := goNativeType $scope $enum.Type }}
+{{ $obj_with_cast := printf "%s(*v)" (goType $scope $enum.Type) }}
 
 {{ $enum.Comment }}
 type {{ $enum.Name }} {{ goType $scope $enum.Type }}
@@ -151,7 +152,7 @@ func (v *{{ $enum.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 {{- if not $native.Type.IsBuiltin }}
       panic("only builtin types supported")
 {{- else }}
-  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" "*v" "native" $native "isarray" false "isoptional" false }}
+  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $obj_with_cast "native" $native "isarray" false "isoptional" false }}
 {{- end }}
   return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From 4b2eb14a0b6afaee37687e3ace9fec2baa66e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 09/39] fix: report write errors of array elements

---
 ztype/array_encode.go        | 12 +++++++++---
 ztype/object_array_encode.go | 12 +++++++++---
 ztype/object_array_traits.go |  6 +++---
 ztype/packed_array_traits.go |  6 +++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index c3c9fca..a94a08d 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -25,7 +25,9 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				return err
 			}
 			for _, element := range array.RawArray {
-				packedTraits.InitContext(array.PackedContext, element)
+				if err = packedTraits.InitContext(array.PackedContext, element); err != nil {
+					return err
+				}
 			}
 		}
 		for index, element := range array.RawArray {
@@ -36,10 +38,14 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				array.ArrayTraits.Write(writer, element)
+				err = array.ArrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_encode.go b/ztype/object_array_encode.go
index c14343b..7112881 100644
--- a/ztype/object_array_encode.go
+++ b/ztype/object_array_encode.go
@@ -27,7 +27,9 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 			}
 
 			for index := 0; index < size; index++ {
-				packedTraits.InitContext(array.PackedContext, &elements[index])
+				if err = packedTraits.InitContext(array.PackedContext, &elements[index]); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -41,10 +43,14 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				arrayTraits.Write(writer, element)
+				err = arrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_traits.go b/ztype/object_array_traits.go
index 7085125..09d5dd4 100644
--- a/ztype/object_array_traits.go
+++ b/ztype/object_array_traits.go
@@ -8,7 +8,7 @@ type IPackedObjectArrayTraits[T any, PT zserio.PackableZserioType[T]] interface
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element PT) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element PT) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, element PT) error
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT) error
 }
 
 // ObjectArrayTraits is an array traits for zserio structs, choice, union or enum types
@@ -96,6 +96,6 @@ func (traits *ObjectArrayPackedTraits[T, PT]) Read(contextNode *zserio.PackingCo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) {
-	element.MarshalZserioPacked(contextNode, writer)
+func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) error {
+	return element.MarshalZserioPacked(contextNode, writer)
 }
diff --git a/ztype/packed_array_traits.go b/ztype/packed_array_traits.go
index 5adc9a7..777eec4 100644
--- a/ztype/packed_array_traits.go
+++ b/ztype/packed_array_traits.go
@@ -11,7 +11,7 @@ type IPackedArrayTraits[T any] interface {
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element T) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element T) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, index int) (T, error)
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error
 }
 
 // PackedArrayTraits is a wrapper around array traits used when the array is
@@ -51,6 +51,6 @@ func (traits *PackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) {
-	contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
+func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
+	return contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
 }
-- 
2.43.0


From aaa3f6e7e4fa5da663e718d9be84af948d07cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 10/39] fix: report a failed read of a packing descriptor

---
 ztype/delta_context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 69bcdba..0afd8ab 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -86,13 +86,18 @@ func (context *DeltaContext[T]) BitSizeOf(arrayTraits IArrayTraits[T], bitPositi
 // Read reads the next element of an array encoded using delta contexts.
 func (context *DeltaContext[T]) Read(arrayTraits IArrayTraits[T], reader zserio.Reader) (T, error) {
 	if !context.processingStarted {
+		if err := context.ReadDescriptor(reader); err != nil {
+			return arrayTraits.FromUint64(0), err
+		}
 		context.processingStarted = true
-		context.ReadDescriptor(reader)
 		return context.readUnpacked(arrayTraits, reader)
 	}
 	if !context.isPacked {
 		return context.readUnpacked(arrayTraits, reader)
 	}
+	if context.previousElement == nil {
+		context.previousElement = new(uint64)
+	}
 	if context.maxBitNumber > 0 {
 		delta, err := ReadSignedBits(reader, uint8(context.maxBitNumber+1))
 		if err != nil {
-- 
2.43.0


From d6c1f85a1b4b8135dac0502b00bb5cc8f497499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 11/39] fix: array traits of bit fields are not shared between
 element types and goroutines

---
 ztype/array_traits.go | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 5e5d196..616a655 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -102,29 +102,12 @@ type staticArrayTraits struct {
 	Int64     *SignedBitFieldArrayTraits[int64]
 }
 
-var (
-	mapSignedBitFieldArrayTraits []any = make([]any, 64)
-	mapBitFieldArrayTraits       []any = make([]any, 64)
-)
-
 func GetSignedBitFieldArrayTraits[T constraints.Signed](numBits uint8) *SignedBitFieldArrayTraits[T] {
-	traits := mapSignedBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &SignedBitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapSignedBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*SignedBitFieldArrayTraits[T])
+	return &SignedBitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArrayTraits[T] {
-	traits := mapBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &BitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*BitFieldArrayTraits[T])
+	return &BitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 // Float16ArrayTraits is an array trait implementation for float16 arrays.
-- 
2.43.0


From 142d0f422d28365628502785c71fa52963383349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 12/39] fix: bit fields refuse bit counts and array elements
 they cannot represent

---
 ztype/array_traits.go | 10 +++++-----
 ztype/bits_decode.go  |  7 +++++--
 ztype/bits_encode.go  | 11 +++++++++--
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 616a655..08b4d98 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -692,12 +692,12 @@ func (trait BitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, value T)
 }
 
 func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(value), err
 }
 
 func (trait BitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteUnsignedBits(writer, uint64(value), trait.NumBits)
 }
 
 func (trait BitFieldArrayTraits[T]) AsUint64(value T) uint64 {
@@ -753,12 +753,12 @@ func (trait SignedBitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, val
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
-	return T(fillUpperBits(value, trait.NumBits)), err
+	value, err := ReadSignedBits(reader, trait.NumBits)
+	return T(value), err
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteSignedBits(writer, int64(value), trait.NumBits)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) AsUint64(value T) uint64 {
diff --git a/ztype/bits_decode.go b/ztype/bits_decode.go
index c81eae2..960ad23 100644
--- a/ztype/bits_decode.go
+++ b/ztype/bits_decode.go
@@ -4,13 +4,16 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // ReadUnsignedBits reads an unsigned number with a given number of bits
 func ReadUnsignedBits(r zserio.Reader, bits uint8) (uint64, error) {
+	if bits == 0 || bits > 64 {
+		return 0, ErrInvalidBitCount
+	}
 	return r.ReadBits(bits)
 }
 
 // ReadSignedBits reads an signed number with a given number of bits
 func ReadSignedBits(r zserio.Reader, bits uint8) (int64, error) {
-	if bits > 64 {
-		panic("can not read more than 64 bits")
+	if bits == 0 || bits > 64 {
+		return 0, ErrInvalidBitCount
 	}
 
 	u, err := r.ReadBits(bits)
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index ad616a9..98ba952 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -10,8 +10,15 @@ import (
 // with a value that is larger than the number of bits allows for.
 var ErrValueOutOfBitRange = errors.New("value is out of range for the given number of bits")
 
+// ErrInvalidBitCount is returned when the number of bits of a bit field type is
+// outside of the range 1 to 64.
+var ErrInvalidBitCount = errors.New("number of bits must be between 1 and 64")
+
 // WriteUnsignedBits writes an unsigned number with a given number of bits
 func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
+	if bits == 0 || bits > 64 {
+		return ErrInvalidBitCount
+	}
 	if value > ((1 << bits) - 1) {
 		return ErrValueOutOfBitRange
 	}
@@ -20,8 +27,8 @@ func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 
 // WriteSignedBits writes an signed number with a given number of bits
 func WriteSignedBits(w zserio.Writer, value int64, bits uint8) error {
-	if bits > 64 {
-		panic("can not read more than 64 bits")
+	if bits == 0 || bits > 64 {
+		return ErrInvalidBitCount
 	}
 
 	var min int64 = -(1 << (bits - 1))
-- 
2.43.0


From 1717d75b550b158fe3943b8148c34295c4bc587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 13/39] fix: packed arrays refuse elements their type cannot
 represent

---
 ztype/delta_context.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 0afd8ab..3541e13 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -122,6 +122,10 @@ func (context *DeltaContext[T]) Write(arrayTraits IArrayTraits[T], writer zserio
 	if !context.isPacked {
 		return context.writeUnpacked(arrayTraits, writer, element)
 	}
+	// A delta can also reach values that are not part of the element type.
+	if err := arrayTraits.Write(discardWriter{}, element); err != nil {
+		return err
+	}
 	if context.maxBitNumber > 0 {
 		delta := arrayTraits.AsUint64(element) - *context.previousElement
 		err := writer.WriteBits(delta, uint8(context.maxBitNumber+1))
@@ -219,3 +223,14 @@ func (context *DeltaContext[T]) writeUnpacked(arrayTraits IArrayTraits[T], write
 func bitsizeOfUnpacked[T any](arrayTraits IArrayTraits[T], element T) int {
 	return arrayTraits.BitSizeOf(element, 0)
 }
+
+// discardWriter accepts everything that is written to it. It is used to find
+// out if a value can be represented in the unpacked format.
+type discardWriter struct{}
+
+func (discardWriter) Write(p []byte) (int, error)             { return len(p), nil }
+func (discardWriter) WriteByte(b byte) error                  { return nil }
+func (discardWriter) WriteBits(r uint64, n uint8) error       { return nil }
+func (discardWriter) WriteBitsUnsafe(r uint64, n uint8) error { return nil }
+func (discardWriter) WriteBool(b bool) error                  { return nil }
+func (discardWriter) Align(boundary uint8) (int64, error)     { return 0, nil }
-- 
2.43.0


From bc7d0dc0b6ba68ad825082bf23ffd5bce54f7c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 14/39] fix: array element and array length sizes match what is
 written

---
 ztype/array.go        |  4 ++--
 ztype/array_traits.go | 20 ++++++++++++++------
 ztype/object_array.go |  4 ++--
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index e5ab568..90da332 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -42,7 +42,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -74,7 +74,7 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 08b4d98..e417fe0 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -273,7 +273,7 @@ func (trait VarIntArrayTraits) NeedsReadIndex() bool {
 func (trait VarIntArrayTraits) BitSizeOf(element int64, endBitPosition int) int {
 	// the bit size of a VarInt only depends on the value, not on the position
 	// in the stream. endBitPosition is therefore ignored.
-	bitSize, _ := SignedBitSize(element, 8)
+	bitSize, _ := SignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -457,7 +457,7 @@ func (trait VarUInt16ArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUInt16ArrayTraits) BitSizeOf(element uint16, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(uint64(element), 4)
+	bitSize, _ := UnsignedBitSize(uint64(element), 2)
 	return bitSize
 }
 
@@ -592,7 +592,7 @@ func (trait VarUIntArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUIntArrayTraits) BitSizeOf(element uint64, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(element, 8)
+	bitSize, _ := UnsignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -841,7 +841,7 @@ func (trait StringArrayTraits) NeedsReadIndex() bool {
 
 func (trait StringArrayTraits) BitSizeOf(element string, endBitPosition int) int {
 	byteLength := len(element)
-	bitSizeOfLength, err := SignedBitSize(int64(byteLength), 4)
+	bitSizeOfLength, err := UnsignedBitSize(uint64(byteLength), 5)
 	if err != nil {
 		return 0
 	}
@@ -892,7 +892,11 @@ func (trait BitBufferArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BitBufferArrayTraits) BitSizeOf(element *ExternType, endBitPosition int) int {
-	return int(element.BitSize)
+	bitSizeOfLength, err := UnsignedBitSize(element.BitSize, 5)
+	if err != nil {
+		return 0
+	}
+	return bitSizeOfLength + int(element.BitSize)
 }
 
 func (trait BitBufferArrayTraits) InitializeOffsets(bitPosition int, value *ExternType) int {
@@ -936,7 +940,11 @@ func (trait BytesArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BytesArrayTraits) BitSizeOf(element *BytesType, endBitPosition int) int {
-	return int(element.ByteSize) * 8
+	bitSizeOfLength, err := UnsignedBitSize(element.ByteSize, 5)
+	if err != nil {
+		return 0
+	}
+	return bitSizeOfLength + int(element.ByteSize)*8
 }
 
 func (trait BytesArrayTraits) InitializeOffsets(bitPosition int, value *BytesType) int {
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 29012b6..54603de 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -29,7 +29,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -64,7 +64,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From ffff2755b36785c52401bbfe8e8a5cefded61711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 15/39] fix: varint64 refuses the smallest int64 instead of
 writing zero

---
 ztype/varint_encode.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ztype/varint_encode.go b/ztype/varint_encode.go
index e2dd79c..e3dda8b 100644
--- a/ztype/varint_encode.go
+++ b/ztype/varint_encode.go
@@ -80,6 +80,13 @@ func writeVarInt(w zserio.Writer, v int64, maxBytes int) error {
 func SignedBitSize(v int64, maxBytes int) (int, error) {
 	// Unlike the Python zserio version this version is generic and does
 	// not need a per-type table, but still gets identical performance.
+	if v == MinInt64 {
+		// Only varint is able to represent this value, it uses a reserved byte.
+		if maxBytes < 9 {
+			return 0, ErrOutOfBounds
+		}
+		return 8, nil
+	}
 	if v < 0 {
 		v = -v
 	}
-- 
2.43.0


From 8972c5f649dfd2574f8eadde1c70f9e1b69b2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 16/39] fix: bit sizes of arrays of constant size elements and
 of packed arrays

---
 ztype/array.go        | 18 +++++++++++++++---
 ztype/object_array.go | 24 ++++++++++++++++++++----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index 90da332..ae8fb9a 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -37,8 +37,11 @@ func (array *Array[T, Y]) Size() int {
 	return len(array.RawArray)
 }
 
-// ZserioBitSize returns the total size of the unpacked array in bits.
+// ZserioBitSize returns the total size of the array in bits.
 func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
+	if array.IsPacked {
+		return array.ZserioBitSizePacked(bitPosition)
+	}
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
@@ -51,7 +54,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	if array.ArrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy T
 		elementSize := array.ArrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
@@ -82,12 +85,21 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	}
 	if size > 0 {
 		packedTraits := array.ArrayTraits.PackedTraits()
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for _, element := range array.RawArray {
+			if err = packedTraits.InitContext(packedContext, element); err != nil {
+				return 0, err
+			}
+		}
 
 		for _, element := range array.RawArray {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, element)
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, element)
 			if err != nil {
 				return 0, err
 			}
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 54603de..1b30b07 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -24,8 +24,11 @@ type ObjectArray[T any, PT zserio.PackableZserioType[T]] struct {
 	IsPacked bool
 }
 
-// ZserioBitSize returns the total size of the unpacked object array in bits.
+// ZserioBitSize returns the total size of the object array in bits.
 func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (int, error) {
+	if array.IsPacked {
+		return array.ZserioBitSizePacked(elements, bitPosition)
+	}
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
@@ -41,7 +44,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	if arrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy PT
 		elementSize := arrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
@@ -53,7 +56,11 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			endBitPosition += arrayTraits.BitSizeOf(&elements[i], endBitPosition)
+			delta, err := PT(&elements[i]).ZserioBitSize(endBitPosition)
+			if err != nil {
+				return 0, err
+			}
+			endBitPosition += delta
 		}
 	}
 	return endBitPosition - bitPosition, nil
@@ -73,12 +80,21 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	if size > 0 {
 		arrayTraits := ObjectArrayTraits[T, PT]{}
 		packedTraits := arrayTraits.PackedTraits()
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for i := 0; i < size; i++ {
+			if err = packedTraits.InitContext(packedContext, &elements[i]); err != nil {
+				return 0, err
+			}
+		}
 
 		for i := 0; i < size; i++ {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, &elements[i])
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, &elements[i])
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From 8ed4ee2bac0d65df7d9f189689e052ec27926689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 17/39] fix: memory for announced sizes grows with the data
 that is read

---
 ztype/array_decode.go        |  8 +++++++-
 ztype/bytes_decode.go        | 32 ++++++++++++++++++++++++++------
 ztype/extern_decode.go       | 15 +++------------
 ztype/object_array_decode.go | 14 ++++++++++++--
 ztype/string_decode.go       | 10 +++-------
 5 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 36f7c89..9320bc1 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -1,6 +1,8 @@
 package ztype
 
 import (
+	"errors"
+
 	zserio "github.com/woven-planet/go-zserio"
 )
 
@@ -16,7 +18,11 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 		arraySize = int(u64ReadSize)
 	}
 
-	array.RawArray = make([]T, 0, arraySize)
+	if arraySize < 0 {
+		return errors.New("array size is negative")
+	}
+
+	array.RawArray = make([]T, 0, min(arraySize, maxInitialElements))
 
 	if arraySize > 0 {
 		var err error
diff --git a/ztype/bytes_decode.go b/ztype/bytes_decode.go
index af443d9..91e820a 100644
--- a/ztype/bytes_decode.go
+++ b/ztype/bytes_decode.go
@@ -1,7 +1,6 @@
 package ztype
 
 import (
-	"errors"
 	"io"
 
 	zserio "github.com/woven-planet/go-zserio"
@@ -16,13 +15,34 @@ func ReadBytes(r zserio.Reader) (*BytesType, error) {
 		return nil, err
 	}
 
-	b.Buffer = make([]byte, b.ByteSize)
-	n, err := io.ReadFull(r, b.Buffer)
+	b.Buffer, err = readBuffer(r, b.ByteSize)
 	if err != nil {
 		return nil, err
 	}
-	if n != int(b.ByteSize) {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	return b, nil
 }
+
+// These constants limit the memory that is allocated just because a size was
+// announced.
+const (
+	maxInitialSize     = 4096 // bytes
+	maxInitialElements = 64   // array elements
+)
+
+// readBuffer reads size bytes. The size is part of the data and might be wrong,
+// the buffer therefore only grows along with the bytes that have been read.
+func readBuffer(r io.Reader, size uint64) ([]byte, error) {
+	buf := make([]byte, 0, min(size, maxInitialSize))
+	for uint64(len(buf)) < size {
+		start := len(buf)
+		grow := min(size-uint64(start), uint64(start)+maxInitialSize)
+		buf = append(buf, make([]byte, grow)...)
+		if _, err := io.ReadFull(r, buf[start:]); err != nil {
+			if err == io.EOF && start > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return nil, err
+		}
+	}
+	return buf, nil
+}
diff --git a/ztype/extern_decode.go b/ztype/extern_decode.go
index f3aea2c..95edaa6 100644
--- a/ztype/extern_decode.go
+++ b/ztype/extern_decode.go
@@ -1,11 +1,6 @@
 package ztype
 
-import (
-	"errors"
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadExtern reads an zserio extern type (variable size bitbuffer) from a reader.
 func ReadExtern(r zserio.Reader) (*ExternType, error) {
@@ -15,17 +10,13 @@ func ReadExtern(r zserio.Reader) (*ExternType, error) {
 	if err != nil {
 		return nil, err
 	}
-	numOfFullBytes := int(e.BitSize / 8)
+	numOfFullBytes := e.BitSize / 8
 	remainingBits := uint8(e.BitSize % 8)
 
-	e.Buffer = make([]byte, numOfFullBytes, numOfFullBytes+1)
-	n, err := io.ReadFull(r, e.Buffer)
+	e.Buffer, err = readBuffer(r, numOfFullBytes)
 	if err != nil {
 		return nil, err
 	}
-	if n != numOfFullBytes {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	if remainingBits != 0 {
 		lastByte, err := r.ReadBits(remainingBits)
 		if err != nil {
diff --git a/ztype/object_array_decode.go b/ztype/object_array_decode.go
index 096a32e..1483e20 100644
--- a/ztype/object_array_decode.go
+++ b/ztype/object_array_decode.go
@@ -1,6 +1,10 @@
 package ztype
 
-import zserio "github.com/woven-planet/go-zserio"
+import (
+	"errors"
+
+	zserio "github.com/woven-planet/go-zserio"
+)
 
 // UnmarshalZserio reads an array of structs from a bit reader, in either packed or unpacked configuration.
 func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, error) {
@@ -14,7 +18,11 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		arraySize = int(u64ReadSize)
 	}
 
-	result := make([]T, arraySize)
+	if arraySize < 0 {
+		return nil, errors.New("array size is negative")
+	}
+
+	result := make([]T, 0, min(arraySize, maxInitialElements))
 	arrayTraits := ObjectArrayTraits[T, PT]{}
 
 	if arraySize > 0 {
@@ -32,6 +40,8 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		}
 
 		for index := 0; index < arraySize; index++ {
+			var zero T
+			result = append(result, zero)
 			element = &result[index]
 			if array.SetCompoundParameterFn != nil {
 				array.SetCompoundParameterFn(index, element)
diff --git a/ztype/string_decode.go b/ztype/string_decode.go
index 8020e9f..a8b4c45 100644
--- a/ztype/string_decode.go
+++ b/ztype/string_decode.go
@@ -1,10 +1,6 @@
 package ztype
 
-import (
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadString reads a string from the bitstream.
 func ReadString(r zserio.Reader) (string, error) {
@@ -12,8 +8,8 @@ func ReadString(r zserio.Reader) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	buf := make([]byte, size)
-	if _, err = io.ReadFull(r, buf); err != nil {
+	buf, err := readBuffer(r, size)
+	if err != nil {
 		return "", err
 	}
 	return string(buf), nil
-- 
2.43.0


From 8dcbe46d9c0899c2fa9e5f736a34aff09401ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 18/39] fix: refuse extern and bytes values whose size does not
 match their buffer

---
 ztype/bytes_encode.go  |  9 ++++++++-
 ztype/extern_encode.go | 17 ++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 656128d..3b5869c 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -1,9 +1,16 @@
 package ztype
 
-import zserio "github.com/woven-planet/go-zserio"
+import (
+	"errors"
+
+	zserio "github.com/woven-planet/go-zserio"
+)
 
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
+	if uint64(len(b.Buffer)) != b.ByteSize {
+		return errors.New("byte size does not match the size of the buffer")
+	}
 	if err := WriteVarsize(w, b.ByteSize); err != nil {
 		return err
 	}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 52f77df..da58d9f 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -1,16 +1,27 @@
 package ztype
 
-import zserio "github.com/woven-planet/go-zserio"
+import (
+	"errors"
+
+	zserio "github.com/woven-planet/go-zserio"
+)
 
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
+	numOfFullBytes := e.BitSize / 8
+	remainingBits := uint8(e.BitSize % 8)
+	numOfBytes := numOfFullBytes
+	if remainingBits != 0 {
+		numOfBytes++
+	}
+	if uint64(len(e.Buffer)) != numOfBytes {
+		return errors.New("bit size does not match the size of the buffer")
+	}
 	if err := WriteVarsize(w, e.BitSize); err != nil {
 		return err
 	}
 
 	// write full bytes
-	numOfFullBytes := e.BitSize / 8
-	remainingBits := uint8(e.BitSize % 8)
 	if _, err := w.Write(e.Buffer[0:numOfFullBytes]); err != nil {
 		return err
 	}
-- 
2.43.0


From 832f5fbf763755e65b5d6e7f462c04d776e09253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 19/39] fix: arrays of elements that cannot be packed are
 written unpacked

---
 internal/generator/templates/array_init.go.tmpl             | 3 ++-
 internal/generator/templates/packing_context_decode.go.tmpl | 2 +-
 internal/generator/templates/packing_context_encode.go.tmpl | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/generator/templates/array_init.go.tmpl b/internal/generator/templates/array_init.go.tmpl
index c8406a6..333047c 100644
--- a/internal/generator/templates/array_init.go.tmpl
+++ b/internal/generator/templates/array_init.go.tmpl
@@ -12,7 +12,8 @@
     {{ $field.Name }}ArrayProperties.ArrayTraits = *{{ template "instantiate_array_traits.go.tmpl" dict "pkg" $scope "type" $native.Type }}
 {{- end }}
 
-{{- if $field.Array.IsPacked }}
+{{- /* Only elements that can be delta packed, or objects that pack their fields, support packing. */}}
+{{- if and $field.Array.IsPacked (or $native.IsMarshaler (isDeltaPackable $scope $native.Type)) }}
     {{ $field.Name }}ArrayProperties.IsPacked = true
 {{- end }}
 {{- if $field.Array.Length }}
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 49fb863..b754d14 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -55,7 +55,7 @@
 {{- template "decode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $assign_str_lvalue "native" $native }}
 
 {{- if $field.Array }}
-    {{- if not $field.Array.IsPacked }}
+    {{- if and (not $field.Array.IsPacked) (or $native.IsMarshaler (isDeltaPackable $scope $native.Type)) }}
         // This array is implicitly packed, because its parent object is packed
         {{ $field.Name }}ArrayProperties.IsPacked = true
     {{- end }}
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 9222412..acf3d7b 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -49,7 +49,7 @@
 
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
-    {{- if not $field.Array.IsPacked }}
+    {{- if and (not $field.Array.IsPacked) (or $native.IsMarshaler (isDeltaPackable $scope $native.Type)) }}
         // This array is implicitly packed, because its parent object is packed
         {{ $field.Name }}ArrayProperties.IsPacked = true
     {{- end }}
-- 
2.43.0


From 59c5c7a0d766f822c62107b773b88b663bd745ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 20/39] fix: generated bit sizes count arrays, packed fields,
 extern and bytes as written

---
 .../generator/templates/bitsizeof.go.tmpl     |  2 ++
 .../templates/builtin_bitsizeof.go.tmpl       |  4 ++--
 .../templates/packing_context_bitsize.go.tmpl | 22 +++++++++++++++----
 ztype/array_traits.go                         | 14 ++++--------
 ztype/bytes_encode.go                         | 10 +++++++++
 ztype/extern_encode.go                        | 10 +++++++++
 6 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index e0c685c..3156b7a 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -41,6 +41,8 @@
         for _, element := range {{ $name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
         {{- end }}
     {{- end }}
     {{- $name = $field.Name }}
diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index 4c6eeab..d45c3ca 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -22,8 +22,6 @@
         {{- else if eq $native.Type.Name "float16" }} endBitPosition += 16
         {{- else if eq $native.Type.Name "float32" }} endBitPosition += 32
         {{- else if eq $native.Type.Name "float64" }} endBitPosition += 64
-        {{- else if eq $native.Type.Name "extern" }} endBitPosition += int({{ $name }}.BitSize)
-        {{- else if eq $native.Type.Name "bytes" }} endBitPosition += 8 * int({{ $name }}.ByteSize)
         {{- else }}
             if delta, err := 
             {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize({{ $name }}, 9)
@@ -36,6 +34,8 @@
             {{- else if eq $native.Type.Name "varint32" }} ztype.SignedBitSize(int64({{ $name }}), 4)
             {{- else if eq $native.Type.Name "varint64" }} ztype.SignedBitSize({{ $name }}, 8)
             {{- else if eq $native.Type.Name "string" }} ztype.BitSizeOfString({{ $name }})
+            {{- else if eq $native.Type.Name "extern" }} ztype.BitSizeOfExtern({{ $name }})
+            {{- else if eq $native.Type.Name "bytes" }} ztype.BitSizeOfBytes({{ $name }})
             {{- end }}; err != nil {
                 return 0, err
             } else {
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index cf25cf7..9a8304a 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,8 +18,8 @@
     {{- end }}
 {{- end }}
 
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- if $field.OptionalClause }}
+    if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
 
 {{- if $field.IsOptional}}
@@ -27,13 +27,22 @@
     if v.{{ $field.Name }} != nil {
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
+
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
     
+    {{- if and (not $field.Array.IsPacked) (or $native.IsMarshaler (isDeltaPackable $scope $native.Type)) }}
+        // This array is implicitly packed, because its parent object is packed
+        {{ $field.Name }}ArrayProperties.IsPacked = true
+    {{- end }}
+
     {{- $traits := goArrayTraits $scope $native.Type }}
     {{- if eq $traits "ztype.ObjectArrayTraits" }}
-        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked({{if $field.IsOptional}}*{{ end }}v.{{ $field.Name }}, endBitPosition); err != nil {
+        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSize({{if $field.IsOptional}}*{{ end }}v.{{ $field.Name }}, endBitPosition); err != nil {
     {{- else }}
         {{- if $native.IsMarshaler }}
         for index := range {{ $field_name }} {
@@ -43,9 +52,11 @@
         for _, element := range {{ $field_name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
         {{- end }}
 
-        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked(endBitPosition); err != nil {
+        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSize(endBitPosition); err != nil {
     {{- end }}
         return 0, err
     } else {
@@ -79,3 +90,6 @@
 {{- if $field.IsOptional}}
     }
 {{- end }}
+{{- if $field.OptionalClause }}
+    }
+{{- end }}
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index e417fe0..cf57fd4 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -892,11 +892,8 @@ func (trait BitBufferArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BitBufferArrayTraits) BitSizeOf(element *ExternType, endBitPosition int) int {
-	bitSizeOfLength, err := UnsignedBitSize(element.BitSize, 5)
-	if err != nil {
-		return 0
-	}
-	return bitSizeOfLength + int(element.BitSize)
+	bitSize, _ := BitSizeOfExtern(element)
+	return bitSize
 }
 
 func (trait BitBufferArrayTraits) InitializeOffsets(bitPosition int, value *ExternType) int {
@@ -940,11 +937,8 @@ func (trait BytesArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BytesArrayTraits) BitSizeOf(element *BytesType, endBitPosition int) int {
-	bitSizeOfLength, err := UnsignedBitSize(element.ByteSize, 5)
-	if err != nil {
-		return 0
-	}
-	return bitSizeOfLength + int(element.ByteSize)*8
+	bitSize, _ := BitSizeOfBytes(element)
+	return bitSize
 }
 
 func (trait BytesArrayTraits) InitializeOffsets(bitPosition int, value *BytesType) int {
diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 3b5869c..e594fc9 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -6,6 +6,16 @@ import (
 	zserio "github.com/woven-planet/go-zserio"
 )
 
+// BitSizeOfBytes returns the zserio bit size of a bytes value.
+func BitSizeOfBytes(b *BytesType) (int, error) {
+	// the size of the buffer is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(b.ByteSize)*8, nil
+}
+
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
 	if uint64(len(b.Buffer)) != b.ByteSize {
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index da58d9f..40cc468 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -6,6 +6,16 @@ import (
 	zserio "github.com/woven-planet/go-zserio"
 )
 
+// BitSizeOfExtern returns the zserio bit size of an extern value.
+func BitSizeOfExtern(e *ExternType) (int, error) {
+	// the size of the buffer is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(e.BitSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(e.BitSize), nil
+}
+
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
 	numOfFullBytes := e.BitSize / 8
-- 
2.43.0


From c1a554c468a669eef157034b6e063643bd604011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 21/39] fix: unions are packed, and their choice tag follows
 the zserio format

---
 internal/generator/templates/union.go.tmpl | 116 +++++++++++++++++++--
 1 file changed, 110 insertions(+), 6 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 6db8759..cf6d79d 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -31,12 +31,32 @@ func (v *{{ $union.Name}}) LoadDefaultValues() error {
   return nil
 }
 
+// choiceTag returns the tag of the chosen field in the zserio stream, which
+// starts counting at zero.
+func (v *{{ $union.Name}}) choiceTag() (uint64, error) {
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, fmt.Errorf("invalid choice %d for union {{ $union.Name }}", v.UnionChoice)
+  }
+  return uint64(v.UnionChoice) - 1, nil
+}
+
+func (v *{{ $union.Name}}) setChoiceTag(tag uint64) error {
+  if tag >= {{ len $union.Fields }} {
+    return fmt.Errorf("invalid choice tag %d for union {{ $union.Name }}", tag)
+  }
+  v.UnionChoice = {{ $union.Name }}UnionChoiceType(tag + 1)
+  return nil
+}
+
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
-  err := ztype.WriteVarsize(w, uint64(v.UnionChoice))
+  choiceTag, err := v.choiceTag()
   if err != nil {
     return err
   }
+  if err = ztype.WriteVarsize(w, choiceTag); err != nil {
+    return err
+  }
 {{- range $field := $union.Fields }}
   if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
 {{template "encode.go.tmpl" dict "pkg" $scope "field" $field }}
@@ -51,7 +71,9 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
     if err != nil {
        return err
     }
-    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice)
+    if err = v.setChoiceTag(unionChoice); err != nil {
+       return err
+    }
 
 {{- range $field := $union.Fields }}
    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
@@ -66,7 +88,11 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice), 5); err != nil {
+  choiceTag, err := v.choiceTag()
+  if err != nil {
+    return 0, err
+  }
+  if delta, err := ztype.UnsignedBitSize(choiceTag, 5); err != nil {
     return 0, err
   } else {
     endBitPosition += delta
@@ -81,27 +107,84 @@ func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 
 
 func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
+  contextNode.AddChild(&zserio.PackingContextNode{Context: &ztype.DeltaContext[uint64]{}})
 {{- range $field := $union.Fields }}
   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
 {{- end}}
   return nil
 }
 
+// choiceTagContext returns the context used to pack the choice tags.
+func (v *{{ $union.Name}}) choiceTagContext(contextNode *zserio.PackingContextNode) (*ztype.DeltaContext[uint64], error) {
+  choiceTagContext, ok := contextNode.GetChildren()[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return nil, errors.New("invalid packing context")
+  }
+  return choiceTagContext, nil
+}
+
 func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
     childrenNodes := contextNode.GetChildren()
+    choiceTagContext, err := v.choiceTagContext(contextNode)
+    if err != nil {
+      return err
+    }
+    choiceTag, err := v.choiceTag()
+    if err != nil {
+      return err
+    }
+    choiceTagContext.Init(ztype.ArrayTraits.VarSize, choiceTag)
     _ = childrenNodes // to avoid "declared but not used" warning
 {{- range $index, $field := $union.Fields }}
-  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
 {{- end}}
   return nil
 }
 
 func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
+    childrenNodes := contextNode.GetChildren()
+    choiceTagContext, err := v.choiceTagContext(contextNode)
+    if err != nil {
+      return err
+    }
+    choiceTag, err := choiceTagContext.Read(ztype.ArrayTraits.VarSize, r)
+    if err != nil {
+      return err
+    }
+    if err = v.setChoiceTag(choiceTag); err != nil {
+      return err
+    }
+    _ = childrenNodes // to avoid "declared but not used" warning
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
   return nil
 }
 
 
-func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Writer) error {
+func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+    childrenNodes := contextNode.GetChildren()
+    choiceTagContext, err := v.choiceTagContext(contextNode)
+    if err != nil {
+      return err
+    }
+    choiceTag, err := v.choiceTag()
+    if err != nil {
+      return err
+    }
+    if err = choiceTagContext.Write(ztype.ArrayTraits.VarSize, w, choiceTag); err != nil {
+      return err
+    }
+    _ = childrenNodes // to avoid "declared but not used" warning
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{ template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
   return nil
 }
 
@@ -110,5 +193,26 @@ func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pac
 }
 
 func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
-  return 0, nil
+  endBitPosition := bitPosition
+  childrenNodes := contextNode.GetChildren()
+  choiceTagContext, err := v.choiceTagContext(contextNode)
+  if err != nil {
+    return 0, err
+  }
+  choiceTag, err := v.choiceTag()
+  if err != nil {
+    return 0, err
+  }
+  delta, err := choiceTagContext.BitSizeOf(ztype.ArrayTraits.VarSize, endBitPosition, choiceTag)
+  if err != nil {
+    return 0, err
+  }
+  endBitPosition += delta
+  _ = childrenNodes // to avoid "declared but not used" warning
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
+  return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From 2ff7e8e1e553a1de7eb791db1ad4126c9504104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 22/39] fix: choices handle every case label and refuse unknown
 selectors

---
 internal/generator/templates/choice.go.tmpl | 37 ++++++++++++++++-----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 21873d1..6539c26 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -38,8 +38,8 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
+  case {{ range $i, $label := .Conditions }}{{ if $i }}, {{ end }}{{ $label.Condition.ResultIntValue }}{{ end }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -48,6 +48,9 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   default:
    {{- template "encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
+{{- else }}
+  default:
+    return fmt.Errorf("invalid selector %v for choice {{ $choice.Name }}", v.{{ $expr.ResultSymbol.Symbol.Name }})
 {{- end }}
   }
   _ = err // to avoid "declared but not used" warning
@@ -59,8 +62,8 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
+  case {{ range $i, $label := .Conditions }}{{ if $i }}, {{ end }}{{ $label.Condition.ResultIntValue }}{{ end }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -69,6 +72,9 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
   default:
    {{- template "decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
+{{- else }}
+  default:
+    return fmt.Errorf("invalid selector %v for choice {{ $choice.Name }}", v.{{ $expr.ResultSymbol.Symbol.Name }})
 {{- end }}
   }
   _ = err // to avoid "declared but not used" warning
@@ -80,14 +86,17 @@ func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
+  case {{ range $i, $label := .Conditions }}{{ if $i }}, {{ end }}{{ $label.Condition.ResultIntValue }}{{ end }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
 {{- end }}
 {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
   default:
    {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "isarray" false}}
+{{- else if not $choice.DefaultCase }}
+  default:
+    return 0, fmt.Errorf("invalid selector %v for choice {{ $choice.Name }}", v.{{ $expr.ResultSymbol.Symbol.Name }})
 {{- end }}
   }
   return endBitPosition - bitPosition, nil
@@ -112,15 +121,18 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ range $i, $label := .Conditions }}{{ if $i }}, {{ end }}{{ $label.Condition.ResultIntValue }}{{ end }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end }}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+  {{- else if not $choice.DefaultCase }}
+    default:
+      return fmt.Errorf("invalid selector %v for choice {{ $choice.Name }}", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
 {{- end }}
@@ -135,8 +147,8 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ range $i, $label := .Conditions }}{{ if $i }}, {{ end }}{{ $label.Condition.ResultIntValue }}{{ end }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -144,6 +156,9 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
     {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+  {{- else if not $choice.DefaultCase }}
+    default:
+      return fmt.Errorf("invalid selector %v for choice {{ $choice.Name }}", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
@@ -159,8 +174,8 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ range $i, $label := .Conditions }}{{ if $i }}, {{ end }}{{ $label.Condition.ResultIntValue }}{{ end }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -168,6 +183,9 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
     {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+  {{- else if not $choice.DefaultCase }}
+    default:
+      return fmt.Errorf("invalid selector %v for choice {{ $choice.Name }}", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
@@ -187,8 +205,8 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ range $i, $label := .Conditions }}{{ if $i }}, {{ end }}{{ $label.Condition.ResultIntValue }}{{ end }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -196,6 +214,9 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
     {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+  {{- else if not $choice.DefaultCase }}
+    default:
+      return 0, fmt.Errorf("invalid selector %v for choice {{ $choice.Name }}", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
 {{- end }}
-- 
2.43.0


From 8efb6b0ba33a9dc8b33de578cc9f4358f639bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 23/39] fix: extern and bytes fields that are not set are an
 error, not a crash

---
 ztype/bytes_encode.go  | 6 ++++++
 ztype/extern_encode.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index e594fc9..4ca1822 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -8,6 +8,9 @@ import (
 
 // BitSizeOfBytes returns the zserio bit size of a bytes value.
 func BitSizeOfBytes(b *BytesType) (int, error) {
+	if b == nil {
+		return 0, errors.New("bytes value is not set")
+	}
 	// the size of the buffer is encoded as a varsize (max 5 bytes)
 	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
 	if err != nil {
@@ -18,6 +21,9 @@ func BitSizeOfBytes(b *BytesType) (int, error) {
 
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
+	if b == nil {
+		return errors.New("bytes value is not set")
+	}
 	if uint64(len(b.Buffer)) != b.ByteSize {
 		return errors.New("byte size does not match the size of the buffer")
 	}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 40cc468..3bdb410 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -8,6 +8,9 @@ import (
 
 // BitSizeOfExtern returns the zserio bit size of an extern value.
 func BitSizeOfExtern(e *ExternType) (int, error) {
+	if e == nil {
+		return 0, errors.New("extern value is not set")
+	}
 	// the size of the buffer is encoded as a varsize (max 5 bytes)
 	headerSize, err := UnsignedBitSize(e.BitSize, 5)
 	if err != nil {
@@ -18,6 +21,9 @@ func BitSizeOfExtern(e *ExternType) (int, error) {
 
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
+	if e == nil {
+		return errors.New("extern value is not set")
+	}
 	numOfFullBytes := e.BitSize / 8
 	remainingBits := uint8(e.BitSize % 8)
 	numOfBytes := numOfFullBytes
-- 
2.43.0


From 97c1e4c1aa303a84be2ff1a112ab98deee1996e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 24/39] fix: subtypes of extern and bytes compile

---
 internal/generator/templates/bitsizeof.go.tmpl              | 4 ++--
 internal/generator/templates/decode.go.tmpl                 | 4 ++--
 internal/generator/templates/encode.go.tmpl                 | 4 ++--
 .../generator/templates/packing_context_bitsize.go.tmpl     | 4 ++--
 internal/generator/templates/packing_context_decode.go.tmpl | 4 ++--
 internal/generator/templates/packing_context_encode.go.tmpl | 6 +++---
 internal/generator/templates/packing_context_init.go.tmpl   | 2 +-
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index 3156b7a..c877b55 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -12,7 +12,7 @@
             {{- $name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $name = printf "%s(%s)" (goType $scope $native.Type) $name }}
+        {{- $name = printf "(%s)(%s)" (goType $scope $native.Type) $name }}
     {{- end }}
 {{- end }}
 
@@ -39,7 +39,7 @@
         }
         {{- else if $native.RequiresCast }}
         for _, element := range {{ $name }} {
-            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
         }
         {{- else }}
         {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 44e5170..9ad7e0f 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -16,7 +16,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -79,7 +79,7 @@
                 {{- end }}
                 {{ $assign_str_lvalue }} = make([]{{ goType $scope $field.Type }}, 0, len({{ $field.Name }}ArrayProperties.RawArray))
                 for _, elem := range {{ $field.Name }}ArrayProperties.RawArray {
-                    {{ $assign_str_lvalue }} = append({{ $assign_str_lvalue }}, {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ $element }}){{ else }}{{ $element }}{{ end }})
+                    {{ $assign_str_lvalue }} = append({{ $assign_str_lvalue }}, {{ if $native.RequiresCast }}({{ goType $scope $field.Type }})({{ $element }}){{ else }}{{ $element }}{{ end }})
                 }
             {{- else }}
                 {{ $assign_str_lvalue }} = {{ $field.Name }}ArrayProperties.RawArray
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 686bf49..08c6473 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -16,7 +16,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -53,7 +53,7 @@
         {{- else if $native.RequiresCast }}
             {{ $field.Name }}ArrayProperties.RawArray = make([]{{ goType $scope $native.Type }}, 0, {{ $field.Name }}ArrayProperties.FixedSize)
             for _, element := range {{ $field_name }} {
-                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
             }
         {{- else }}
             {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index 9a8304a..f1ce581 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -14,7 +14,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -50,7 +50,7 @@
         }
         {{- else if $native.RequiresCast }}
         for _, element := range {{ $field_name }} {
-            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
         }
         {{- else }}
         {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index b754d14..7285212 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -17,7 +17,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -76,7 +76,7 @@
             {{- end }}
             {{ $assign_str_lvalue }} = make([]{{ goType $scope $field.Type }}, 0, len({{ $field.Name }}ArrayProperties.RawArray))
             for _, elem := range {{ $field.Name }}ArrayProperties.RawArray {
-                {{ $assign_str_lvalue }} = append({{ $assign_str_lvalue }}, {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ $element }}){{ else }}{{ $element }}{{ end }})
+                {{ $assign_str_lvalue }} = append({{ $assign_str_lvalue }}, {{ if $native.RequiresCast }}({{ goType $scope $field.Type }})({{ $element }}){{ else }}{{ $element }}{{ end }})
             }
         {{- else }}
             {{ $assign_str_lvalue }} = {{ $field.Name }}ArrayProperties.RawArray
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index acf3d7b..36bca85 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -17,7 +17,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -65,7 +65,7 @@
             }
         {{- else if $native.RequiresCast }}
             for _, element := range {{ $field_name }} {
-                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
             }
         {{- else }}
             {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
@@ -91,7 +91,7 @@
     }
 
 {{- else }}
-    if err := ztype.Write{{ title $native.Type.Name }}(w, {{ if $native.RequiresCast }}{{ goType $scope $native.Type }}({{end}}{{ $field_name }}{{ if $native.RequiresCast }}){{end}}); err != nil {
+    if err := ztype.Write{{ title $native.Type.Name }}(w, {{ $field_name }}); err != nil {
         return err
     } 
 
diff --git a/internal/generator/templates/packing_context_init.go.tmpl b/internal/generator/templates/packing_context_init.go.tmpl
index 8fee3a2..3968616 100644
--- a/internal/generator/templates/packing_context_init.go.tmpl
+++ b/internal/generator/templates/packing_context_init.go.tmpl
@@ -13,7 +13,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
-- 
2.43.0


From 8709751e7c754457fa94aee9ad279b4a25abd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 25/39] fix: aligning to boundaries over 64 bits and of zero

---
 zstream/reader.go | 23 ++++++++++++++---------
 zstream/writer.go | 18 ++++++++++--------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/zstream/reader.go b/zstream/reader.go
index 72748f7..a8a6673 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -49,20 +49,25 @@ func (r *BitReader) ReadBool() (bool, error) {
 
 // Align the reader to a bit boundary.
 func (r *BitReader) Align(boundary uint8) (int64, error) {
-	d := discard(r.reader.BitsCount, boundary)
-	if d == 0 {
-		return r.reader.BitsCount, nil
+	for d := discard(r.reader.BitsCount, boundary); d > 0; {
+		// ReadBits takes at most 64 bits at a time.
+		n := d
+		if n > 64 {
+			n = 64
+		}
+		if _, err := r.ReadBits(n); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= n
 	}
 
-	_, err := r.ReadBits(d)
-	if err != nil {
-		return 0, fmt.Errorf("discard: %w", err)
-	}
-
-	return r.reader.BitsCount, err
+	return r.reader.BitsCount, nil
 }
 
 func discard(count int64, boundary uint8) uint8 {
+	if boundary == 0 {
+		return 0
+	}
 	if misaligned := uint8(count % int64(boundary)); misaligned != 0 {
 		return boundary - misaligned
 	}
diff --git a/zstream/writer.go b/zstream/writer.go
index 5fb006b..bbc3884 100644
--- a/zstream/writer.go
+++ b/zstream/writer.go
@@ -68,14 +68,16 @@ func (w *BitWriter) WriteByte(b byte) error {
 
 // Align a writer to a bit boundary.
 func (w *BitWriter) Align(boundary uint8) (int64, error) {
-	d := discard(w.writer.BitsCount, boundary)
-	if d == 0 {
-		return w.writer.BitsCount, nil
-	}
-
-	err := w.WriteBits(0, d)
-	if err != nil {
-		return 0, fmt.Errorf("discard: %w", err)
+	for d := discard(w.writer.BitsCount, boundary); d > 0; {
+		// WriteBits takes at most 64 bits at a time.
+		n := d
+		if n > 64 {
+			n = 64
+		}
+		if err := w.WriteBits(0, n); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= n
 	}
 
 	return w.writer.BitsCount, nil
-- 
2.43.0


From 36a4aa8464fe9761f96ae2534cd3fc81161f8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 26/39] fix: reading no bits gives zero

---
 zstream/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zstream/reader.go b/zstream/reader.go
index a8a6673..e123237 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -39,6 +39,10 @@ func (r *BitReader) ReadByte() (byte, error) {
 
 // ReadBits reads n bits and returns them as the lowest n bits of u.
 func (r *BitReader) ReadBits(n uint8) (uint64, error) {
+	if n == 0 {
+		// bitio returns what is left in its cache.
+		return 0, nil
+	}
 	return r.reader.ReadBits(n)
 }
 
-- 
2.43.0


From 27b2840da7937a32e9249d348cf83e234e277b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 27/39] fix: a bit writer does not go on after bits were lost

---
 zstream/writer.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/zstream/writer.go b/zstream/writer.go
index bbc3884..bf19c5c 100644
--- a/zstream/writer.go
+++ b/zstream/writer.go
@@ -23,6 +23,10 @@ var (
 // to the underlying writer.
 type BitWriter struct {
 	writer *bitio.CountWriter
+
+	// broken is the error of a WriteBits() that may have written some of its
+	// bits and lost others. The writer cannot go on after that.
+	broken error
 }
 
 // NewWriter creates a new instance of the writer.
@@ -39,12 +43,18 @@ func NewWriter(r Writer) *BitWriter {
 
 // WriteBits writes out the n lowest bits of r.
 func (w *BitWriter) Write(b []byte) (int, error) {
+	if w.broken != nil {
+		return 0, w.broken
+	}
 	return w.writer.Write(b)
 }
 
 // WriteBits writes out the n lowest bits of r.
 func (w *BitWriter) WriteBits(r uint64, n uint8) error {
-	return w.writer.WriteBits(r, n)
+	if w.broken == nil {
+		w.broken = w.writer.WriteBits(r, n)
+	}
+	return w.broken
 }
 
 // WriteBitsUnsafe writes out the n lowest bits of r.
@@ -53,16 +63,25 @@ func (w *BitWriter) WriteBits(r uint64, n uint8) error {
 // the input r is not masked. Calling WriteBitsUnsafe() with an r that does
 // not satisfy this is undefined behavior (might corrupt previously written bits).
 func (w *BitWriter) WriteBitsUnsafe(r uint64, n uint8) error {
-	return w.writer.WriteBitsUnsafe(r, n)
+	if w.broken == nil {
+		w.broken = w.writer.WriteBitsUnsafe(r, n)
+	}
+	return w.broken
 }
 
 // WriteBool writes one bit: 1 if param is true, 0 otherwise.
 func (w *BitWriter) WriteBool(b bool) error {
+	if w.broken != nil {
+		return w.broken
+	}
 	return w.writer.WriteBool(b)
 }
 
 // WriteByte writes 8 bits.
 func (w *BitWriter) WriteByte(b byte) error {
+	if w.broken != nil {
+		return w.broken
+	}
 	return w.writer.WriteByte(b)
 }
 
@@ -85,6 +104,9 @@ func (w *BitWriter) Align(boundary uint8) (int64, error) {
 
 // Close flushes the internal buffer, but does not close the underlying writer implementation.
 func (w *BitWriter) Close() error {
+	if w.broken != nil {
+		return w.broken
+	}
 	return w.writer.Close()
 }
 
-- 
2.43.0


From 7481ed5104e4810ba8e3153d384810ff35ed1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 28/39] fix: lengths of bit fields over 255 are refused instead
 of truncated

---
 internal/generator/templates/decode.go.tmpl           |  2 +-
 internal/generator/templates/encode.go.tmpl           |  2 +-
 .../templates/instantiate_array_traits.go.tmpl        |  2 +-
 .../templates/packing_context_decode.go.tmpl          |  2 +-
 .../templates/packing_context_encode.go.tmpl          |  2 +-
 ztype/bits_encode.go                                  | 11 +++++++++++
 6 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 9ad7e0f..db185e5 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitCount(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 08c6473..f136ad9 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }} 
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitCount(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/instantiate_array_traits.go.tmpl b/internal/generator/templates/instantiate_array_traits.go.tmpl
index a76fcdf..b957815 100644
--- a/internal/generator/templates/instantiate_array_traits.go.tmpl
+++ b/internal/generator/templates/instantiate_array_traits.go.tmpl
@@ -5,7 +5,7 @@
     {{- if gt $type.Bits 0 -}}
         ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- $type.Bits }}))
     {{- else if $type.LengthExpression -}}
-        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- goExpression $scope $type.LengthExpression }}))
+        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](ztype.BitCount({{- goExpression $scope $type.LengthExpression }}))
     {{- else if eq $type.Name "uint8" }}ztype.ArrayTraits.UInt8
     {{- else if eq $type.Name "uint16" }}ztype.ArrayTraits.UInt16
     {{- else if eq $type.Name "uint32" }}ztype.ArrayTraits.UInt32
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 7285212..750f300 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -4,7 +4,7 @@
 {{ $native := goNativeType $scope $field.Type }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitCount(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 36bca85..fb9a782 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -4,7 +4,7 @@
 {{ $native := goNativeType $scope $field.Type }} 
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitCount(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index 98ba952..371bfbc 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 
 	zserio "github.com/woven-planet/go-zserio"
+	"golang.org/x/exp/constraints"
 )
 
 // ErrValueOutOfBitRange is returned when you try to write a bit field type
@@ -83,3 +84,13 @@ func WriteInt32(w zserio.Writer, value int32) error {
 func WriteInt64(w zserio.Writer, value int64) error {
 	return WriteSignedBits(w, int64(value), 64)
 }
+
+// BitCount converts the value of a length expression of a bit field to a number
+// of bits. Values that are no valid length become 0, which is refused when the
+// bit field is read or written.
+func BitCount[T constraints.Integer](n T) uint8 {
+	if n < 1 || n > 64 {
+		return 0
+	}
+	return uint8(n)
+}
-- 
2.43.0


From ecc174162f01e6c3bff5c35bca67d4dd2c845c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 29/39] fix: template instantiations do not share fields and
 expressions

---
 internal/ast/BUILD.bazel    |  1 +
 internal/ast/copy.go        | 98 +++++++++++++++++++++++++++++++++++++
 internal/model/transform.go | 38 +++++++-------
 3 files changed, 119 insertions(+), 18 deletions(-)
 create mode 100644 internal/ast/copy.go

diff --git a/internal/ast/BUILD.bazel b/internal/ast/BUILD.bazel
index 3c036f2..c92884b 100644
--- a/internal/ast/BUILD.bazel
+++ b/internal/ast/BUILD.bazel
@@ -6,6 +6,7 @@ go_library(
         "bitmask.go",
         "choice.go",
         "const.go",
+        "copy.go",
         "enum.go",
         "expression.go",
         "field.go",
diff --git a/internal/ast/copy.go b/internal/ast/copy.go
new file mode 100644
index 0000000..ce8699a
--- /dev/null
+++ b/internal/ast/copy.go
@@ -0,0 +1,98 @@
+package ast
+
+// Copy returns a deep copy of an expression that was not evaluated yet. The
+// copy can be evaluated in another scope than the original.
+func (expr *Expression) Copy() *Expression {
+	if expr == nil {
+		return nil
+	}
+	exprCopy := *expr
+	exprCopy.Operand1 = expr.Operand1.Copy()
+	exprCopy.Operand2 = expr.Operand2.Copy()
+	exprCopy.Operand3 = expr.Operand3.Copy()
+	return &exprCopy
+}
+
+func copyExpressions(expressions []*Expression) []*Expression {
+	if expressions == nil {
+		return nil
+	}
+	expressionsCopy := make([]*Expression, len(expressions))
+	for ix, expr := range expressions {
+		expressionsCopy[ix] = expr.Copy()
+	}
+	return expressionsCopy
+}
+
+// Copy returns a deep copy of a type reference, including all expressions that
+// are used by it.
+func (tr *TypeReference) Copy() *TypeReference {
+	if tr == nil {
+		return nil
+	}
+	trCopy := *tr
+	if tr.TemplateArguments != nil {
+		trCopy.TemplateArguments = make([]*TypeReference, len(tr.TemplateArguments))
+		for ix, templateArgument := range tr.TemplateArguments {
+			trCopy.TemplateArguments[ix] = templateArgument.Copy()
+		}
+	}
+	trCopy.TypeArguments = copyExpressions(tr.TypeArguments)
+	trCopy.LengthExpression = tr.LengthExpression.Copy()
+	return &trCopy
+}
+
+// Copy returns a deep copy of a field.
+func (f *Field) Copy() *Field {
+	if f == nil {
+		return nil
+	}
+	fieldCopy := *f
+	fieldCopy.Type = f.Type.Copy()
+	fieldCopy.Initializer = f.Initializer.Copy()
+	fieldCopy.Constraint = f.Constraint.Copy()
+	fieldCopy.OptionalClause = f.OptionalClause.Copy()
+	if f.Array != nil {
+		fieldCopy.Array = &Array{
+			IsPacked: f.Array.IsPacked,
+			Length:   f.Array.Length.Copy(),
+		}
+	}
+	return &fieldCopy
+}
+
+// Copy returns a deep copy of a parameter.
+func (p *Parameter) Copy() *Parameter {
+	if p == nil {
+		return nil
+	}
+	parameterCopy := *p
+	parameterCopy.Type = p.Type.Copy()
+	return &parameterCopy
+}
+
+// Copy returns a deep copy of a function.
+func (f *Function) Copy() *Function {
+	if f == nil {
+		return nil
+	}
+	functionCopy := *f
+	functionCopy.Result = f.Result.Copy()
+	functionCopy.ReturnType = f.ReturnType.Copy()
+	return &functionCopy
+}
+
+// CopyConditions returns a deep copy of the conditions of a choice case.
+func (c *ChoiceCase) CopyConditions() []*ChoiceCaseExpression {
+	if c.Conditions == nil {
+		return nil
+	}
+	conditions := make([]*ChoiceCaseExpression, len(c.Conditions))
+	for ix, condition := range c.Conditions {
+		conditions[ix] = &ChoiceCaseExpression{
+			Condition: condition.Condition.Copy(),
+			Comment:   condition.Comment,
+		}
+	}
+	return conditions
+}
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 6d1e43f..61801e9 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -335,7 +335,7 @@ func (m *Model) InstantiateTemplates() error {
 }
 
 func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
-	fieldCopy := *field
+	fieldCopy := field.Copy()
 	if len(field.Type.TemplateArguments) > 0 {
 		// the field itself is a templated compound type, and needs to
 		// be instantiated first.
@@ -354,23 +354,25 @@ func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templa
 			}
 		}
 
-		tt, err := m.instantiateType(pkgScope, field.Type, newTemplateParameters, "")
+		tt, err := m.instantiateType(pkgScope, fieldCopy.Type, newTemplateParameters, "")
 		if err != nil {
 			return nil, err
 		}
 		fieldCopy.Type = tt
-		return &fieldCopy, nil
+		return fieldCopy, nil
 	}
 	if tt, ok := templateTypes[field.Type.Name]; ok && field.Type.Package == "" {
 		// the field a template itself
-		fieldCopy.Type = tt
-		//  If the template has type arguments, these arguments need to
-		// be applied also to the instantiated type.
-		fieldCopy.Type.TypeArguments = field.Type.TypeArguments
-		return &fieldCopy, nil
+		// If the template has type arguments, these arguments need to
+		// be applied also to the instantiated type. Other fields may use the
+		// same template with other arguments.
+		typeArguments := fieldCopy.Type.TypeArguments
+		fieldCopy.Type = tt.Copy()
+		fieldCopy.Type.TypeArguments = typeArguments
+		return fieldCopy, nil
 	}
 	// not templated
-	return field, nil
+	return fieldCopy, nil
 }
 
 func (m *Model) instantiateStruct(
@@ -429,7 +431,7 @@ func (m *Model) instantiateStruct(
 			})
 		} else {
 			// not templated
-			structure.TypeParameters = append(structure.TypeParameters, typeParam)
+			structure.TypeParameters = append(structure.TypeParameters, typeParam.Copy())
 		}
 	}
 
@@ -440,12 +442,12 @@ func (m *Model) instantiateStruct(
 			structure.Functions = append(structure.Functions, &ast.Function{
 				Name:       function.Name,
 				Comment:    function.Comment,
-				Result:     function.Result,
+				Result:     function.Result.Copy(),
 				ReturnType: tt,
 			})
 		} else {
 			// not templated
-			structure.Functions = append(structure.Functions, function)
+			structure.Functions = append(structure.Functions, function.Copy())
 		}
 	}
 
@@ -492,13 +494,13 @@ func (m *Model) instantiateChoice(
 	choice := &ast.Choice{
 		Name:               newType.Name,
 		Comment:            templChoice.Comment,
-		SelectorExpression: templChoice.SelectorExpression,
+		SelectorExpression: templChoice.SelectorExpression.Copy(),
 	}
 
 	// resolve the templates for the choices
 	for _, choiceCase := range templChoice.Cases {
 		newChoiceCase := &ast.ChoiceCase{
-			Conditions: choiceCase.Conditions,
+			Conditions: choiceCase.CopyConditions(),
 			Comment:    choiceCase.Comment,
 		}
 		if choiceCase.Field != nil {
@@ -514,7 +516,7 @@ func (m *Model) instantiateChoice(
 	// also resolve the default case
 	if templChoice.DefaultCase != nil {
 		choice.DefaultCase = &ast.ChoiceCase{
-			Conditions: templChoice.DefaultCase.Conditions,
+			Conditions: templChoice.DefaultCase.CopyConditions(),
 			Comment:    templChoice.DefaultCase.Comment,
 		}
 		if templChoice.DefaultCase.Field != nil {
@@ -536,7 +538,7 @@ func (m *Model) instantiateChoice(
 			})
 		} else {
 			// not templated
-			choice.TypeParameters = append(choice.TypeParameters, typeParam)
+			choice.TypeParameters = append(choice.TypeParameters, typeParam.Copy())
 		}
 	}
 
@@ -547,12 +549,12 @@ func (m *Model) instantiateChoice(
 			choice.Functions = append(choice.Functions, &ast.Function{
 				Name:       function.Name,
 				Comment:    function.Comment,
-				Result:     function.Result,
+				Result:     function.Result.Copy(),
 				ReturnType: tt,
 			})
 		} else {
 			// not templated
-			choice.Functions = append(choice.Functions, function)
+			choice.Functions = append(choice.Functions, function.Copy())
 		}
 	}
 
-- 
2.43.0


From d7bdea64cb1b9bdc67d75f58916ce7e5ce8ed578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 30/39] fix: template instantiations with the same name are an
 error

---
 internal/model/model.go     |   4 ++
 internal/model/transform.go | 103 ++++++++++++++++++++++++++++++++----
 2 files changed, 96 insertions(+), 11 deletions(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index 600a314..2f8716c 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -16,6 +16,10 @@ type Model struct {
 
 	// files has the name of the file that each package was read from.
 	files map[string]string
+
+	// instantiations has, for the full name of each instantiated template, a
+	// description of the template and its arguments.
+	instantiations map[string]string
 }
 
 func NewModel() *Model {
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 61801e9..54a9c73 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -34,6 +34,16 @@ func (e UnknownType) Error() string {
 	return fmt.Sprintf("unknown type: %s.%s (type not found in package)", e.TypeReference.Package, e.TypeReference.Name)
 }
 
+// AmbiguousInstantiation is returned if the name for the instantiation of a
+// template is already used for another type.
+type AmbiguousInstantiation struct {
+	Name string
+}
+
+func (e AmbiguousInstantiation) Error() string {
+	return fmt.Sprintf("ambiguous template instantiation: %s is already another type, use \"instantiate\" to name it", e.Name)
+}
+
 var ErrIncorrectNumberOfTemplateParameters = errors.New("incorrect number of template parameters")
 
 func (m *Model) CapitalizeNames() {
@@ -403,10 +413,6 @@ func (m *Model) instantiateStruct(
 		Package:   pkgScope.Name,
 		Name:      instantiatedName,
 	}
-	// check if the struct was already instantiated
-	if _, exists := pkgScope.Structs[newType.Name]; exists {
-		return newType, nil
-	}
 	structure := &ast.Struct{
 		Name:    newType.Name,
 		Comment: templStruct.Comment,
@@ -486,11 +492,6 @@ func (m *Model) instantiateChoice(
 		Package:   pkgScope.Name,
 		Name:      instantiatedName,
 	}
-
-	// check if the type was already instantiated
-	if _, exists := pkgScope.Choices[newType.Name]; exists {
-		return newType, nil
-	}
 	choice := &ast.Choice{
 		Name:               newType.Name,
 		Comment:            templChoice.Comment,
@@ -573,6 +574,63 @@ func generateInstantiatedName(tr *ast.TypeReference, templateArguments []*ast.Ty
 	return strings.Join(name, "")
 }
 
+// describeExpression returns a text that is the same for equal expressions.
+func describeExpression(expr *ast.Expression) string {
+	if expr == nil {
+		return ""
+	}
+	return fmt.Sprintf("(%d %q %s %s %s)", expr.Type, expr.Text,
+		describeExpression(expr.Operand1),
+		describeExpression(expr.Operand2),
+		describeExpression(expr.Operand3))
+}
+
+// describeTypeReferences returns a text that is the same for equal types.
+func describeTypeReferences(trs []*ast.TypeReference) string {
+	var descriptions []string
+	for _, tr := range trs {
+		var typeArguments []string
+		for _, typeArgument := range tr.TypeArguments {
+			typeArguments = append(typeArguments, describeExpression(typeArgument))
+		}
+		descriptions = append(descriptions, fmt.Sprintf("%s.%s:%d%s%s(%s)", tr.Package, tr.Name, tr.Bits,
+			describeExpression(tr.LengthExpression),
+			describeTypeReferences(tr.TemplateArguments),
+			strings.Join(typeArguments, ",")))
+	}
+	return "<" + strings.Join(descriptions, ",") + ">"
+}
+
+// registerInstantiation remembers what a name of an instantiated template
+// stands for, and returns if the template was already instantiated. It is an
+// error if the name is taken by something else.
+func (m *Model) registerInstantiation(
+	pkgScope *ast.Package,
+	instantiatedName string,
+	template *ast.SymbolReference,
+	templateArguments []*ast.TypeReference) (bool, error) {
+	fullName := pkgScope.Name + "." + instantiatedName
+	description := template.Package + "." + template.Name + describeTypeReferences(templateArguments)
+
+	if other, found := m.instantiations[fullName]; found {
+		if other != description {
+			return false, AmbiguousInstantiation{fullName}
+		}
+		return true, nil
+	}
+	if symbol, err := pkgScope.LocalSymbols.GetType(instantiatedName); err == nil {
+		// Names given by "instantiate" are already known
+		if _, ok := symbol.Symbol.(*ast.InstantiateType); !ok {
+			return false, AmbiguousInstantiation{fullName}
+		}
+	}
+	if m.instantiations == nil {
+		m.instantiations = map[string]string{}
+	}
+	m.instantiations[fullName] = description
+	return false, nil
+}
+
 func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, templateArguments []*ast.TypeReference, instantiatedName string) (*ast.TypeReference, error) {
 	if len(templateArguments) == 0 {
 		return tr, nil
@@ -586,12 +644,35 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 		instantiatedName = generateInstantiatedName(tr, templateArguments)
 	}
 
-	templateSymbol, err := pkgScope.GetSymbol(tr.Name)
+	// The template is not necessarily the one that is found when the name is
+	// looked up in the current package.
+	templateScope := pkgScope
+	if tr.Package != "" {
+		found := false
+		if templateScope, found = m.Packages[tr.Package]; !found {
+			return nil, UnknownPackage{tr.Package}
+		}
+	}
+	templateSymbol, err := templateScope.GetSymbol(tr.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	// Different instantiations can end up with the same name.
+	exists, err := m.registerInstantiation(pkgScope, instantiatedName, templateSymbol, templateArguments)
 	if err != nil {
 		return nil, err
 	}
-	var instantiatedType *ast.TypeReference
+	if exists {
+		return &ast.TypeReference{
+			IsBuiltin:     false,
+			Package:       pkgScope.Name,
+			Name:          instantiatedName,
+			TypeArguments: tr.TypeArguments,
+		}, nil
+	}
 
+	var instantiatedType *ast.TypeReference
 	switch n := templateSymbol.Symbol.(type) {
 	case *ast.Struct:
 		instantiatedType, err = m.instantiateStruct(pkgScope, n, templateArguments, instantiatedName)
-- 
2.43.0


From a7566713497fd18dcdc51d8b3acd4ebf23f0a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 31/39] fix: constants, enum items and bitmask values are
 evaluated where they are defined

---
 internal/ast/bitmask.go    | 50 ++++++++++++++------------
 internal/ast/enum.go       | 74 ++++++++++++++++++++++++++------------
 internal/ast/expression.go | 37 +++++++++++++++----
 internal/ast/package.go    |  3 ++
 4 files changed, 113 insertions(+), 51 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 1f5c9d2..ec67af9 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -21,29 +21,35 @@ func findNextFreeBit(lastValue int64) int64 {
 }
 
 func (bitmask *BitmaskType) Evaluate(p *Package) error {
-	for ix, value := range bitmask.Values {
-		if value.Expression == nil {
-			if ix == 0 {
-				value.Expression = &Expression{
-					EvaluationState: EvaluationStateComplete,
-					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  1, // bitmasks start with 1
-				}
-			} else {
-				if bitmask.Values[ix-1].ResultType != ExpressionTypeInteger {
-					return MissingEnumValue{value.Name}
-				}
-				value.Expression = &Expression{
-					EvaluationState: EvaluationStateComplete,
-					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  findNextFreeBit(bitmask.Values[ix-1].ResultIntValue),
-				}
-			}
-		} else {
-			if err := value.Evaluate(p); err != nil {
-				return err
-			}
+	for ix := range bitmask.Values {
+		if err := bitmask.evaluateValue(ix, p); err != nil {
+			return err
 		}
 	}
 	return nil
 }
+
+// evaluateValue evaluates a single value of a bitmask. Values without an
+// expression depend on the previous value.
+func (bitmask *BitmaskType) evaluateValue(ix int, p *Package) error {
+	value := bitmask.Values[ix]
+	if value.Expression != nil {
+		return value.Evaluate(p)
+	}
+	bit := int64(1) // bitmasks start with 1
+	if ix > 0 {
+		if err := bitmask.evaluateValue(ix-1, p); err != nil {
+			return err
+		}
+		if bitmask.Values[ix-1].ResultType != ExpressionTypeInteger {
+			return MissingEnumValue{value.Name}
+		}
+		bit = findNextFreeBit(bitmask.Values[ix-1].ResultIntValue)
+	}
+	value.Expression = &Expression{
+		EvaluationState: EvaluationStateComplete,
+		ResultType:      ExpressionTypeInteger,
+		ResultIntValue:  bit,
+	}
+	return nil
+}
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index edd44cc..51bc7aa 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -28,34 +28,54 @@ func (e *Enum) AddItem(i *EnumItem) *EnumItem {
 	return i
 }
 
+// BuildScope makes the items of an enum known while the enum is evaluated.
+func (e *Enum) BuildScope(p *Package) error {
+	compoundScope := &CompoundScope{
+		Symbol: e,
+		Scope:  make(map[string]any),
+	}
+	for _, item := range e.Items {
+		compoundScope.Scope[item.Name] = item
+	}
+	p.LocalSymbols.CompoundScopes[e.Name] = compoundScope
+	return nil
+}
+
 func (e *Enum) Evaluate(scope *Package) error {
-	for ix, item := range e.Items {
-		if item.Expression == nil {
-			if ix == 0 {
-				item.Expression = &Expression{
-					EvaluationState: EvaluationStateComplete,
-					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  0,
-				}
-			} else {
-				if e.Items[ix-1].ResultType != ExpressionTypeInteger {
-					return MissingEnumValue{item.Name}
-				}
-				item.Expression = &Expression{
-					EvaluationState: EvaluationStateComplete,
-					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  e.Items[ix-1].ResultIntValue + 1,
-				}
-			}
-		} else {
-			if err := item.Evaluate(scope); err != nil {
-				return err
-			}
+	scope.LocalSymbols.CurrentCompoundScope = &e.Name
+	for ix := range e.Items {
+		if err := e.evaluateItem(ix, scope); err != nil {
+			return err
 		}
 	}
 	return nil
 }
 
+// evaluateItem evaluates a single item of an enum. Items without an expression
+// depend on the previous item.
+func (e *Enum) evaluateItem(ix int, scope *Package) error {
+	item := e.Items[ix]
+	if item.Expression != nil {
+		return item.Expression.Evaluate(scope)
+	}
+	value := int64(0)
+	if ix > 0 {
+		if err := e.evaluateItem(ix-1, scope); err != nil {
+			return err
+		}
+		if e.Items[ix-1].ResultType != ExpressionTypeInteger {
+			return MissingEnumValue{item.Name}
+		}
+		value = e.Items[ix-1].ResultIntValue + 1
+	}
+	item.Expression = &Expression{
+		EvaluationState: EvaluationStateComplete,
+		ResultType:      ExpressionTypeInteger,
+		ResultIntValue:  value,
+	}
+	return nil
+}
+
 type EnumItem struct {
 	Name    string
 	Comment string
@@ -66,3 +86,13 @@ type EnumItem struct {
 func (e EnumItem) GoName() string {
 	return e.enum.Name + strcase.ToCamel(strings.ToLower(e.Name))
 }
+
+// Evaluate evaluates the value of an enum item.
+func (e *EnumItem) Evaluate(scope *Package) error {
+	for ix, item := range e.enum.Items {
+		if item == e {
+			return e.enum.evaluateItem(ix, scope)
+		}
+	}
+	return MissingEnumValue{e.Name}
+}
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cafac3b..5f9ecee 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -174,6 +174,22 @@ func (expr *Expression) evaluateIndexExpression() error {
 	return nil
 }
 
+// evaluateInPackage evaluates a symbol in the package that defines it, which
+// is not necessarily the one that uses it. The names that are only known within
+// the compound type that is currently evaluated are replaced by those of the
+// given one.
+func evaluateInPackage(scope *Package, packageName string, compoundName *string, evaluate func(*Package) error) error {
+	definingScope, err := scope.GetImportedScope(packageName)
+	if err != nil {
+		return err
+	}
+	previousScope := definingScope.LocalSymbols.CurrentCompoundScope
+	definingScope.LocalSymbols.CurrentCompoundScope = compoundName
+	err = evaluate(definingScope)
+	definingScope.LocalSymbols.CurrentCompoundScope = previousScope
+	return err
+}
+
 // evaluateIdentifier evaluates an identifier expression.
 func (expr *Expression) evaluateIdentifier(scope *Package) error {
 	symbol, err := scope.GetSymbol(expr.Text)
@@ -183,13 +199,17 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 
 	// Some symbols, such as consts, can be directly resolved.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
-		constSymbol.ValueExpression.Evaluate(scope)
+		if err := evaluateInPackage(scope, symbol.Package, nil, constSymbol.Evaluate); err != nil {
+			return err
+		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
 		return nil
 	}
 
 	if enumItem, ok := symbol.Symbol.(*EnumItem); ok {
-		enumItem.Evaluate(scope)
+		if err := evaluateInPackage(scope, symbol.Package, &enumItem.enum.Name, enumItem.Evaluate); err != nil {
+			return err
+		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
 	}
@@ -382,10 +402,8 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if enum, ok := op1Symbol.Symbol.(*Enum); ok {
 			for _, enumItem := range enum.Items {
 				if enumItem.Name == expr.Operand2.Text {
-					if enumItem.EvaluationState != EvaluationStateComplete {
-						if err := enum.Evaluate(scope); err != nil {
-							return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
-						}
+					if err := evaluateInPackage(scope, op1Symbol.Package, &enum.Name, enumItem.Evaluate); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
 					}
 					copyExpressionResult(enumItem.Expression, expr)
 					return nil
@@ -394,8 +412,13 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		}
 	} else if expr.Operand1.ResultType == ExpressionTypeBitmask {
 		if bitmask, ok := op1Symbol.Symbol.(*BitmaskType); ok {
-			for _, bitmaskValue := range bitmask.Values {
+			for ix, bitmaskValue := range bitmask.Values {
 				if bitmaskValue.Name == expr.Operand2.Text {
+					if err := evaluateInPackage(scope, op1Symbol.Package, nil, func(p *Package) error {
+						return bitmask.evaluateValue(ix, p)
+					}); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", bitmask.Name, err)
+					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
 					return nil
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 7675ade..1b8cc9b 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -83,6 +83,9 @@ func (p *Package) CollectSymbols() error {
 	}
 	for name, value := range p.Enums {
 		p.LocalSymbols.TypeScope[name] = value
+		if err := value.BuildScope(p); err != nil {
+			return err
+		}
 
 		// add all enum values as symbols
 		for _, enumItem := range value.Items {
-- 
2.43.0


From 27fbfab9d3a5ee9ba2110ae9d0d4d41c2d2ff31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 32/39] fix: names within a union are looked up in the union,
 and only there

---
 internal/ast/package.go | 10 ----------
 internal/ast/union.go   |  5 +++++
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index 1b8cc9b..17ad886 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -256,16 +256,6 @@ func (p *Package) GetCurrentCompoundType(name string) (*SymbolReference, error)
 			return typeSymbol, nil
 		}
 	}
-
-	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if importedPackage.LocalSymbols.CurrentCompoundScope != nil {
-			if typeSymbol, err := importedPackage.LocalSymbols.GetCompoundType(*importedPackage.LocalSymbols.CurrentCompoundScope, name); err == nil {
-				typeSymbol.Package = importedPackage.Name
-				return typeSymbol, nil
-			}
-		}
-	}
 	return nil, errors.New("compound symbol not found")
 }
 
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 7e8dcd4..9ca57c4 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -21,6 +21,9 @@ func (u *Union) BuildScope(p *Package) error {
 	for _, field := range u.Fields {
 		compoundScope.Scope[field.Name] = field
 	}
+	for _, function := range u.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[u.Name] = compoundScope
 	return nil
 }
@@ -30,6 +33,8 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
+	p.LocalSymbols.CurrentCompoundScope = &u.Name
+
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
 			return err
-- 
2.43.0


From 98f3f7047820fbd212a2e94c54062aa0b4c5c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 33/39] fix: ambiguous unqualified enum items are an error,
 mutual imports are not followed forever

---
 internal/ast/choice.go     |  6 +++++-
 internal/ast/expression.go |  2 +-
 internal/ast/package.go    | 41 +++++++++++++++++++++++++++++++++-----
 internal/ast/scope.go      | 10 ++++++++++
 4 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index fd9f1f3..71ca74b 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -70,7 +70,11 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 						Type: parser.ZserioParserID,
 						Text: parameterType.Type.Name,
 					},
-					Operand2: condition.Condition,
+					// the name only has a meaning within the selector type
+					Operand2: &Expression{
+						Type: parser.UnevaluatableExpressionType,
+						Text: condition.Condition.Text,
+					},
 				}
 				condition.Condition = dotExpression
 			}
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 5f9ecee..fb37c9a 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -194,7 +194,7 @@ func evaluateInPackage(scope *Package, packageName string, compoundName *string,
 func (expr *Expression) evaluateIdentifier(scope *Package) error {
 	symbol, err := scope.GetSymbol(expr.Text)
 	if err != nil {
-		return errors.New("symbol not found")
+		return err
 	}
 
 	// Some symbols, such as consts, can be directly resolved.
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 17ad886..99fdd9e 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -89,6 +89,10 @@ func (p *Package) CollectSymbols() error {
 
 		// add all enum values as symbols
 		for _, enumItem := range value.Items {
+			if _, found := p.LocalSymbols.OtherScope[enumItem.Name]; found {
+				p.LocalSymbols.OtherScope[enumItem.Name] = ambiguousSymbol{}
+				continue
+			}
 			p.LocalSymbols.OtherScope[enumItem.Name] = enumItem
 		}
 	}
@@ -224,9 +228,13 @@ func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
 	}
 
 	// third, search all other types (enum fields)
-	if typeSymbol, err := p.GetOtherType(name); err == nil {
+	typeSymbol, err := p.GetOtherType(name)
+	if err == nil {
 		return typeSymbol, nil
 	}
+	if errors.Is(err, ErrAmbiguousSymbol) {
+		return nil, err
+	}
 	return nil, errors.New("symbol not found")
 }
 
@@ -276,15 +284,29 @@ func (p *Package) GetCompoundType(compoundSymbolName, name string) (*SymbolRefer
 }
 
 func (p *Package) GetOtherType(name string) (*SymbolReference, error) {
-	if symbolRef, err := p.LocalSymbols.GetOtherType(name); err == nil {
+	return p.getOtherType(name, map[*Package]bool{})
+}
+
+func (p *Package) getOtherType(name string, visited map[*Package]bool) (*SymbolReference, error) {
+	visited[p] = true
+	symbolRef, err := p.LocalSymbols.GetOtherType(name)
+	if err == nil {
 		symbolRef.Package = p.Name
 		return symbolRef, nil
 	}
+	if errors.Is(err, ErrAmbiguousSymbol) {
+		return nil, err
+	}
 
 	// check all imported scopes
 	for _, importedPackage := range p.ImportedPackages {
-		if symbolRef, err := importedPackage.GetOtherType(name); err == nil {
-			return symbolRef, nil
+		// packages may import each other
+		if visited[importedPackage] {
+			continue
+		}
+		symbolRef, err := importedPackage.getOtherType(name, visited)
+		if err == nil || errors.Is(err, ErrAmbiguousSymbol) {
+			return symbolRef, err
 		}
 	}
 	return nil, errors.New("other type not found")
@@ -453,6 +475,11 @@ func (p *Package) GetImportedScope(name string) (*Package, error) {
 	if name == "" {
 		return nil, errors.New("unresolved package scope")
 	}
+	return p.getImportedScope(name, map[*Package]bool{})
+}
+
+func (p *Package) getImportedScope(name string, visited map[*Package]bool) (*Package, error) {
+	visited[p] = true
 	if name == p.Name {
 		return p, nil
 	}
@@ -463,7 +490,11 @@ func (p *Package) GetImportedScope(name string) (*Package, error) {
 	}
 	// still not found? try the imports of all imports
 	for _, pkg := range p.ImportedPackages {
-		obj, err := pkg.GetImportedScope(name)
+		// packages may import each other
+		if visited[pkg] {
+			continue
+		}
+		obj, err := pkg.getImportedScope(name, visited)
 		if err == nil {
 			return obj, nil
 		}
diff --git a/internal/ast/scope.go b/internal/ast/scope.go
index 9e1c740..e15e1df 100644
--- a/internal/ast/scope.go
+++ b/internal/ast/scope.go
@@ -7,6 +7,9 @@ import (
 
 var ErrUnknownType = errors.New("unknown type")
 
+// ErrAmbiguousSymbol is returned for names that stand for several symbols
+var ErrAmbiguousSymbol = errors.New("ambiguous symbol")
+
 var rootScope = &RootScope{}
 
 var zserioTypeToGoType = map[string]string{
@@ -249,6 +252,10 @@ func (s *RootScope) HasType(t string) bool {
 	return found
 }
 
+// ambiguousSymbol is used in scopes for names that several enums use for their
+// items
+type ambiguousSymbol struct{}
+
 type CompoundScope struct {
 	Symbol any
 	Scope  map[string]any
@@ -295,6 +302,9 @@ func (v *SymbolScope) GetCompoundType(compoundType, name string) (*SymbolReferen
 
 func (v *SymbolScope) GetOtherType(name string) (*SymbolReference, error) {
 	otherSymbol, found := v.OtherScope[name]
+	if _, ambiguous := otherSymbol.(ambiguousSymbol); ambiguous {
+		return nil, fmt.Errorf("%w: %s", ErrAmbiguousSymbol, name)
+	}
 	if found {
 		return &SymbolReference{
 			Name:   name,
-- 
2.43.0


From c9380a56e8bfa9d2df68a72f065974b38dbe5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 34/39] fix: the type of the default case of a choice is
 resolved

---
 internal/model/transform.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 54a9c73..5678a49 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -121,6 +121,7 @@ func (m *Model) CapitalizeNames() {
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
 				if !choice.DefaultCase.Field.Type.IsBuiltin {
 					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
@@ -834,6 +835,24 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				field := choice.DefaultCase.Field
+				// Ignore template types
+				if field.Type.Package != "" || !templateParams[field.Type.Name] {
+					if err := m.resolveTypeReference(pkg, field.Type, templateParams); err != nil {
+						return TypeError{
+							TypeReference: ast.TypeReference{
+								IsBuiltin: false,
+								Package:   pkg.Name,
+								Name:      choice.Name,
+							},
+							Field: field.Name,
+							Err:   err,
+						}
+					}
+				}
+			}
 		}
 
 		for _, union := range pkg.Unions {
-- 
2.43.0


From 701795f909186924ca2732cb9f7d0afa5202fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 35/39] fix: read a schema directory that is given as . or ..

---
 internal/model/model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index 2f8716c..dcab1bc 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -68,14 +68,16 @@ func walkDir(root string) ([]string, error) {
 		if err != nil {
 			return err
 		}
+		// The root itself is never hidden, it might be called "." or "..".
+		hidden := path != root && strings.HasPrefix(d.Name(), ".")
 		if d.IsDir() {
-			if strings.HasPrefix(d.Name(), ".") {
+			if hidden {
 				return filepath.SkipDir
 			}
 			return nil
 		}
 
-		if strings.HasPrefix(d.Name(), ".") {
+		if hidden {
 			return nil
 		}
 
-- 
2.43.0


From 30160c42f8cf964a9720bade6e30355f39532572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 36/39] fix: a schema file that is named in two ways is still
 one file

---
 internal/model/model.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index dcab1bc..c513168 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/fs"
 	"log"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -94,6 +95,16 @@ func walkDir(root string) ([]string, error) {
 	return paths, nil
 }
 
+// sameFile returns true if two paths name one file.
+func sameFile(a, b string) bool {
+	infoA, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	infoB, err := os.Stat(b)
+	return err == nil && os.SameFile(infoA, infoB)
+}
+
 func (m *Model) parseFile(path string) error {
 	log.Printf("Parsing file %s...\n", path)
 	pkg, err := PackageFromFile(path)
@@ -101,8 +112,7 @@ func (m *Model) parseFile(path string) error {
 		return err
 	}
 
-	path = filepath.Clean(path)
-	if other, found := m.files[pkg.Name]; found && other != path {
+	if other, found := m.files[pkg.Name]; found && !sameFile(other, path) {
 		return fmt.Errorf("package %s is defined in both %s and %s", pkg.Name, other, path)
 	}
 	m.files[pkg.Name] = path
-- 
2.43.0


From 7f5cf68f290a4cb11d74a89970c7ff32de309a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 37/39] fix: packed arrays of types that contain themselves

---
 .../templates/packing_context_create.go.tmpl    |  6 +++++-
 packing_context_node.go                         | 17 +++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/packing_context_create.go.tmpl b/internal/generator/templates/packing_context_create.go.tmpl
index fb774bd..c804763 100644
--- a/internal/generator/templates/packing_context_create.go.tmpl
+++ b/internal/generator/templates/packing_context_create.go.tmpl
@@ -13,10 +13,14 @@ contextNode.AddChild(field{{ $field.Name }}Node)
         // the field is a marshalable type, let the type itself decide if a delta
         // context is needed
         var field{{ $field.Name }}Ptr *{{ goType $scope $native.Type }}
+        {{- if isDeltaPackable $scope $native.Type }}
         if err := field{{ $field.Name }}Ptr.ZserioCreatePackingContext(field{{ $field.Name }}Node); err != nil {
             return err
         }
-       
+        {{- else }}
+        field{{ $field.Name }}Node.CreateChildrenWith(field{{ $field.Name }}Ptr.ZserioCreatePackingContext)
+        {{- end }}
+
     {{- else if isDeltaPackable $scope $native.Type }}
         // The field can be directly delta packed, therefore create a delta context
         field{{ $field.Name }}Node.Context = &ztype.DeltaContext[{{ goType $scope $native.Type }}]{}
diff --git a/packing_context_node.go b/packing_context_node.go
index 65aad75..54f127c 100644
--- a/packing_context_node.go
+++ b/packing_context_node.go
@@ -10,6 +10,9 @@ type IDeltaContext interface {
 type PackingContextNode struct {
 	children []*PackingContextNode
 
+	// create adds the children, as soon as they are needed.
+	create func(*PackingContextNode) error
+
 	// the delta context used in a packed context.
 	Context IDeltaContext
 }
@@ -19,8 +22,22 @@ func (context *PackingContextNode) AddChild(child *PackingContextNode) {
 	context.children = append(context.children, child)
 }
 
+// CreateChildrenWith sets the function that adds the children of a
+// PackingContextNode. It is called when the children are needed for the first
+// time: types can contain themselves, so that not all nodes can be created in
+// advance.
+func (context *PackingContextNode) CreateChildrenWith(create func(*PackingContextNode) error) {
+	context.create = create
+}
+
 // GetChildren returns the child PackingContextNodes of a PackingContextNode.
 func (context *PackingContextNode) GetChildren() []*PackingContextNode {
+	if create := context.create; create != nil {
+		context.create = nil
+		if err := create(context); err != nil {
+			return nil
+		}
+	}
 	return context.children
 }
 
-- 
2.43.0


From 3d2bc019a7fc2f16a5bfe243ea9425407409bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 38/39] fix: numbits of a constant is the same as numbits at
 run time

---
 internal/ast/expression.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index fb37c9a..c810d59 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -244,7 +244,14 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		return errors.New("numbits operator needs an integer type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-	expr.ResultIntValue = int64(bits.Len64(uint64(expr.Operand1.ResultIntValue)))
+	// The number of bits needed to tell that many values apart, the same as
+	// ztype.NumBits computes at run time.
+	numValues := uint64(expr.Operand1.ResultIntValue)
+	if numValues > 1 {
+		expr.ResultIntValue = int64(bits.Len64(numValues - 1))
+	} else {
+		expr.ResultIntValue = int64(numValues)
+	}
 	return nil
 }
 
-- 
2.43.0


From b2996f9f9ffa60d2e177280197e14306c22ebfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 39/39] fix: give every caller an own list of the values of an
 enum

---
 internal/generator/templates/enum.go.tmpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index ff4e364..d685fbf 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -44,7 +44,9 @@ var _{{ $enum.Name }}NameToValue = map[string]{{ $enum.Name }}{
 
 // {{ $enum.Name }}Values returns all values of the enum
 func {{ $enum.Name }}Values() []{{ $enum.Name }} {
-  return _{{ $enum.Name }}Values
+  values := make([]{{ $enum.Name }}, len(_{{ $enum.Name }}Values))
+  copy(values, _{{ $enum.Name }}Values)
+  return values
 }
 
 // {{ $enum.Name }}Strings returns a slice of all string values of the enum
-- 
2.43.0

