From 60990baefcd892546dc3104a95ff2a1c521d1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 01/55] fix: keep struct tags when printing struct types

Tags are a part of the type identity, the decorator of a method that has a
tagged struct literal in its signature did not implement the interface.
---
 printer/printer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index c98bf05..a25204c 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -237,7 +237,13 @@ func (p *Printer) fieldList(fl *ast.FieldList) ([]string, error) {
 			return nil, err
 		}
 
-		params = append(params, strings.Join(names, ", ")+" "+paramType)
+		field := strings.Join(names, ", ") + " " + paramType
+		if param.Tag != nil {
+			//tags are the part of a struct type identity
+			field += " " + param.Tag.Value
+		}
+
+		params = append(params, field)
 	}
 
 	return params, nil
-- 
2.43.0


From 29e6926b0944d7143f9f06a83d892df7de288b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 02/55] fix: print parenthesized types, interface literals and
 type unions with the package prefix

They were printed as is, so references to the types of the source package
they contain were left unqualified in the generated code.
---
 printer/printer.go | 64 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index a25204c..da07ddd 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -71,6 +71,14 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 		return p.printGeneric(t)
 	case *ast.IndexListExpr:
 		return p.printGenericList(t)
+	case *ast.ParenExpr:
+		return p.printParen(t)
+	case *ast.InterfaceType:
+		return p.printInterface(t)
+	case *ast.UnaryExpr:
+		return p.printUnary(t)
+	case *ast.BinaryExpr:
+		return p.printBinary(t)
 	}
 
 	err := printer.Fprint(p.buf, p.fs, node)
@@ -210,6 +218,62 @@ func (p *Printer) printStruct(s *ast.StructType) (string, error) {
 	return "struct{\n" + strings.Join(fields, "\n") + "\n}", nil
 }
 
+func (p *Printer) printParen(e *ast.ParenExpr) (string, error) {
+	t, err := p.PrintType(e.X)
+	if err != nil {
+		return "", err
+	}
+
+	return "(" + t + ")", nil
+}
+
+func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
+	if it.Methods == nil || len(it.Methods.List) == 0 {
+		return "interface{}", nil
+	}
+
+	elems := make([]string, 0, len(it.Methods.List))
+	for _, field := range it.Methods.List {
+		elem, err := p.PrintType(field.Type)
+		if err != nil {
+			return "", err
+		}
+
+		if len(field.Names) > 0 {
+			elem = field.Names[0].Name + strings.TrimPrefix(elem, "func")
+		}
+
+		elems = append(elems, elem)
+	}
+
+	return "interface{\n" + strings.Join(elems, "\n") + "\n}", nil
+}
+
+// printUnary prints an element of a type constraint, i.e. ~string
+func (p *Printer) printUnary(e *ast.UnaryExpr) (string, error) {
+	t, err := p.PrintType(e.X)
+	if err != nil {
+		return "", err
+	}
+
+	return e.Op.String() + t, nil
+}
+
+// printBinary prints a union of the type constraint elements, i.e. int | string
+func (p *Printer) printBinary(e *ast.BinaryExpr) (string, error) {
+	x, err := p.PrintType(e.X)
+	if err != nil {
+		return "", err
+	}
+
+	y, err := p.PrintType(e.Y)
+	if err != nil {
+		return "", err
+	}
+
+	return x + " " + e.Op.String() + " " + y, nil
+}
+
 func (p *Printer) printVariadicParam(e *ast.Ellipsis) (string, error) {
 	sliceType, err := p.PrintType(e.Elt)
 	if err != nil {
-- 
2.43.0


From 5be96d8392936188f4cec3149b5efb384356c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 03/55] fix: refuse unexported fields and methods of type
 literals in other packages

Struct and interface literals with unexported names are different types in
different packages, the generated decorator could not implement the interface.
---
 printer/printer.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index da07ddd..e600b58 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -209,12 +209,57 @@ func (p *Printer) printPointer(pt *ast.StarExpr) (string, error) {
 	return "*" + pointerTo, nil
 }
 
+var errUnexportedField = errors.New("unexported field")
+
+// checkExported returns an error if the name declared by a type literal is not exported and
+// the destination file is in another package: types that have such names are never identical
+// when they originate from different packages
+func (p *Printer) checkExported(name string) error {
+	if len(p.typesPrefix) > 0 && !ast.IsExported(name) {
+		return errors.Wrap(errUnexportedField, name)
+	}
+
+	return nil
+}
+
+func embeddedFieldName(e ast.Expr) string {
+	switch t := e.(type) {
+	case *ast.Ident:
+		return t.Name
+	case *ast.StarExpr:
+		return embeddedFieldName(t.X)
+	case *ast.SelectorExpr:
+		return t.Sel.Name
+	case *ast.IndexExpr:
+		return embeddedFieldName(t.X)
+	case *ast.IndexListExpr:
+		return embeddedFieldName(t.X)
+	}
+
+	return ""
+}
+
 func (p *Printer) printStruct(s *ast.StructType) (string, error) {
 	fields, err := p.fieldList(s.Fields)
 	if err != nil {
 		return "", err
 	}
 
+	if s.Fields != nil {
+		for _, field := range s.Fields.List {
+			names := field.Names
+			if len(names) == 0 {
+				names = []*ast.Ident{{Name: embeddedFieldName(field.Type)}}
+			}
+
+			for _, name := range names {
+				if err := p.checkExported(name.Name); err != nil {
+					return "", err
+				}
+			}
+		}
+	}
+
 	return "struct{\n" + strings.Join(fields, "\n") + "\n}", nil
 }
 
@@ -240,6 +285,9 @@ func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
 		}
 
 		if len(field.Names) > 0 {
+			if err := p.checkExported(field.Names[0].Name); err != nil {
+				return "", err
+			}
 			elem = field.Names[0].Name + strings.TrimPrefix(elem, "func")
 		}
 
-- 
2.43.0


From cd1f450847c631f25648b5bcd265fe5563d09ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 04/55] fix: substitute type arguments of embedded generic
 interfaces everywhere

Arguments were substituted for the parameters that are exactly a type
parameter only, []T or map[string]T were left as is. Type parameters that
have the name of a type declared in the package were qualified with the
package name.
---
 generator/generator.go |  5 +++--
 generator/generics.go  | 13 +++++++++++++
 generator/types.go     | 16 +++++++---------
 printer/printer.go     | 12 ++++++++++++
 4 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index c94e826..c32a96a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -551,7 +551,8 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 	methods = make(methodsList, len(it.Methods.List))
 
-	pr := printer.New(targetInput.fileSet, targetInput.types, targetInput.typesPrefix)
+	pr := printer.New(targetInput.fileSet, targetInput.types, targetInput.typesPrefix).
+		WithTypeArgs(targetInput.genericTypes.typeArgs(targetInput.genericParams))
 
 	for _, field := range it.Methods.List {
 		var embeddedMethods methodsList
@@ -561,7 +562,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		case *ast.FuncType:
 			var method *Method
 
-			method, err = NewMethod(field.Names[0].Name, field, pr, targetInput.genericTypes, targetInput.genericParams)
+			method, err = NewMethod(field.Names[0].Name, field, pr)
 			if err == nil {
 				methods[field.Names[0].Name] = *method
 				continue
diff --git a/generator/generics.go b/generator/generics.go
index 7d22c27..f14488b 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -48,6 +48,19 @@ type genericType struct {
 	Names []string
 }
 
+// typeArgs returns what to print instead of every type parameter: the respective argument
+// if it's given or the type parameter itself otherwise
+func (g genericTypes) typeArgs(params genericParams) map[string]string {
+	args := make(map[string]string)
+	for _, genType := range g {
+		for _, name := range genType.Names {
+			args[name] = buildGenericParamsString(name, g, params)
+		}
+	}
+
+	return args
+}
+
 func buildGenericsWithBrackets(t string) string {
 	if t != "" {
 		t = genericSquareBracketStart + t + genericSquareBracketEnd
diff --git a/generator/types.go b/generator/types.go
index 1fa0eee..822c106 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -66,7 +66,7 @@ func (p Param) Pass() string {
 }
 
 // NewMethod returns pointer to Signature struct or error
-func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (*Method, error) {
+func NewMethod(name string, fi *ast.Field, printer typePrinter) (*Method, error) {
 	f, ok := fi.Type.(*ast.FuncType)
 	if !ok {
 		return nil, fmt.Errorf("%q is not a method", name)
@@ -105,11 +105,11 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 
 	var err error
 
-	m.Params, err = makeParams(f.Params, usedNames, printer, genericTypes, genericParams)
+	m.Params, err = makeParams(f.Params, usedNames, printer)
 	if err != nil {
 		return nil, err
 	}
-	m.Results, err = makeParams(f.Results, usedNames, printer, genericTypes, genericParams)
+	m.Results, err = makeParams(f.Results, usedNames, printer)
 	if err != nil {
 		return nil, err
 	}
@@ -126,7 +126,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 }
 
 // NewParam returns Param struct
-func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (*Param, error) {
+func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typePrinter) (*Param, error) {
 	typ := fi.Type
 	if name == "" || usedNames[name] {
 		name = genName(typePrefix(typ), 1, usedNames)
@@ -139,8 +139,6 @@ func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typ
 		return nil, err
 	}
 
-	typeStr = buildGenericParamsString(typeStr, genericTypes, genericParams)
-
 	_, variadic := typ.(*ast.Ellipsis)
 	p := &Param{
 		Name:     name,
@@ -164,7 +162,7 @@ func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typ
 	return p, nil
 }
 
-func makeParams(params *ast.FieldList, usedNames map[string]bool, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (ParamsSlice, error) {
+func makeParams(params *ast.FieldList, usedNames map[string]bool, printer typePrinter) (ParamsSlice, error) {
 	if params == nil {
 		return nil, nil
 	}
@@ -174,14 +172,14 @@ func makeParams(params *ast.FieldList, usedNames map[string]bool, printer typePr
 		//for anonymous parameters we generate params and results names
 		//based on their type
 		if p.Names == nil {
-			param, err := NewParam("", p, usedNames, printer, genericTypes, genericParams)
+			param, err := NewParam("", p, usedNames, printer)
 			if err != nil {
 				return nil, err
 			}
 			result = append(result, *param)
 		} else {
 			for _, ident := range p.Names {
-				param, err := NewParam(ident.Name, p, usedNames, printer, genericTypes, genericParams)
+				param, err := NewParam(ident.Name, p, usedNames, printer)
 				if err != nil {
 					return nil, err
 				}
diff --git a/printer/printer.go b/printer/printer.go
index e600b58..10fbf0e 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -15,6 +15,7 @@ type Printer struct {
 	fs          *token.FileSet
 	types       []*ast.TypeSpec
 	typesPrefix string
+	typeArgs    map[string]string
 	buf         *bytes.Buffer
 }
 
@@ -31,6 +32,13 @@ func New(fs *token.FileSet, typeSpecs []*ast.TypeSpec, typesPrefix string) *Prin
 	}
 }
 
+// WithTypeArgs sets the text to print instead of the type parameters that are in the scope
+// of the printed nodes. Type parameters hide the types with the same names.
+func (p *Printer) WithTypeArgs(typeArgs map[string]string) *Printer {
+	p.typeArgs = typeArgs
+	return p
+}
+
 // Print prints AST node as is
 func (p *Printer) Print(node ast.Node) (string, error) {
 	if node == nil {
@@ -142,6 +150,10 @@ func (p *Printer) printMap(mt *ast.MapType) (string, error) {
 var errUnexportedType = errors.New("unexported type")
 
 func (p *Printer) printIdent(i *ast.Ident) (string, error) {
+	if arg, ok := p.typeArgs[i.Name]; ok {
+		return arg, nil
+	}
+
 	for _, ts := range p.types {
 
 		if i.Name == ts.Name.Name {
-- 
2.43.0


From 7e97449f98f82dbbbaf4f0bd82bf2eb6dd7be44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 05/55] fix: collect the methods of every kind of an embedded
 or aliased interface

Methods of the embedded error interface, of the aliased interfaces declared in
other files of the package, of the aliased generic interfaces were silently
lost, embedded aliases were refused. Type constraints and embedded types that
can not be resolved are refused now, recursive types do not overflow the stack.
---
 generator/generator.go | 82 ++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 23 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index c32a96a..9b4353a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -150,6 +150,7 @@ type targetProcessInput struct {
 	typesPrefix  string
 	imports      []*ast.ImportSpec
 	genericTypes genericTypes
+	visited      []*ast.TypeSpec //types that are being processed
 }
 
 type processOutput struct {
@@ -364,6 +365,13 @@ func findTarget(input processInput) (output processOutput, err error) {
 }
 
 func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods methodsList, err error) {
+	for _, ts := range input.visited {
+		if ts == selectedType {
+			return nil, errInvalidRecursion
+		}
+	}
+	input.visited = append(input.visited[:len(input.visited):len(input.visited)], selectedType)
+
 	switch t := selectedType.Type.(type) {
 	case *ast.InterfaceType:
 		methods, err = processInterface(t, input)
@@ -379,12 +387,18 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 
 		return getMethods(t, srcPackagePath)
 	case *ast.Ident:
-		if t.Obj == nil {
-			return
-		}
-		if ts, ok := t.Obj.Decl.(*ast.TypeSpec); ok {
-			return findMethods(ts, input)
+		if t.Obj != nil {
+			if ts, ok := t.Obj.Decl.(*ast.TypeSpec); ok {
+				return findMethods(ts, input)
+			}
 		}
+
+		return processIdent(t, input, true)
+	case *ast.IndexExpr, *ast.IndexListExpr:
+		pr := printer.New(input.fileSet, input.types, input.typesPrefix).
+			WithTypeArgs(input.genericTypes.typeArgs(input.genericParams))
+
+		_, methods, err = processEmbedded(t, pr, input, true)
 	}
 
 	return
@@ -468,8 +482,9 @@ func typeSpecs(f *ast.File) []*ast.TypeSpec {
 }
 
 func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, checkInterface bool) (param genericParam, methods methodsList, err error) {
-	param.Name, err = pr.PrintType(t)
-	if err != nil {
+	if !checkInterface {
+		//it's a generic param, only its name matters
+		param.Name, err = pr.PrintType(t)
 		return
 	}
 
@@ -482,7 +497,9 @@ func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, ch
 		methods, err = processIdent(v, input, checkInterface)
 		return
 	}
-	return
+
+	//elements of the type constraints, i.e. ~int or int | string
+	return param, nil, errNotAnInterface
 }
 
 func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, checkInterface bool) (genericParam genericParam, embeddedMethods methodsList, err error) {
@@ -635,33 +652,52 @@ func mergeMethods(methods, embeddedMethods methodsList) (methodsList, error) {
 }
 
 var errNotAnInterface = errors.New("embedded type is not an interface")
+var errInvalidRecursion = errors.New("invalid recursive type")
 
 func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (methodsList, error) {
-	var embeddedInterface *ast.InterfaceType
-	var genericsTypes genericTypes
 	for _, t := range input.types {
-		if t.Name.Name == i.Name {
-			var ok bool
-			embeddedInterface, ok = t.Type.(*ast.InterfaceType)
-			if ok {
-				genericsTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
-				break
-			}
+		if t.Name.Name != i.Name {
+			continue
+		}
 
-			if !checkInterface {
-				break
-			}
+		if _, ok := t.Type.(*ast.InterfaceType); !ok && !checkInterface {
+			return nil, nil
+		}
+
+		input.genericTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
 
+		methods, err := findMethods(t, input)
+		if err != nil {
+			return nil, err
+		}
+
+		if _, ok := t.Type.(*ast.InterfaceType); !ok && methods == nil {
 			return nil, errors.Wrap(errNotAnInterface, t.Name.Name)
 		}
+
+		return methods, nil
 	}
 
-	if embeddedInterface == nil {
+	if !checkInterface {
 		return nil, nil
 	}
 
-	input.genericTypes = genericsTypes
-	return processInterface(embeddedInterface, input)
+	switch i.Name {
+	case "any":
+		return methodsList{}, nil
+	case "error":
+		method, err := NewMethod("Error", &ast.Field{Type: &ast.FuncType{
+			Params:  &ast.FieldList{},
+			Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("string")}}},
+		}}, printer.New(input.fileSet, nil, ""))
+		if err != nil {
+			return nil, err
+		}
+
+		return methodsList{method.Name: *method}, nil
+	}
+
+	return nil, errors.Wrap(errNotAnInterface, i.Name)
 }
 
 var errUnknownSelector = errors.New("unknown selector")
-- 
2.43.0


From 2d3f18a4af2b2e38fe4475e081b63a44de017f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 06/55] fix: resolve package selectors using the imports of the
 file they are used in

When a package imports several packages that have the same name the embedded
interface was looked up in a random one of them. Aliased interfaces of the
packages with the name that differs from the last element of the import path
were not found.
---
 generator/generator.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 9b4353a..32751ea 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -384,6 +384,12 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 			return
 		}
 		srcPackagePath := findSourcePackage(ident, input.imports)
+		if input.currentPackage != nil {
+			srcPackagePath, err = findImportPathForName(ident.Name, input.imports, input.currentPackage)
+			if err != nil {
+				return nil, err
+			}
+		}
 
 		return getMethods(t, srcPackagePath)
 	case *ast.Ident:
@@ -709,6 +715,14 @@ func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackag
 		}
 	}
 
+	//packages with the same name can be imported by the other files
+	for _, i := range imports {
+		path := unquote(i.Path.Value)
+		if pkg, ok := currentPackage.Imports[path]; ok && i.Name == nil && pkg.Name == name {
+			return path, nil
+		}
+	}
+
 	for path, pkg := range currentPackage.Imports {
 		if pkg.Name == name {
 			return path, nil
-- 
2.43.0


From fbd8b0edfab7eb77dd77c425ab61784f6d142edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 07/55] fix: import everything the embedded interfaces refer to

Imports of the files where the embedded interfaces are declared were not
available to the generated code, the types of the packages imported under
another name were qualified with the original package name.
---
 generator/generator.go | 83 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 81 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 32751ea..41e093b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -142,6 +142,7 @@ type processInput struct {
 	astPackage     *pkg.Package
 	targetName     string
 	genericParams  genericParams
+	usedImports    *[]*ast.ImportSpec //imports that are required by the collected methods
 }
 
 type targetProcessInput struct {
@@ -348,6 +349,11 @@ func findTarget(input processInput) (output processOutput, err error) {
 		return processOutput{}, errors.Wrap(errTargetNotFound, input.targetName)
 	}
 
+	isRoot := input.usedImports == nil
+	if isRoot {
+		input.usedImports = &[]*ast.ImportSpec{}
+	}
+
 	output.imports = imports
 	output.genericTypes = buildGenericTypesFromSpec(ts, types, input.astPackage.Name)
 	output.methods, err = findMethods(ts, targetProcessInput{
@@ -361,9 +367,64 @@ func findTarget(input processInput) (output processOutput, err error) {
 		return processOutput{}, err
 	}
 
+	if isRoot {
+		//embedded interfaces can be declared in the files that have other imports
+		output.imports = addImports(imports, *input.usedImports...)
+	}
+
 	return
 }
 
+// addImports returns a list of imports with the missing ones added to it
+func addImports(imports []*ast.ImportSpec, add ...*ast.ImportSpec) []*ast.ImportSpec {
+	known := make(map[string]bool, len(imports))
+	for _, key := range makeImports(imports) {
+		known[key] = true
+	}
+
+	result := imports[:len(imports):len(imports)]
+	for i, key := range makeImports(add) {
+		if !known[key] {
+			known[key] = true
+			result = append(result, add[i])
+		}
+	}
+
+	return result
+}
+
+// useImports remembers the imports that are referenced by the node
+func (input targetProcessInput) useImports(node ast.Node) {
+	if input.usedImports == nil || input.currentPackage == nil {
+		return
+	}
+
+	ast.Inspect(node, func(n ast.Node) bool {
+		se, ok := n.(*ast.SelectorExpr)
+		if !ok {
+			return true
+		}
+
+		ident, ok := se.X.(*ast.Ident)
+		if !ok {
+			return true
+		}
+
+		path, err := findImportPathForName(ident.Name, input.imports, input.currentPackage)
+		if err != nil {
+			return true
+		}
+
+		for _, i := range input.imports {
+			if unquote(i.Path.Value) == path && (i.Name == nil || i.Name.Name == ident.Name) {
+				*input.usedImports = append(*input.usedImports, i)
+			}
+		}
+
+		return true
+	})
+}
+
 func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods methodsList, err error) {
 	for _, ts := range input.visited {
 		if ts == selectedType {
@@ -391,7 +452,7 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 			}
 		}
 
-		return getMethods(t, srcPackagePath)
+		return getMethods(t, srcPackagePath, input)
 	case *ast.Ident:
 		if t.Obj != nil {
 			if ts, ok := t.Obj.Decl.(*ast.TypeSpec); ok {
@@ -410,7 +471,7 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 	return
 }
 
-func getMethods(sel *ast.SelectorExpr, srcPackagePath string) (methods methodsList, err error) {
+func getMethods(sel *ast.SelectorExpr, srcPackagePath string, input targetProcessInput) (methods methodsList, err error) {
 	srcPkg, err := pkg.Load(srcPackagePath)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cant load %s package", srcPackagePath)
@@ -422,11 +483,16 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string) (methods methodsLi
 		return nil, errors.Wrapf(err, "cant ast %s package", srcPackagePath)
 	}
 
+	//types of the package are qualified the way they are in the source file
+	srcAst.Name = sel.X.(*ast.Ident).Name
+	input.useImports(sel)
+
 	out, err := findTarget(processInput{
 		fileSet:        fs,
 		currentPackage: srcPkg,
 		astPackage:     srcAst,
 		targetName:     sel.Sel.Name,
+		usedImports:    input.usedImports,
 	})
 	if err != nil {
 		return nil, errors.Wrapf(err, "failed to find target in %s package", srcPackagePath)
@@ -517,6 +583,7 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 	case *ast.IndexExpr:
 		x = v.X
 		hasGenericsParams = true
+		input.useImports(v.Index)
 		//	Don't check if embedded interface's generic params are also interfaces, e.g. given the interface:
 		//		type SomeInterface {
 		//	      EmbeddedGenericInterface[Bar]
@@ -536,6 +603,7 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 
 		if v.Indices != nil {
 			for _, index := range v.Indices {
+				input.useImports(index)
 				//	Don't check if embedded interface's generic params are also interfaces, e.g. given the interface:
 				//		type SomeInterface {
 				//	      EmbeddedGenericInterface[Bar]
@@ -585,6 +653,8 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		case *ast.FuncType:
 			var method *Method
 
+			targetInput.useImports(v)
+
 			method, err = NewMethod(field.Names[0].Name, field, pr)
 			if err == nil {
 				methods[field.Names[0].Name] = *method
@@ -627,12 +697,17 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		return nil, errors.Wrap(err, "failed to import package")
 	}
 
+	//types of the package are qualified the way they are in the source file
+	astPkg.Name = packageSelector
+	input.useImports(se)
+
 	output, err := findTarget(processInput{
 		fileSet:        input.fileSet,
 		currentPackage: p,
 		astPackage:     astPkg,
 		targetName:     selectedName,
 		genericParams:  input.genericParams,
+		usedImports:    input.usedImports,
 	})
 
 	return output.methods, err
@@ -671,6 +746,10 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 		}
 
 		input.genericTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
+		if input.astPackage != nil {
+			//the type can be declared in another file of the package
+			_, input.imports, _ = iterateFiles(input.astPackage, i.Name)
+		}
 
 		methods, err := findMethods(t, input)
 		if err != nil {
-- 
2.43.0


From dc74bc499d9b32226c6040b098141243b7011952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 08/55] fix: name blank parameters and results

The blank identifier can not be used as a value, calls and structs that are
rendered from a method with blank parameters did not compile.
---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 822c106..7174c84 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -128,7 +128,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter) (*Method, error)
 // NewParam returns Param struct
 func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typePrinter) (*Param, error) {
 	typ := fi.Type
-	if name == "" || usedNames[name] {
+	if name == "" || name == "_" || usedNames[name] {
 		name = genName(typePrefix(typ), 1, usedNames)
 	}
 
-- 
2.43.0


From 5a028dfb280d88c04ba867a56220c6cf227350ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 09/55] fix: refuse to decorate unexported interfaces in other
 packages

---
 generator/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 41e093b..b4188cb 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -161,6 +161,7 @@ type processOutput struct {
 }
 
 var errEmptyInterface = errors.New("interface has no methods")
+var errUnexportedInterface = errors.New("unexported interface")
 var errUnexportedMethod = errors.New("unexported method")
 
 // NewGenerator returns Generator initialized with options
@@ -236,6 +237,10 @@ func NewGenerator(options Options) (*Generator, error) {
 		return nil, errors.Wrap(err, "failed to parse interface declaration")
 	}
 
+	if srcPackageAST.Name != "" && !ast.IsExported(options.InterfaceName) {
+		return nil, errors.Wrap(errUnexportedInterface, options.InterfaceName)
+	}
+
 	if len(output.methods) == 0 {
 		return nil, errEmptyInterface
 	}
-- 
2.43.0


From 5530b62ea50b4a5c9fa2ca48dec7d971ce78fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 10/55] fix: qualify the constants array lengths refer to with
 the package name

---
 printer/printer.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index 10fbf0e..c14a059 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -99,7 +99,7 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 		return "", err
 	}
 
-	l, err := p.Print(a.Len)
+	l, err := p.printLen(a.Len)
 	if err != nil {
 		return "", err
 	}
@@ -107,6 +107,45 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 	return "[" + l + "]" + sliceType, nil
 }
 
+// printLen prints an array length, constants it refers to are declared in the source package
+func (p *Printer) printLen(e ast.Expr) (string, error) {
+	switch t := e.(type) {
+	case nil:
+		return "", nil
+	case *ast.Ident:
+		if len(p.typesPrefix) > 0 {
+			if !ast.IsExported(t.Name) {
+				return "", errors.Wrap(errUnexportedConst, t.Name)
+			}
+
+			return p.typesPrefix + "." + t.Name, nil
+		}
+	case *ast.ParenExpr:
+		x, err := p.printLen(t.X)
+		if err != nil {
+			return "", err
+		}
+
+		return "(" + x + ")", nil
+	case *ast.BinaryExpr:
+		x, err := p.printLen(t.X)
+		if err != nil {
+			return "", err
+		}
+
+		y, err := p.printLen(t.Y)
+		if err != nil {
+			return "", err
+		}
+
+		return x + " " + t.Op.String() + " " + y, nil
+	}
+
+	return p.Print(e)
+}
+
+var errUnexportedConst = errors.New("unexported constant")
+
 var chanTypes = map[ast.ChanDir]string{
 	ast.SEND | ast.RECV: "chan ",
 	ast.SEND:            "chan<- ",
-- 
2.43.0


From 5a6dafd40bbe29de8a8e3b25e1d76bf7ce7d5707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 11/55] fix: do not take Context types of other packages for
 context.Context

---
 generator/generator.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index b4188cb..0b9fc5c 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -398,6 +398,23 @@ func addImports(imports []*ast.ImportSpec, add ...*ast.ImportSpec) []*ast.Import
 	return result
 }
 
+// isContext returns false if the type named Context doesn't belong to the context package
+func (input targetProcessInput) isContext(t ast.Expr) bool {
+	se, ok := t.(*ast.SelectorExpr)
+	if !ok || input.currentPackage == nil {
+		return ok
+	}
+
+	ident, ok := se.X.(*ast.Ident)
+	if !ok {
+		return false
+	}
+
+	path, err := findImportPathForName(ident.Name, input.imports, input.currentPackage)
+
+	return err != nil || path == "context" || path == "golang.org/x/net/context"
+}
+
 // useImports remembers the imports that are referenced by the node
 func (input targetProcessInput) useImports(node ast.Node) {
 	if input.usedImports == nil || input.currentPackage == nil {
@@ -662,6 +679,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 			method, err = NewMethod(field.Names[0].Name, field, pr)
 			if err == nil {
+				method.AcceptsContext = method.AcceptsContext && targetInput.isContext(v.Params.List[0].Type)
 				methods[field.Names[0].Name] = *method
 				continue
 			}
-- 
2.43.0


From cf426d6d691fd6af00dd13f038e480e6ff72b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 12/55] fix: select the interface declaration that belongs to
 the build

When the same interface is declared in several files with build constraints a
random declaration was used.
---
 generator/generator.go | 24 +++++++++++++++++-------
 pkg/package.go         | 13 +++++++++++--
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 0b9fc5c..b13ae82 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -544,14 +544,23 @@ func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec) string {
 }
 
 func iterateFiles(p *pkg.Package, name string) (selectedType *ast.TypeSpec, imports []*ast.ImportSpec, types []*ast.TypeSpec) {
-	for _, f := range p.Files {
+	fileNames := make([]string, 0, len(p.Files))
+	for fileName := range p.Files {
+		fileNames = append(fileNames, fileName)
+	}
+	sort.Strings(fileNames)
+
+	selectedIsIgnored := false
+	for _, fileName := range fileNames {
+		f := p.Files[fileName]
 		if f != nil {
 			for _, ts := range typeSpecs(f) {
 				types = append(types, ts)
-				if ts.Name.Name == name {
+				//files that are excluded by the build constraints can declare the same type
+				if ts.Name.Name == name && (selectedType == nil || selectedIsIgnored) {
 					selectedType = ts
 					imports = f.Imports
-					continue
+					selectedIsIgnored = p.IgnoredFiles[fileName]
 				}
 			}
 		}
@@ -764,15 +773,16 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 			continue
 		}
 
+		if input.astPackage != nil {
+			//the type can be declared in another file of the package
+			t, input.imports, _ = iterateFiles(input.astPackage, i.Name)
+		}
+
 		if _, ok := t.Type.(*ast.InterfaceType); !ok && !checkInterface {
 			return nil, nil
 		}
 
 		input.genericTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
-		if input.astPackage != nil {
-			//the type can be declared in another file of the package
-			_, input.imports, _ = iterateFiles(input.astPackage, i.Name)
-		}
 
 		methods, err := findMethods(t, input)
 		if err != nil {
diff --git a/pkg/package.go b/pkg/package.go
index 73f1548..fabc5c2 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -15,6 +15,9 @@ var errPackageNotFound = errors.New("package not found")
 type Package struct {
 	Name  string
 	Files map[string]*ast.File
+
+	// IgnoredFiles are the files excluded by the build constraints
+	IgnoredFiles map[string]bool
 }
 
 // Load loads package by its import path
@@ -46,9 +49,15 @@ func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 	}
 
 	if ap, ok := pkgs[p.Name]; ok {
+		ignoredFiles := make(map[string]bool, len(p.IgnoredFiles))
+		for _, fileName := range p.IgnoredFiles {
+			ignoredFiles[fileName] = true
+		}
+
 		return &Package{
-			Name:  p.Name,
-			Files: ap.Files,
+			Name:         p.Name,
+			Files:        ap.Files,
+			IgnoredFiles: ignoredFiles,
 		}, nil
 	}
 
-- 
2.43.0


From 7108a34abb37e710b114a8bc83fa3144e8e4bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 13/55] fix: do not panic when there is no subcommand after --

---
 cmd/gowrap/gowrap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index a59d991..2964628 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -32,6 +32,9 @@ func main() {
 
 	flag.Parse()
 	args := flag.Args()
+	if len(args) == 0 {
+		die(2, "Run 'gowrap help' for usage.")
+	}
 
 	if args[0] == "help" {
 		if err := help(args[1:], os.Stdout); err != nil {
-- 
2.43.0


From 4df4a2781a19c88a858e64d588cfbd851429e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 14/55] fix: print error messages verbatim

They were used as a format string.
---
 cmd/gowrap/gowrap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index 2964628..b467831 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -21,7 +21,7 @@ func init() {
 func main() {
 	if len(os.Args) < 2 {
 		if err := gowrap.Usage(os.Stderr); err != nil {
-			die(1, err.Error())
+			die(1, "%s", err.Error())
 		}
 		os.Exit(2)
 	}
@@ -38,7 +38,7 @@ func main() {
 
 	if args[0] == "help" {
 		if err := help(args[1:], os.Stdout); err != nil {
-			die(2, err.Error())
+			die(2, "%s", err.Error())
 		}
 		return
 	}
@@ -52,7 +52,7 @@ func main() {
 		if _, ok := err.(gowrap.CommandLineError); ok {
 			die(2, "%s\nRun 'gowrap help %s' for usage.\n", err.Error(), args[0])
 		}
-		die(1, err.Error())
+		die(1, "%s", err.Error())
 	}
 }
 
-- 
2.43.0


From 4e36f18578a2af7ec68b3796950ca8cee01dcebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 15/55] fix: do not treat http:// template URLs as local paths

---
 cmd_generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 5ab5220..7aaa4c4 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -171,7 +171,7 @@ func (gc *GenerateCommand) loadTemplate(outputFileDir string) (contents, url str
 		return "", "", errors.Wrap(err, "failed to load template")
 	}
 
-	if !strings.HasPrefix(url, "https://") {
+	if !strings.HasPrefix(url, "https://") && !strings.HasPrefix(url, "http://") {
 		templatePath, err := gc.filepath.Abs(url)
 		if err != nil {
 			return "", "", err
-- 
2.43.0


From 760784dc2165d2189b960c37468c62575500eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 16/55] fix: make upFirst and downFirst work for the strings
 that are not valid UTF-8

They panicked or lost bytes of the strings that start with an invalid byte.
---
 cmd_generate.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 7aaa4c4..ac0ac27 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/pkg/errors"
@@ -278,17 +279,21 @@ func init() {
 }
 
 func upFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToUpper(v)) + s[len(string(v)):]
+	v, size := utf8.DecodeRuneInString(s)
+	if v == utf8.RuneError && size <= 1 {
+		return s
 	}
-	return ""
+
+	return string(unicode.ToUpper(v)) + s[size:]
 }
 
 func downFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToLower(v)) + s[len(string(v)):]
+	v, size := utf8.DecodeRuneInString(s)
+	if v == utf8.RuneError && size <= 1 {
+		return s
 	}
-	return ""
+
+	return string(unicode.ToLower(v)) + s[size:]
 }
 
 var matchFirstCap = regexp.MustCompile("(.)([A-Z][a-z]+)")
-- 
2.43.0


From 61972b0ddf9c330f172a5769891f020d7cb1c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 17/55] fix: make concurrent Generate calls safe

The local prefix of the imports package is a global variable.
---
 generator/generator.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index b13ae82..7748321 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync"
 	"text/template"
 
 	"github.com/pkg/errors"
@@ -336,8 +337,7 @@ func (g Generator) Generate(w io.Writer) error {
 		return err
 	}
 
-	imports.LocalPrefix = g.localPrefix
-	processedSource, err := imports.Process(g.Options.OutputFile, buf.Bytes(), nil)
+	processedSource, err := g.processImports(buf.Bytes())
 	if err != nil {
 		return errors.Wrapf(err, "failed to format generated code:\n%s", buf)
 	}
@@ -346,6 +346,18 @@ func (g Generator) Generate(w io.Writer) error {
 	return err
 }
 
+// importsLock protects imports.LocalPrefix
+var importsLock sync.Mutex
+
+func (g Generator) processImports(source []byte) ([]byte, error) {
+	importsLock.Lock()
+	defer importsLock.Unlock()
+
+	imports.LocalPrefix = g.localPrefix
+
+	return imports.Process(g.Options.OutputFile, source, nil)
+}
+
 var errTargetNotFound = errors.New("target declaration not found")
 
 func findTarget(input processInput) (output processOutput, err error) {
-- 
2.43.0


From a88183099c8138faba34bd7d5324c374a3853849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 18/55] fix: quote arguments of the go:generate instruction

Values and paths that contain spaces, quotes or dollar signs were changed or
split when the instruction was run.
---
 cmd_generate.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index ac0ac27..2231e3a 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"text/template"
 	"unicode"
@@ -256,20 +257,33 @@ func varsToArgs(v vars) string {
 	for _, vf := range v {
 		switch typedValue := vf.value.(type) {
 		case string:
-			ss = append(ss, vf.name+"="+typedValue)
+			ss = append(ss, quoteArg(vf.name+"="+typedValue))
 		case bool:
-			ss = append(ss, vf.name)
+			ss = append(ss, quoteArg(vf.name))
 		}
 	}
 
 	return " -v " + strings.Join(ss, " -v ")
 }
 
+// quoteArg returns the argument the way it should be written in the go:generate instruction
+func quoteArg(s string) string {
+	needsQuotes := s == "" || strings.ContainsAny(s, "\"$") || strings.IndexFunc(s, func(r rune) bool {
+		return unicode.IsSpace(r) || !unicode.IsPrint(r)
+	}) >= 0
+	if !needsQuotes {
+		return s
+	}
+
+	return strings.ReplaceAll(strconv.Quote(s), "$", "${DOLLAR}")
+}
+
 var helperFuncs template.FuncMap
 
 func init() {
 	helperFuncs = sprig.TxtFuncMap()
 
+	helperFuncs["quoteArg"] = quoteArg
 	helperFuncs["up"] = strings.ToUpper
 	helperFuncs["down"] = strings.ToLower
 	helperFuncs["upFirst"] = upFirst
@@ -312,7 +326,7 @@ const headerTemplate = `// Code generated by gowrap. DO NOT EDIT.
 package {{.Package.Name}}
 
 {{if (not .Options.HeaderVars.DisableGoGenerate)}}
-//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{.Options.HeaderVars.Template}} -o {{.Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l "{{.Options.LocalPrefix}}"
+//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{quoteArg .Options.HeaderVars.Template}} -o {{quoteArg .Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l "{{.Options.LocalPrefix}}"
 {{end}}
 import(
 {{range $import := .Options.Imports}}{{$import}}
-- 
2.43.0


From 48859f1848c2e721953d0bb69f1bcc40dc84297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 19/55] fix: elasticapm: do not declare the option with the
 decorator name

The type was declared twice when the DecoratorName variable was set.
---
 templates/elasticapm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index c29f78a..18ee226 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -4,7 +4,7 @@ import (
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sAPMTracing" .Interface.Name)) }}
-{{ $decorator_option := (or .Vars.DecoratorName (printf "%sAPMTracingOption" .Interface.Name)) }}
+{{ $decorator_option := (printf "%sOption" $decorator) }}
 {{ $component := (or .Vars.ComponentName (printf "%s" (down .Interface.Name))) }}
 
 // {{$decorator}} implements {{.Interface.Type}} interface with all methods wrapped
-- 
2.43.0


From eb1cde2cf1868584e8ac2ca576692a16d5f414fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 20/55] fix: elasticapm, timeout: do not hide method parameters

Local variables had the names method parameters can have.
---
 templates/elasticapm | 6 +++---
 templates/timeout    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index 18ee226..d35cdb4 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -62,18 +62,18 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
         {{- if $method.AcceptsContext }}
-            span, ctx := _d.startSpan(ctx, "{{ $span_name }}", _d.spanType)
+            _span, ctx := _d.startSpan(ctx, "{{ $span_name }}", _d.spanType)
             defer func() {
                 {{- if $method.ReturnsError -}}
                     if err != nil {
                         _d.captureError(ctx, err)
                     }
                 {{- end }}
-                _d.endSpan(span)
+                _d.endSpan(_span)
             }()
             {{- range $param := $method.Params -}}
                 {{- if not (eq $param.Name "ctx") -}}
-                    _d.setLabel(span, "{{ (snake $param.Name) }}", {{ $param.Name }})
+                    _d.setLabel(_span, "{{ (snake $param.Name) }}", {{ $param.Name }})
                 {{- end}}
             {{ end }}
         {{ end }}
diff --git a/templates/timeout b/templates/timeout
index ed84503..f94d076 100644
--- a/templates/timeout
+++ b/templates/timeout
@@ -29,10 +29,10 @@ func New{{$decorator}} (base {{.Interface.Type}}, config {{$decorator}}Config) {
   {{if $method.AcceptsContext  }}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
-      var cancelFunc func()
+      var _cancelFunc func()
       if _d.config.{{$method.Name}}Timeout > 0 {
-        ctx, cancelFunc = context.WithTimeout(ctx, _d.config.{{$method.Name}}Timeout)
-        defer cancelFunc()
+        ctx, _cancelFunc = context.WithTimeout(ctx, _d.config.{{$method.Name}}Timeout)
+        defer _cancelFunc()
       }
       {{$method.Pass (printf "_d.%s." $.Interface.Name) }}
     }
-- 
2.43.0


From 0fc1cba0b0715988f4551c2c90365d6861fa9d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 21/55] fix: elasticapm: implement methods that do not accept
 the context

The decorator did not implement the interfaces that have such methods.
---
 templates/elasticapm | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templates/elasticapm b/templates/elasticapm
index d35cdb4..fc7ccb6 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -79,5 +79,10 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
         {{ end }}
         {{$method.Pass "_d.base."}}
     }
+  {{else}}
+    // {{$method.Name}} implements {{$.Interface.Type}}
+    func (_d {{$decorator}}) {{$method.Declaration}} {
+        {{$method.Pass "_d.base."}}
+    }
   {{end}}
 {{end}}
-- 
2.43.0


From e4fef7242b3d0c6ea1a29861edd49d78cbe5e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 22/55] fix: twirp_error: give the helper function a decorator
 specific name

Two decorators in one package declared the same function.
---
 templates/twirp_error | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/templates/twirp_error b/templates/twirp_error
index 067befa..e35c41b 100644
--- a/templates/twirp_error
+++ b/templates/twirp_error
@@ -1,4 +1,6 @@
 import (
+  "encoding/json"
+
   "github.com/twitchtv/twirp"
 )
 
@@ -22,7 +24,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
     {{- if $method.ReturnsError}}
       {{range $param := $method.Params}}
         {{if not ( and $method.AcceptsContext (eq $param.Name "ctx")) }}
-          defer injectRequestDataToError({{$param.Name}} ,&err)
+          defer _inject{{$decorator}}RequestData({{$param.Name}}, &err)
         {{end}}
       {{end}}
     {{end}}
@@ -30,7 +32,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
   }
 {{end}}
 
-func injectRequestDataToError(req interface{}, perr *error) {
+func _inject{{$decorator}}RequestData(req interface{}, perr *error) {
 	err := *perr
 	if err != nil {
 		twerr, ok := err.(twirp.Error)
-- 
2.43.0


From cc4ec28473fe28896515279e903d986972b9de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 23/55] fix: fallback: wait for the first successful result of
 the methods without a context

Methods that return an error but do not accept a context did not compile,
results could be dropped when nobody was receiving which blocked the call
forever, the goroutine that starts the implementations was never stopped after
the first successful result.
---
 templates/fallback | 64 +++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/templates/fallback b/templates/fallback
index fbd321c..975cc3c 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -23,7 +23,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
       type _resultStruct {{$method.ResultsStruct}}
-      var _ch = make(chan _resultStruct, 0)
+      var _ch = make(chan _resultStruct, len(_d.implementations))
       var _next = make(chan struct{}, len(_d.implementations))
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d.interval)
@@ -32,6 +32,9 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
       {{- if $method.AcceptsContext}}
         ctx, _cancelFunc := context.WithCancel(ctx)
         defer _cancelFunc()
+      {{else}}
+        var _done = make(chan struct{})
+        defer close(_done)
       {{end}}
 
       go func() {
@@ -44,63 +47,44 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
               }
             {{end}}
 
-            {{if $method.AcceptsContext}}
-              select {
-                case _ch <- _resultStruct{ {{$method.ResultsNames}} }:
-                case <-ctx.Done():
-              }
-            {{else}}
-              select {
-                case _ch <- _resultStruct{ {{$method.ResultsNames}} }:
-                default:
-              }
-            {{end}}
+            _ch <- _resultStruct{ {{$method.ResultsNames}} }
           }(_d.implementations[_i])
 
           if _i < len(_d.implementations) - 1 {
             select {
               case <-_next:
               case <-_ticker.C:
+              case <-{{if $method.AcceptsContext}}ctx.Done(){{else}}_done{{end}}:
+                return
             }
           }
         }
       }()
 
-        {{if $method.AcceptsContext}}
-          for {
-              select {
-              case {{if $method.HasResults}}_res := {{end}} <- _ch:
-                {{- if $method.ReturnsError}}
-                  if _res.err == nil {
-                    {{ $method.ReturnStruct "_res" }}
-                  }
-                  _next <- struct{}{}
-                  _errorsList = append(_errorsList, _res.err.Error())
-                  if len(_errorsList) == len(_d.implementations) {
-                    err =  errors.New(strings.Join(_errorsList, ";"))
-                    return
-                  }
-                {{else}}
-                  {{ $method.ReturnStruct "_res" }}
-                {{end -}}
-              {{if $method.AcceptsContext}}case <-ctx.Done():
-                {{if $method.ReturnsError}}
-                  err = fmt.Errorf("%w: %s", ctx.Err(), strings.Join(_errorsList, ";"))
-                {{end}}
-                return
-              {{end -}}
-              }
-          }
-        {{else}}
-          {{if $method.HasResults}}_res := {{end}} <- _ch
+      for {
+        select {
+        case {{if $method.HasResults}}_res := {{end}}<-_ch:
           {{- if $method.ReturnsError}}
             if _res.err == nil {
               {{ $method.ReturnStruct "_res" }}
             }
+            _next <- struct{}{}
             _errorsList = append(_errorsList, _res.err.Error())
+            if len(_errorsList) == len(_d.implementations) {
+              err = errors.New(strings.Join(_errorsList, ";"))
+              return
+            }
           {{else}}
             {{ $method.ReturnStruct "_res" }}
           {{end -}}
-        {{end}}
+        {{- if $method.AcceptsContext}}
+        case <-ctx.Done():
+          {{- if $method.ReturnsError}}
+            err = fmt.Errorf("%w: %s", ctx.Err(), strings.Join(_errorsList, ";"))
+          {{end}}
+          return
+        {{end -}}
+        }
+      }
   }
 {{end}}
-- 
2.43.0


From 6dae4d8c88f4f77e20ce64943e84eeb3201bc670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 24/55] fix: do not panic on methods with an empty list of
 results

---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 7174c84..e86e551 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -90,7 +90,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter) (*Method, error)
 	usedNames := map[string]bool{}
 
 	//Always name the last return parameter as an "err" if it's of type "error"
-	if f.Results != nil {
+	if f.Results != nil && len(f.Results.List) > 0 {
 		ident, ok := f.Results.List[len(f.Results.List)-1].Type.(*ast.Ident)
 		m.ReturnsError = ok && ident.Name == "error"
 		usedNames["err"] = true
-- 
2.43.0


From 373b3cab4ecfc7ca92ba0dc24fc3c5e9e84a0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 25/55] fix: generate valid names for the parameters of types
 with non-ASCII names

---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index e86e551..48b92cb 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -210,7 +210,7 @@ func typePrefix(e ast.Expr) string {
 	case *ast.FuncType:
 		return "f"
 	case *ast.Ident:
-		return strings.ToLower(t.Name[0:1])
+		return strings.ToLower(string([]rune(t.Name)[0]))
 	}
 
 	return "p"
-- 
2.43.0


From 718a00970f395e9491adc048c9c4f81e9ae2ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 26/55] fix: collect the methods of embedded interface literals

---
 generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 7748321..949899c 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -705,6 +705,9 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 				continue
 			}
 
+		case *ast.InterfaceType:
+			embeddedMethods, err = processInterface(v, targetInput)
+
 		default:
 			_, embeddedMethods, err = processEmbedded(v, pr, targetInput, true)
 		}
-- 
2.43.0


From 84156f6c91b6f9eb7244bea2fd9bbfc60b749227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 27/55] fix: keep the names of the parameters of other Context
 types

---
 generator/generator.go | 3 +--
 generator/types.go     | 7 ++++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 949899c..fa7373a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -698,9 +698,8 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 			targetInput.useImports(v)
 
-			method, err = NewMethod(field.Names[0].Name, field, pr)
+			method, err = newMethod(field.Names[0].Name, field, pr, targetInput.isContext)
 			if err == nil {
-				method.AcceptsContext = method.AcceptsContext && targetInput.isContext(v.Params.List[0].Type)
 				methods[field.Names[0].Name] = *method
 				continue
 			}
diff --git a/generator/types.go b/generator/types.go
index 48b92cb..bb53f06 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -67,6 +67,11 @@ func (p Param) Pass() string {
 
 // NewMethod returns pointer to Signature struct or error
 func NewMethod(name string, fi *ast.Field, printer typePrinter) (*Method, error) {
+	return newMethod(name, fi, printer, func(ast.Expr) bool { return true })
+}
+
+// newMethod makes a method, isContext is asked about the types named Context
+func newMethod(name string, fi *ast.Field, printer typePrinter, isContext func(ast.Expr) bool) (*Method, error) {
 	f, ok := fi.Type.(*ast.FuncType)
 	if !ok {
 		return nil, fmt.Errorf("%q is not a method", name)
@@ -98,7 +103,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter) (*Method, error)
 
 	if len(f.Params.List) > 0 {
 		if se, ok := f.Params.List[0].Type.(*ast.SelectorExpr); ok {
-			m.AcceptsContext = ok && se.Sel.Name == "Context"
+			m.AcceptsContext = ok && se.Sel.Name == "Context" && isContext(se)
 			usedNames["ctx"] = true
 		}
 	}
-- 
2.43.0


From 21036e01402df0c3ad7f260484aa2fc2ae2237cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 28/55] fix: print every kind of type parameter constraints

---
 generator/generator.go |  4 ++++
 generator/generics.go  | 50 +++++++++++++++++++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index fa7373a..0d1eaad 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -385,6 +385,10 @@ func findTarget(input processInput) (output processOutput, err error) {
 	}
 
 	if isRoot {
+		if err := checkConstraints(ts, types, input.astPackage.Name); err != nil {
+			return processOutput{}, err
+		}
+
 		//embedded interfaces can be declared in the files that have other imports
 		output.imports = addImports(imports, *input.usedImports...)
 	}
diff --git a/generator/generics.go b/generator/generics.go
index f14488b..aa55fb1 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -4,6 +4,8 @@ import (
 	"go/ast"
 	"go/token"
 	"strings"
+
+	"github.com/hexdigest/gowrap/printer"
 )
 
 const (
@@ -96,6 +98,8 @@ func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, types
 		return
 	}
 
+	allTypes = withoutTypeParams(allTypes, ts.TypeParams)
+
 	for _, param := range ts.TypeParams.List {
 		if param == nil {
 			continue
@@ -118,6 +122,44 @@ func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, types
 	return
 }
 
+// withoutTypeParams returns the types that are not hidden by the type parameters
+func withoutTypeParams(types []*ast.TypeSpec, typeParams *ast.FieldList) []*ast.TypeSpec {
+	hidden := make(map[string]bool)
+	for _, param := range typeParams.List {
+		if param != nil {
+			for _, name := range param.Names {
+				hidden[name.Name] = true
+			}
+		}
+	}
+
+	result := make([]*ast.TypeSpec, 0, len(types))
+	for _, ts := range types {
+		if !hidden[ts.Name.Name] {
+			result = append(result, ts)
+		}
+	}
+
+	return result
+}
+
+// checkConstraints returns an error if the constraints of the type parameters can't be
+// referenced from the destination package
+func checkConstraints(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, typesPrefix string) error {
+	if ts.TypeParams == nil {
+		return nil
+	}
+
+	pr := printer.New(token.NewFileSet(), withoutTypeParams(allTypes, ts.TypeParams), typesPrefix)
+	for _, param := range ts.TypeParams.List {
+		if _, err := pr.PrintType(param.Type); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func parseBinaryExpr(expr *ast.BinaryExpr, allTypes []*ast.TypeSpec, typesPrefix string) string {
 	if expr.Op != token.OR {
 		return ""
@@ -138,12 +180,14 @@ func parseGenericType(exprPart ast.Expr, allTypes []*ast.TypeSpec, typesPrefix s
 		part = expr.X.(*ast.Ident).Name + "." + expr.Sel.Name
 	case *ast.UnaryExpr:
 		if expr.Op == token.TILDE {
-			if id, ok := expr.X.(*ast.Ident); ok {
-				part = "~" + id.Name
-			}
+			part = "~" + parseGenericType(expr.X, allTypes, typesPrefix)
 		}
 	case *ast.BinaryExpr:
 		part = parseBinaryExpr(expr, allTypes, typesPrefix)
+	case nil:
+	default:
+		//errors are reported by checkConstraints
+		part, _ = printer.New(token.NewFileSet(), allTypes, typesPrefix).PrintType(expr)
 	}
 
 	return
-- 
2.43.0


From acfd122900c4352ecca5e2e5cd792950d764757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 29/55] fix: quote the local prefix of the go:generate
 instruction

---
 cmd_generate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 2231e3a..2d91eee 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -275,6 +275,10 @@ func quoteArg(s string) string {
 		return s
 	}
 
+	return forceQuoteArg(s)
+}
+
+func forceQuoteArg(s string) string {
 	return strings.ReplaceAll(strconv.Quote(s), "$", "${DOLLAR}")
 }
 
@@ -284,6 +288,7 @@ func init() {
 	helperFuncs = sprig.TxtFuncMap()
 
 	helperFuncs["quoteArg"] = quoteArg
+	helperFuncs["forceQuoteArg"] = forceQuoteArg
 	helperFuncs["up"] = strings.ToUpper
 	helperFuncs["down"] = strings.ToLower
 	helperFuncs["upFirst"] = upFirst
@@ -326,7 +331,7 @@ const headerTemplate = `// Code generated by gowrap. DO NOT EDIT.
 package {{.Package.Name}}
 
 {{if (not .Options.HeaderVars.DisableGoGenerate)}}
-//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{quoteArg .Options.HeaderVars.Template}} -o {{quoteArg .Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l "{{.Options.LocalPrefix}}"
+//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{quoteArg .Options.HeaderVars.Template}} -o {{quoteArg .Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l {{forceQuoteArg .Options.LocalPrefix}}
 {{end}}
 import(
 {{range $import := .Options.Imports}}{{$import}}
-- 
2.43.0


From 9406fc9e5cbff845178648d1e37532d8e001d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 30/55] fix: refuse to decorate interfaces of main packages in
 other packages

---
 generator/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 0d1eaad..a22b3f3 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -163,6 +163,7 @@ type processOutput struct {
 
 var errEmptyInterface = errors.New("interface has no methods")
 var errUnexportedInterface = errors.New("unexported interface")
+var errMainPackage = errors.New("main package can't be imported")
 var errUnexportedMethod = errors.New("unexported method")
 
 // NewGenerator returns Generator initialized with options
@@ -218,6 +219,10 @@ func NewGenerator(options Options) (*Generator, error) {
 		interfaceType = options.InterfaceName
 		srcPackageAST.Name = ""
 	} else {
+		if srcPackage.Name == "main" {
+			return nil, errors.Wrap(errMainPackage, srcPackage.PkgPath)
+		}
+
 		if options.SourcePackageAlias != "" {
 			srcPackageAST.Name = options.SourcePackageAlias
 		} else {
-- 
2.43.0


From 9e736328b48510753798bffdaa5dc19e6ae44cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:24 +0000
Subject: [PATCH 31/55] fix: resolve dot imports of the source files

---
 pkg/package.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/pkg/package.go b/pkg/package.go
index fabc5c2..8c12e98 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -6,7 +6,9 @@ import (
 	"go/parser"
 	"go/token"
 	"path/filepath"
+	"strings"
 
+	"golang.org/x/tools/go/ast/astutil"
 	"golang.org/x/tools/go/packages"
 )
 
@@ -54,6 +56,10 @@ func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 			ignoredFiles[fileName] = true
 		}
 
+		for _, f := range ap.Files {
+			resolveDotImports(f, p)
+		}
+
 		return &Package{
 			Name:         p.Name,
 			Files:        ap.Files,
@@ -64,6 +70,54 @@ func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 	return &Package{Name: p.Name}, nil
 }
 
+// resolveDotImports turns the dot imports into the regular ones
+func resolveDotImports(f *ast.File, p *packages.Package) {
+	qualifiers := map[string]string{}
+	for _, i := range f.Imports {
+		imported, ok := p.Imports[strings.Trim(i.Path.Value, "\"`")]
+		if !ok || i.Name == nil || i.Name.Name != "." {
+			continue
+		}
+
+		for _, fileName := range imported.GoFiles {
+			file, err := parser.ParseFile(token.NewFileSet(), fileName, nil, 0)
+			if err != nil {
+				continue
+			}
+
+			for name := range file.Scope.Objects {
+				qualifiers[name] = imported.Name
+			}
+		}
+
+		i.Name = nil
+	}
+
+	if len(qualifiers) == 0 {
+		return
+	}
+
+	//exported identifiers that are not declared in the file
+	unresolved := make(map[*ast.Ident]bool, len(f.Unresolved))
+	for _, ident := range f.Unresolved {
+		unresolved[ident] = ident.IsExported()
+	}
+
+	astutil.Apply(f, func(c *astutil.Cursor) bool {
+		ident, ok := c.Node().(*ast.Ident)
+		if !ok || !unresolved[ident] || qualifiers[ident.Name] == "" {
+			return true
+		}
+
+		c.Replace(&ast.SelectorExpr{
+			X:   &ast.Ident{Name: qualifiers[ident.Name], NamePos: ident.Pos()},
+			Sel: ident,
+		})
+
+		return false
+	}, nil)
+}
+
 // Dir returns absolute path of the package in a filesystem
 func Dir(p *packages.Package) string {
 	files := append(p.GoFiles, p.OtherFiles...)
-- 
2.43.0


From 3e15f605c68af770899cbf93274b6376f09393d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:14 +0000
Subject: [PATCH 32/55] fix: quote arguments that are not valid UTF-8 in the
 go:generate instruction

---
 cmd_generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 2d91eee..8b70395 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -268,7 +268,7 @@ func varsToArgs(v vars) string {
 
 // quoteArg returns the argument the way it should be written in the go:generate instruction
 func quoteArg(s string) string {
-	needsQuotes := s == "" || strings.ContainsAny(s, "\"$") || strings.IndexFunc(s, func(r rune) bool {
+	needsQuotes := s == "" || !utf8.ValidString(s) || strings.ContainsAny(s, "\"$") || strings.IndexFunc(s, func(r rune) bool {
 		return unicode.IsSpace(r) || !unicode.IsPrint(r)
 	}) >= 0
 	if !needsQuotes {
-- 
2.43.0


From bf426e6952fbd91b8d53729fe339b45046ff9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:14 +0000
Subject: [PATCH 33/55] fix: quote template paths with special characters in
 the header comment

---
 cmd_generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 8b70395..a8ee027 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -325,7 +325,7 @@ func toSnakeCase(str string) string {
 }
 
 const headerTemplate = `// Code generated by gowrap. DO NOT EDIT.
-// template: {{.Options.HeaderVars.Template}}
+// template: {{quoteArg .Options.HeaderVars.Template}}
 // gowrap: http://github.com/hexdigest/gowrap
 
 package {{.Package.Name}}
-- 
2.43.0


From 80a080cdab20231fe11a6632789538b3c67e89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 34/55] fix: recognize import paths written as raw string
 literals

---
 pkg/package.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/package.go b/pkg/package.go
index 8c12e98..07d1acb 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -6,6 +6,7 @@ import (
 	"go/parser"
 	"go/token"
 	"path/filepath"
+	"strconv"
 	"strings"
 
 	"golang.org/x/tools/go/ast/astutil"
@@ -57,6 +58,7 @@ func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 		}
 
 		for _, f := range ap.Files {
+			normalizeImportPaths(f)
 			resolveDotImports(f, p)
 		}
 
@@ -70,11 +72,20 @@ func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 	return &Package{Name: p.Name}, nil
 }
 
+// normalizeImportPaths replaces raw string literals with the interpreted ones
+func normalizeImportPaths(f *ast.File) {
+	for _, i := range f.Imports {
+		if path, err := strconv.Unquote(i.Path.Value); err == nil {
+			i.Path.Value = strconv.Quote(path)
+		}
+	}
+}
+
 // resolveDotImports turns the dot imports into the regular ones
 func resolveDotImports(f *ast.File, p *packages.Package) {
 	qualifiers := map[string]string{}
 	for _, i := range f.Imports {
-		imported, ok := p.Imports[strings.Trim(i.Path.Value, "\"`")]
+		imported, ok := p.Imports[strings.Trim(i.Path.Value, `"`)]
 		if !ok || i.Name == nil || i.Name.Name != "." {
 			continue
 		}
-- 
2.43.0


From 2e7c8759e6b00109a981e3c2e295cc106eddd8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 35/55] fix: merge the imports of the header and of the
 template

---
 generator/generator.go | 115 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 114 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index a22b3f3..6f15cf4 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/ast"
+	"go/parser"
 	"go/token"
 	"io"
 	"path/filepath"
@@ -360,7 +361,119 @@ func (g Generator) processImports(source []byte) ([]byte, error) {
 
 	imports.LocalPrefix = g.localPrefix
 
-	return imports.Process(g.Options.OutputFile, source, nil)
+	return imports.Process(g.Options.OutputFile, mergeImportDecls(source, g.srcPackage), nil)
+}
+
+// mergeImportDecls moves the imports to the first import declaration and removes the repeated ones.
+// The header and the template can import the same package, and imports.Process neither
+// removes nor groups the repeated named imports that belong to different declarations.
+func mergeImportDecls(source []byte, srcPackage *packages.Package) []byte {
+	fs := token.NewFileSet()
+
+	f, err := parser.ParseFile(fs, "", source, parser.ImportsOnly|parser.ParseComments)
+	if err != nil {
+		return source //it's reported when the source is formatted
+	}
+
+	var decls []*ast.GenDecl
+	var merged bytes.Buffer
+	known := map[string]bool{}
+
+	named := map[string]bool{}
+	for _, i := range f.Imports {
+		if i.Name != nil {
+			named[unquote(i.Path.Value)] = true
+		}
+	}
+
+	names := importNames(srcPackage)
+
+	for _, decl := range f.Decls {
+		gd, ok := decl.(*ast.GenDecl)
+		if !ok || importsC(gd) {
+			continue
+		}
+
+		decls = append(decls, gd)
+		for _, spec := range gd.Specs {
+			is := spec.(*ast.ImportSpec)
+
+			//packages that are imported in both ways, with and without a name
+			if path := unquote(is.Path.Value); is.Name == nil && named[path] && names[path] != "" {
+				is.Name = ast.NewIdent(names[path])
+			}
+
+			key := makeImports([]*ast.ImportSpec{is})[0]
+			if known[key] {
+				continue
+			}
+			known[key] = true
+
+			//doc comment of a declaration without parentheses stays where it is
+			if is.Doc != nil && gd.Lparen.IsValid() {
+				for _, c := range is.Doc.List {
+					merged.WriteString(c.Text + "\n")
+				}
+			}
+
+			merged.WriteString(key)
+			if is.Comment != nil {
+				for _, c := range is.Comment.List {
+					merged.WriteString(" " + c.Text)
+				}
+			}
+			merged.WriteString("\n")
+		}
+	}
+
+	if len(decls) == 0 {
+		return source
+	}
+
+	var result []byte
+	copied := 0
+
+	for i, gd := range decls {
+		result = append(result, source[copied:fs.Position(gd.Pos()).Offset]...)
+		copied = fs.Position(gd.End()).Offset
+
+		for _, spec := range gd.Specs {
+			if comment := spec.(*ast.ImportSpec).Comment; comment != nil && comment.End() > gd.End() {
+				copied = fs.Position(comment.End()).Offset
+			}
+		}
+
+		if i == 0 {
+			result = append(result, "import (\n"+merged.String()+")"...)
+		}
+	}
+
+	return append(result, source[copied:]...)
+}
+
+// importNames returns names of the package and everything it imports
+func importNames(p *packages.Package) map[string]string {
+	names := map[string]string{}
+	if p == nil {
+		return names
+	}
+
+	packages.Visit([]*packages.Package{p}, nil, func(p *packages.Package) {
+		names[p.PkgPath] = p.Name
+	})
+
+	return names
+}
+
+// importsC returns true if the declaration imports pseudo package that is used by cgo
+func importsC(gd *ast.GenDecl) bool {
+	for _, spec := range gd.Specs {
+		if unquote(spec.(*ast.ImportSpec).Path.Value) == "C" {
+			return true
+		}
+	}
+
+	return false
 }
 
 var errTargetNotFound = errors.New("target declaration not found")
-- 
2.43.0


From 86ecd34c3f98d81dfaedb3cafbce9d465a32a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 36/55] fix: decorate interfaces of the files that use cgo

---
 generator/generator.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 6f15cf4..b9739bb 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -258,7 +258,12 @@ func NewGenerator(options Options) (*Generator, error) {
 		}
 	}
 
-	options.Imports = append(options.Imports, makeImports(output.imports)...)
+	for _, i := range makeImports(output.imports) {
+		//cgo types can't be used in the other packages
+		if srcPackageAST.Name == "" || i != ` "C"` {
+			options.Imports = append(options.Imports, i)
+		}
+	}
 
 	genericTypes, genericParams := output.genericTypes.buildVars()
 
@@ -390,7 +395,7 @@ func mergeImportDecls(source []byte, srcPackage *packages.Package) []byte {
 
 	for _, decl := range f.Decls {
 		gd, ok := decl.(*ast.GenDecl)
-		if !ok || importsC(gd) {
+		if !ok || !gd.Lparen.IsValid() && importsC(gd.Specs[0]) {
 			continue
 		}
 
@@ -409,6 +414,10 @@ func mergeImportDecls(source []byte, srcPackage *packages.Package) []byte {
 			}
 			known[key] = true
 
+			if importsC(is) {
+				continue
+			}
+
 			//doc comment of a declaration without parentheses stays where it is
 			if is.Doc != nil && gd.Lparen.IsValid() {
 				for _, c := range is.Doc.List {
@@ -445,6 +454,9 @@ func mergeImportDecls(source []byte, srcPackage *packages.Package) []byte {
 
 		if i == 0 {
 			result = append(result, "import (\n"+merged.String()+")"...)
+			if known[` "C"`] {
+				result = append(result, "\nimport \"C\""...)
+			}
 		}
 	}
 
@@ -465,15 +477,9 @@ func importNames(p *packages.Package) map[string]string {
 	return names
 }
 
-// importsC returns true if the declaration imports pseudo package that is used by cgo
-func importsC(gd *ast.GenDecl) bool {
-	for _, spec := range gd.Specs {
-		if unquote(spec.(*ast.ImportSpec).Path.Value) == "C" {
-			return true
-		}
-	}
-
-	return false
+// importsC returns true if the pseudo package that is used by cgo is imported
+func importsC(spec ast.Spec) bool {
+	return unquote(spec.(*ast.ImportSpec).Path.Value) == "C"
 }
 
 var errTargetNotFound = errors.New("target declaration not found")
-- 
2.43.0


From f8c11dbab257fccdf9c50e20b5f113a1e81f3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:50 +0000
Subject: [PATCH 37/55] fix: do not parse the files that are never included in
 a package

Files with the names that begin with _ or . are ignored by the go command, but
their declarations were used and their syntax errors were reported.
---
 pkg/package.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/package.go b/pkg/package.go
index 07d1acb..76471ef 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io/fs"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -46,7 +47,7 @@ func Load(path string) (*packages.Package, error) {
 func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 	dir := Dir(p)
 
-	pkgs, err := parser.ParseDir(fs, dir, nil, parser.DeclarationErrors|parser.ParseComments)
+	pkgs, err := parser.ParseDir(fs, dir, isPackageFile, parser.DeclarationErrors|parser.ParseComments)
 	if err != nil {
 		return nil, err
 	}
@@ -72,6 +73,11 @@ func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 	return &Package{Name: p.Name}, nil
 }
 
+// isPackageFile returns false for the files that the go command never includes in a package
+func isPackageFile(fi fs.FileInfo) bool {
+	return !strings.HasPrefix(fi.Name(), "_") && !strings.HasPrefix(fi.Name(), ".")
+}
+
 // normalizeImportPaths replaces raw string literals with the interpreted ones
 func normalizeImportPaths(f *ast.File) {
 	for _, i := range f.Imports {
-- 
2.43.0


From ee71faa90656b4ec5ae4cd09bcca5034e63249e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:51 +0000
Subject: [PATCH 38/55] fix: do not treat predeclared types as the ones of the
 excluded files

Types that are declared in the files excluded by the build constraints hid the
predeclared ones that have the same names.
---
 generator/generator.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index b9739bb..11d87c8 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -691,11 +691,16 @@ func iterateFiles(p *pkg.Package, name string) (selectedType *ast.TypeSpec, impo
 	sort.Strings(fileNames)
 
 	selectedIsIgnored := false
+	var ignoredTypes []*ast.TypeSpec
 	for _, fileName := range fileNames {
 		f := p.Files[fileName]
 		if f != nil {
 			for _, ts := range typeSpecs(f) {
-				types = append(types, ts)
+				if p.IgnoredFiles[fileName] {
+					ignoredTypes = append(ignoredTypes, ts)
+				} else {
+					types = append(types, ts)
+				}
 				//files that are excluded by the build constraints can declare the same type
 				if ts.Name.Name == name && (selectedType == nil || selectedIsIgnored) {
 					selectedType = ts
@@ -705,6 +710,11 @@ func iterateFiles(p *pkg.Package, name string) (selectedType *ast.TypeSpec, impo
 			}
 		}
 	}
+
+	if selectedIsIgnored {
+		types = append(types, ignoredTypes...)
+	}
+
 	return
 }
 
-- 
2.43.0


From 63eb196086e1389fda562ef7c4ec2424c7326d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 39/55] fix: name packages of empty current and parent
 directories

Relative path of the directory was used as a name of the package: decorators
for "." were refused, and the ones for ".." were not formatted.
---
 generator/generator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 11d87c8..f908d81 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -307,8 +307,13 @@ func loadDestinationPackage(path string) (*packages.Package, error) {
 var errNoPackageName = errors.New("failed to determine the destination package name")
 
 func makePackage(path string) (*packages.Package, error) {
-	name := filepath.Base(path)
-	if name == string(filepath.Separator) || name == "." {
+	absPath, err := filepath.Abs(path)
+	if err != nil {
+		return nil, err
+	}
+
+	name := filepath.Base(absPath)
+	if name == string(filepath.Separator) {
 		return nil, errNoPackageName
 	}
 
-- 
2.43.0


From 883790b54bc738999886ed02338b7c88d33fd84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 40/55] fix: use the names of the destination packages of the
 other modules

Packages that the main module does not include can not be loaded, decorators
that were written to their directories used names of the directories.
---
 generator/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index f908d81..a78a950 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io"
@@ -307,6 +308,13 @@ func loadDestinationPackage(path string) (*packages.Package, error) {
 var errNoPackageName = errors.New("failed to determine the destination package name")
 
 func makePackage(path string) (*packages.Package, error) {
+	//packages of the other modules can't be loaded but they have a name
+	if p, err := build.ImportDir(path, 0); err == nil {
+		return &packages.Package{
+			Name: p.Name,
+		}, nil
+	}
+
 	absPath, err := filepath.Abs(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d821e12f597ddfa153eb46b5cb09bcc8e2c81441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 41/55] fix: escape names of the remote templates

Names with the characters that are special in URLs referred to other templates,
i.e. log#v2 to log, or were requested incorrectly.
---
 loader/loader.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 71c735e..cc1538a 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	neturl "net/url"
 	"os"
 	"path/filepath"
 	"strings"
@@ -129,7 +130,7 @@ func (l Loader) absGitPath(path string) (string, error) {
 var errTemplateNotFound = errors.New("remote template not found")
 
 func (l Loader) fetchFromGithub(templateName string) ([]byte, string, error) {
-	body, err := l.get(fmt.Sprintf(urlFormatCommits, templateName))
+	body, err := l.get(fmt.Sprintf(urlFormatCommits, escapePath(templateName, neturl.QueryEscape)))
 	if err != nil {
 		return nil, "", err
 	}
@@ -143,7 +144,7 @@ func (l Loader) fetchFromGithub(templateName string) ([]byte, string, error) {
 		return nil, "", errTemplateNotFound
 	}
 
-	url := fmt.Sprintf(urlFormatRaw, commits[0].SHA, templateName)
+	url := fmt.Sprintf(urlFormatRaw, commits[0].SHA, escapePath(templateName, neturl.PathEscape))
 
 	contents, err := l.get(url)
 	if err != nil {
@@ -152,3 +153,13 @@ func (l Loader) fetchFromGithub(templateName string) ([]byte, string, error) {
 
 	return contents, url, nil
 }
+
+// escapePath escapes every element of the path
+func escapePath(path string, escape func(string) string) string {
+	elements := strings.Split(path, "/")
+	for i := range elements {
+		elements[i] = escape(elements[i])
+	}
+
+	return strings.Join(elements, "/")
+}
-- 
2.43.0


From 4a16d4c64c09fe808d7026c1339e2c1b47d18497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 42/55] fix: do not request templates without a commit

When the answer did not contain the hash of the commit a template of no commit
was requested.
---
 loader/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index cc1538a..0fa2f10 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -140,7 +140,7 @@ func (l Loader) fetchFromGithub(templateName string) ([]byte, string, error) {
 		return nil, "", errors.Wrap(err, "failed to decode commit info")
 	}
 
-	if len(commits) == 0 {
+	if len(commits) == 0 || commits[0].SHA == "" {
 		return nil, "", errTemplateNotFound
 	}
 
-- 
2.43.0


From 38dbac05050900074591c896c6280af023213ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 43/55] fix: report that the list of templates was not printed

Errors of writing to the standard output were ignored.
---
 cmd_template.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd_template.go b/cmd_template.go
index e67ddb8..862434a 100644
--- a/cmd_template.go
+++ b/cmd_template.go
@@ -72,9 +72,14 @@ func (gc *TemplateCommand) list(w io.Writer) error {
 		return errNoTemplatesFound
 	}
 
-	fmt.Fprintln(w, "List of available remote templates:")
+	if _, err := fmt.Fprintln(w, "List of available remote templates:"); err != nil {
+		return err
+	}
+
 	for _, t := range templates {
-		fmt.Fprintf(w, "  %s\n", t)
+		if _, err := fmt.Fprintf(w, "  %s\n", t); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From b457f7e099f32dca154ecdcafefdad3c1e5eddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 44/55] fix: do not write to the list of imports of the caller

Generators that were created with the same options wrote to the same array when
the list had a spare capacity.
---
 generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index a78a950..f3b9418 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -188,6 +188,9 @@ func NewGenerator(options Options) (*Generator, error) {
 		options.Vars = make(map[string]interface{})
 	}
 
+	//options can be shared by several generators
+	options.Imports = options.Imports[:len(options.Imports):len(options.Imports)]
+
 	fs := token.NewFileSet()
 
 	var srcPackage *packages.Package
-- 
2.43.0


From da7e68e9c54b622bd144cf34d8ebf9ca36139641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 45/55] fix: robinpool: keep the rotation when 32 bits of the
 counter overflow

---
 templates/robinpool | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/templates/robinpool b/templates/robinpool
index e56d602..af923c8 100644
--- a/templates/robinpool
+++ b/templates/robinpool
@@ -7,9 +7,9 @@ import (
 
 // {{$decorator}} implements {{.Interface.Type}} that uses pool of {{.Interface.Type}}
 type {{$decorator}} struct {
+  counter uint64 // the first field: it has to be 64-bit aligned
   pool []{{.Interface.Type}}
-  poolSize uint32
-  counter uint32
+  poolSize uint64
 }
 
 // New{{$decorator}} takes several implementations of the {{.Interface.Type}} and returns an instance of the {{.Interface.Type}} 
@@ -19,7 +19,7 @@ func New{{$decorator}}(pool ...{{.Interface.Type}}) (*{{$decorator}}, error) {
     return nil, errors.New("empty pool")
   }
   
-  return &{{$decorator}}{pool: pool, poolSize: uint32(len(pool))}, nil
+  return &{{$decorator}}{pool: pool, poolSize: uint64(len(pool))}, nil
 }
 
 // MustNew{{$decorator}} takes several implementations of the {{.Interface.Type}} and returns an instance of the {{.Interface.Type}} 
@@ -29,13 +29,13 @@ func MustNew{{$decorator}}(pool ...{{.Interface.Type}}) *{{$decorator}} {
     panic("empty pool")
   }
   
-  return &{{$decorator}}{pool: pool, poolSize: uint32(len(pool))}
+  return &{{$decorator}}{pool: pool, poolSize: uint64(len(pool))}
 }
 
 {{range $method := .Interface.Methods}}
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d *{{$decorator}}) {{$method.Declaration}} {
-    _counter := atomic.AddUint32(&_d.counter, 1)
+    _counter := atomic.AddUint64(&_d.counter, 1)
     {{ $method.Pass "_d.pool[_counter % _d.poolSize]." }}
   }
 {{end}}
-- 
2.43.0


From 85d86f53bb773fe421af76aed93d764b63705840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 46/55] fix: tell exported names of every alphabet like the
 compiler does

---
 generator/generator.go | 2 +-
 printer/printer.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index f3b9418..18d19bc 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -257,7 +257,7 @@ func NewGenerator(options Options) (*Generator, error) {
 	}
 
 	for _, m := range output.methods {
-		if srcPackageAST.Name != "" && []rune(m.Name)[0] == []rune(strings.ToLower(m.Name))[0] {
+		if srcPackageAST.Name != "" && !ast.IsExported(m.Name) {
 			return nil, errors.Wrap(errUnexportedMethod, m.Name)
 		}
 	}
diff --git a/printer/printer.go b/printer/printer.go
index c14a059..169199e 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -200,7 +200,7 @@ func (p *Printer) printIdent(i *ast.Ident) (string, error) {
 				//destination file is in another package
 				//if the found type matches one of the types declared in a source package and
 				//this type is unexported
-				if []rune(ts.Name.Name)[0] == []rune(strings.ToLower(ts.Name.Name))[0] {
+				if !ast.IsExported(ts.Name.Name) {
 					return "", errors.Wrap(errUnexportedType, ts.Name.Name)
 				}
 				return p.typesPrefix + "." + i.Name, nil
-- 
2.43.0


From bbfbee37247cff9cad92b60360134060598314d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:34 +0000
Subject: [PATCH 47/55] fix: interfaces with unexported methods named like the
 fields of a decorator could not be decorated

---
 templates/elasticapm | 40 ++++++++++++++++++++--------------------
 templates/fallback   | 20 ++++++++++----------
 templates/prometheus | 12 ++++++------
 templates/robinpool  | 14 +++++++-------
 templates/syncpool   |  8 ++++----
 templates/timeout    |  8 ++++----
 6 files changed, 51 insertions(+), 51 deletions(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index fc7ccb6..3c3a498 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -10,19 +10,19 @@ import (
 // {{$decorator}} implements {{.Interface.Type}} interface with all methods wrapped
 // with go.elastic.co/apm/v2
 type {{$decorator}} struct {
-    base         {{.Interface.Type}}
-	startSpan    func(ctx context.Context, name, spanType string) (*apm.Span, context.Context)
-	endSpan      func(span *apm.Span)
-	setLabel 	 func(span *apm.Span, key string, value interface{})
-	captureError func(ctx context.Context, err error)
-	spanType     string
+    _base         {{.Interface.Type}}
+	_startSpan    func(ctx context.Context, name, spanType string) (*apm.Span, context.Context)
+	_endSpan      func(span *apm.Span)
+	_setLabel 	 func(span *apm.Span, key string, value interface{})
+	_captureError func(ctx context.Context, err error)
+	_spanType     string
 }
 
 type {{$decorator_option}} func (v *{{$decorator}})
 
 func {{$decorator}}WithUsingSetLabel() {{$decorator_option}} {
 	return func(v *{{$decorator}}) {
-		v.setLabel = func(span *apm.Span, key string, value interface{}) {
+		v._setLabel = func(span *apm.Span, key string, value interface{}) {
 			span.SpanData.Context.SetLabel(key, value)
 		}
 	}
@@ -30,24 +30,24 @@ func {{$decorator}}WithUsingSetLabel() {{$decorator_option}} {
 
 func {{$decorator}}WithSpanType(spanType string) {{$decorator_option}} {
 	return func(v *{{$decorator}}) {
-		v.spanType = spanType
+		v._spanType = spanType
 	}
 }
 
 // New{{$decorator}} returns an instance of the {{.Interface.Type}} decorated with go.elastic.co/apm/v2
 func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {{$decorator}} {
     r := {{$decorator}} {
-        base: base,
-  		startSpan: apm.StartSpan,
-  		endSpan: func(span *apm.Span) {
+        _base: base,
+  		_startSpan: apm.StartSpan,
+  		_endSpan: func(span *apm.Span) {
   		    span.End()
   		},
-  		setLabel: func(span *apm.Span, key string, value interface{}) {
+  		_setLabel: func(span *apm.Span, key string, value interface{}) {
         },
-  		captureError: func(ctx context.Context, err error) {
+  		_captureError: func(ctx context.Context, err error) {
   			apm.CaptureError(ctx, err).Send()
   		},
-  		spanType: "{{ $component }}",
+  		_spanType: "{{ $component }}",
     }
 
     for _, fn := range opts {
@@ -62,27 +62,27 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
         {{- if $method.AcceptsContext }}
-            _span, ctx := _d.startSpan(ctx, "{{ $span_name }}", _d.spanType)
+            _span, ctx := _d._startSpan(ctx, "{{ $span_name }}", _d._spanType)
             defer func() {
                 {{- if $method.ReturnsError -}}
                     if err != nil {
-                        _d.captureError(ctx, err)
+                        _d._captureError(ctx, err)
                     }
                 {{- end }}
-                _d.endSpan(_span)
+                _d._endSpan(_span)
             }()
             {{- range $param := $method.Params -}}
                 {{- if not (eq $param.Name "ctx") -}}
-                    _d.setLabel(_span, "{{ (snake $param.Name) }}", {{ $param.Name }})
+                    _d._setLabel(_span, "{{ (snake $param.Name) }}", {{ $param.Name }})
                 {{- end}}
             {{ end }}
         {{ end }}
-        {{$method.Pass "_d.base."}}
+        {{$method.Pass "_d._base."}}
     }
   {{else}}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
-        {{$method.Pass "_d.base."}}
+        {{$method.Pass "_d._base."}}
     }
   {{end}}
 {{end}}
diff --git a/templates/fallback b/templates/fallback
index 975cc3c..e98191d 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -9,24 +9,24 @@ import (
 
 // {{$decorator}} implements {{.Interface.Type}} interface wrapped with Prometheus metrics
 type {{$decorator}} struct {
-  implementations []{{.Interface.Type}}
-  interval time.Duration
+  _implementations []{{.Interface.Type}}
+  _interval time.Duration
 }
 
 // New{{$decorator}} takes several implementations of the {{.Interface.Type}} and returns an instance of {{.Interface.Type}}
 // which calls all implementations concurrently with given interval and returns first non-error response.
 func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$decorator}} {
-  return {{$decorator}}{implementations: impls, interval: interval}
+  return {{$decorator}}{_implementations: impls, _interval: interval}
 }
 
 {{range $method := .Interface.Methods}}
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
       type _resultStruct {{$method.ResultsStruct}}
-      var _ch = make(chan _resultStruct, len(_d.implementations))
-      var _next = make(chan struct{}, len(_d.implementations))
+      var _ch = make(chan _resultStruct, len(_d._implementations))
+      var _next = make(chan struct{}, len(_d._implementations))
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
-      var _ticker = time.NewTicker(_d.interval)
+      var _ticker = time.NewTicker(_d._interval)
       defer _ticker.Stop()
 
       {{- if $method.AcceptsContext}}
@@ -38,7 +38,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
       {{end}}
 
       go func() {
-        for _i :=0; _i < len(_d.implementations); _i++ {
+        for _i :=0; _i < len(_d._implementations); _i++ {
           go func(_impl {{$.Interface.Type}}) {
             {{if $method.HasResults}}{{$method.ResultsNames}} := {{end}}_impl.{{$method.Call}}
             {{- if $method.ReturnsError}}
@@ -48,9 +48,9 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
             {{end}}
 
             _ch <- _resultStruct{ {{$method.ResultsNames}} }
-          }(_d.implementations[_i])
+          }(_d._implementations[_i])
 
-          if _i < len(_d.implementations) - 1 {
+          if _i < len(_d._implementations) - 1 {
             select {
               case <-_next:
               case <-_ticker.C:
@@ -70,7 +70,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
             }
             _next <- struct{}{}
             _errorsList = append(_errorsList, _res.err.Error())
-            if len(_errorsList) == len(_d.implementations) {
+            if len(_errorsList) == len(_d._implementations) {
               err = errors.New(strings.Join(_errorsList, ";"))
               return
             }
diff --git a/templates/prometheus b/templates/prometheus
index 9787d80..7c1fc9c 100644
--- a/templates/prometheus
+++ b/templates/prometheus
@@ -11,8 +11,8 @@ import (
 // {{$decorator}} implements {{.Interface.Type}} interface with all methods wrapped
 // with Prometheus metrics
 type {{$decorator}} struct {
-  base {{.Interface.Type}}
-  instanceName string
+  _base {{.Interface.Type}}
+  _instanceName string
 }
 
 var {{down .Interface.Name}}DurationSummaryVec = promauto.NewSummaryVec(
@@ -27,8 +27,8 @@ var {{down .Interface.Name}}DurationSummaryVec = promauto.NewSummaryVec(
 // New{{.Interface.Name}}WithPrometheus returns an instance of the {{.Interface.Type}} decorated with prometheus summary metric
 func New{{$decorator}}(base {{.Interface.Type}}, instanceName string) {{$decorator}} {
   return {{$decorator}} {
-    base: base,
-    instanceName: instanceName,
+    _base: base,
+    _instanceName: instanceName,
   }
 }
 
@@ -43,8 +43,8 @@ func New{{$decorator}}(base {{.Interface.Type}}, instanceName string) {{$decorat
             result = "error"
           }
         {{end}}
-        {{down $.Interface.Name}}DurationSummaryVec.WithLabelValues(_d.instanceName, "{{$method.Name}}", result).Observe(time.Since(_since).Seconds())
+        {{down $.Interface.Name}}DurationSummaryVec.WithLabelValues(_d._instanceName, "{{$method.Name}}", result).Observe(time.Since(_since).Seconds())
       }()
-    {{$method.Pass "_d.base."}}
+    {{$method.Pass "_d._base."}}
   }
 {{end}}
diff --git a/templates/robinpool b/templates/robinpool
index af923c8..9448513 100644
--- a/templates/robinpool
+++ b/templates/robinpool
@@ -7,9 +7,9 @@ import (
 
 // {{$decorator}} implements {{.Interface.Type}} that uses pool of {{.Interface.Type}}
 type {{$decorator}} struct {
-  counter uint64 // the first field: it has to be 64-bit aligned
-  pool []{{.Interface.Type}}
-  poolSize uint64
+  _counter uint64 // the first field: it has to be 64-bit aligned
+  _pool []{{.Interface.Type}}
+  _poolSize uint64
 }
 
 // New{{$decorator}} takes several implementations of the {{.Interface.Type}} and returns an instance of the {{.Interface.Type}} 
@@ -19,7 +19,7 @@ func New{{$decorator}}(pool ...{{.Interface.Type}}) (*{{$decorator}}, error) {
     return nil, errors.New("empty pool")
   }
   
-  return &{{$decorator}}{pool: pool, poolSize: uint64(len(pool))}, nil
+  return &{{$decorator}}{_pool: pool, _poolSize: uint64(len(pool))}, nil
 }
 
 // MustNew{{$decorator}} takes several implementations of the {{.Interface.Type}} and returns an instance of the {{.Interface.Type}} 
@@ -29,13 +29,13 @@ func MustNew{{$decorator}}(pool ...{{.Interface.Type}}) *{{$decorator}} {
     panic("empty pool")
   }
   
-  return &{{$decorator}}{pool: pool, poolSize: uint64(len(pool))}
+  return &{{$decorator}}{_pool: pool, _poolSize: uint64(len(pool))}
 }
 
 {{range $method := .Interface.Methods}}
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d *{{$decorator}}) {{$method.Declaration}} {
-    _counter := atomic.AddUint64(&_d.counter, 1)
-    {{ $method.Pass "_d.pool[_counter % _d.poolSize]." }}
+    _counter := atomic.AddUint64(&_d._counter, 1)
+    {{ $method.Pass "_d._pool[_counter % _d._poolSize]." }}
   }
 {{end}}
diff --git a/templates/syncpool b/templates/syncpool
index 82065fa..89a9854 100644
--- a/templates/syncpool
+++ b/templates/syncpool
@@ -2,7 +2,7 @@
 
 // {{$decorator}} implements {{.Interface.Type}} that uses pool of {{.Interface.Type}}
 type {{$decorator}} struct {
-  pool chan {{.Interface.Type}}
+  _pool chan {{.Interface.Type}}
 }
 
 // New{{$decorator}} takes several implementations of the {{.Interface.Type}} and returns an instance of the {{.Interface.Type}} 
@@ -17,15 +17,15 @@ func New{{$decorator}}(impls ...{{.Interface.Type}}) {{$decorator}} {
     pool <- i
   }
   
-  return {{$decorator}}{pool: pool}
+  return {{$decorator}}{_pool: pool}
 }
 
 {{range $method := .Interface.Methods}}
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
-      _impl := <-_d.pool
+      _impl := <-_d._pool
       defer func() {
-        _d.pool <- _impl
+        _d._pool <- _impl
       }()
       {{ $method.Pass "_impl." }}
   }
diff --git a/templates/timeout b/templates/timeout
index f94d076..d0dc508 100644
--- a/templates/timeout
+++ b/templates/timeout
@@ -8,7 +8,7 @@ import (
 // {{$decorator}} implements {{.Interface.Type}} interface instrumented with timeouts
 type {{$decorator}} struct {
   {{.Interface.Type}}
-  config {{$decorator}}Config
+  _config {{$decorator}}Config
 }
 
 type {{$decorator}}Config struct {
@@ -21,7 +21,7 @@ type {{$decorator}}Config struct {
 func New{{$decorator}} (base {{.Interface.Type}}, config {{$decorator}}Config) {{$decorator}} {
   return {{$decorator}} {
     {{.Interface.Name}}: base,
-    config: config,
+    _config: config,
   }
 }
 
@@ -30,8 +30,8 @@ func New{{$decorator}} (base {{.Interface.Type}}, config {{$decorator}}Config) {
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
       var _cancelFunc func()
-      if _d.config.{{$method.Name}}Timeout > 0 {
-        ctx, _cancelFunc = context.WithTimeout(ctx, _d.config.{{$method.Name}}Timeout)
+      if _d._config.{{$method.Name}}Timeout > 0 {
+        ctx, _cancelFunc = context.WithTimeout(ctx, _d._config.{{$method.Name}}Timeout)
         defer _cancelFunc()
       }
       {{$method.Pass (printf "_d.%s." $.Interface.Name) }}
-- 
2.43.0


From 4779e1631119fb2a54f96248079c8f1a90fbf1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 48/55] fix: path of the template in go:generate when there are
 symbolic links on the way

---
 cmd_generate.go | 69 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index a8ee027..31d275e 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -179,15 +180,81 @@ func (gc *GenerateCommand) loadTemplate(outputFileDir string) (contents, url str
 			return "", "", err
 		}
 
-		url, err = gc.filepath.Rel(outputFileDir, templatePath)
+		relPath, err := gc.filepath.Rel(outputFileDir, templatePath)
 		if err != nil {
 			return "", "", err
 		}
+
+		url = gc.relTemplatePath(relPath, url)
 	}
 
 	return string(body), url, nil
 }
 
+// relTemplatePath returns the path of the template relative to the directory of the output file.
+// The lexical one leads elsewhere when there are symbolic links on the way.
+func (gc *GenerateCommand) relTemplatePath(lexical, template string) string {
+	want, err := os.Stat(template)
+	if err != nil {
+		return lexical
+	}
+
+	outputFileDir, err := realPath(filepath.Dir(gc.outputFile))
+	if err != nil {
+		return lexical
+	}
+
+	candidates := []string{lexical}
+
+	for _, resolve := range []func(string) (string, error){filepath.Abs, realPath} {
+		if templateDir, err := resolve(filepath.Dir(template)); err == nil {
+			if path, err := filepath.Rel(outputFileDir, filepath.Join(templateDir, filepath.Base(template))); err == nil {
+				candidates = append(candidates, path)
+			}
+		}
+	}
+
+	var result string
+	parents := math.MaxInt
+
+	for _, path := range candidates {
+		got, err := os.Stat(filepath.Join(outputFileDir, path))
+		if n := strings.Count(path, "../"); err == nil && os.SameFile(got, want) && n < parents {
+			result, parents = path, n
+		}
+	}
+
+	if result == "" {
+		return lexical
+	}
+
+	return result
+}
+
+// realPath returns an absolute path of the directory, which may not exist yet, without symbolic links
+func realPath(dir string) (string, error) {
+	if !filepath.IsAbs(dir) {
+		wd, err := os.Getwd()
+		if err != nil {
+			return "", err
+		}
+
+		if wd, err = filepath.EvalSymlinks(wd); err != nil {
+			return "", err
+		}
+
+		dir = filepath.Join(wd, dir)
+	}
+
+	path, err := filepath.EvalSymlinks(dir)
+	if err != nil && os.IsNotExist(err) && filepath.Dir(dir) != dir {
+		path, err = realPath(filepath.Dir(dir))
+		path = filepath.Join(path, filepath.Base(dir))
+	}
+
+	return path, err
+}
+
 // Load implements templateLoader
 func (l loader) Load(template string) (tmpl []byte, url string, err error) {
 	tmpl, err = l.fileReader(template)
-- 
2.43.0


From 6048d26cce788569bdbb50787e7e3b98b3ce0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 49/55] fix: fallback of methods whose parameters or results
 are called like types

---
 templates/fallback | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/templates/fallback b/templates/fallback
index e98191d..c3a6ac4 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -20,10 +20,13 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
 }
 
 {{range $method := .Interface.Methods}}
+  {{- $results := (printf "_%s_%s_results" $decorator $method.Name)}}
+  // {{$results}} are the results of {{$decorator}}.{{$method.Name}}
+  type {{$results}} {{$method.ResultsStruct}}
+
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
-      type _resultStruct {{$method.ResultsStruct}}
-      var _ch = make(chan _resultStruct, len(_d._implementations))
+      var _ch = make(chan {{$results}}, len(_d._implementations))
       var _next = make(chan struct{}, len(_d._implementations))
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d._interval)
@@ -39,7 +42,8 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
 
       go func() {
         for _i :=0; _i < len(_d._implementations); _i++ {
-          go func(_impl {{$.Interface.Type}}) {
+          _impl := _d._implementations[_i]
+          go func() {
             {{if $method.HasResults}}{{$method.ResultsNames}} := {{end}}_impl.{{$method.Call}}
             {{- if $method.ReturnsError}}
               if err != nil {
@@ -47,8 +51,8 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
               }
             {{end}}
 
-            _ch <- _resultStruct{ {{$method.ResultsNames}} }
-          }(_d._implementations[_i])
+            _ch <- {{$results}}{ {{$method.ResultsNames}} }
+          }()
 
           if _i < len(_d._implementations) - 1 {
             select {
-- 
2.43.0


From 2ccb8a33be2bedd2d892acf388ebf23608a81d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 50/55] fix: array lengths with conversions, calls and unary
 operators in other packages

---
 printer/printer.go | 63 ++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/printer/printer.go b/printer/printer.go
index 169199e..99745be 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -3,11 +3,14 @@ package printer
 import (
 	"bytes"
 	"go/ast"
+	"go/parser"
 	"go/printer"
 	"go/token"
+	"go/types"
 	"strings"
 
 	"github.com/pkg/errors"
+	"golang.org/x/tools/go/ast/astutil"
 )
 
 // Printer prints AST nodes
@@ -107,41 +110,47 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 	return "[" + l + "]" + sliceType, nil
 }
 
-// printLen prints an array length, constants it refers to are declared in the source package
+// printLen prints an array length, identifiers it refers to are declared in the source package
 func (p *Printer) printLen(e ast.Expr) (string, error) {
-	switch t := e.(type) {
-	case nil:
-		return "", nil
-	case *ast.Ident:
-		if len(p.typesPrefix) > 0 {
-			if !ast.IsExported(t.Name) {
-				return "", errors.Wrap(errUnexportedConst, t.Name)
-			}
+	text, err := p.Print(e)
+	if err != nil || e == nil || len(p.typesPrefix) == 0 {
+		return text, err
+	}
 
-			return p.typesPrefix + "." + t.Name, nil
-		}
-	case *ast.ParenExpr:
-		x, err := p.printLen(t.X)
-		if err != nil {
-			return "", err
-		}
+	//original nodes must stay as they are
+	expr, err := parser.ParseExpr("(" + text + ")")
+	if err != nil {
+		return "", err
+	}
 
-		return "(" + x + ")", nil
-	case *ast.BinaryExpr:
-		x, err := p.printLen(t.X)
-		if err != nil {
-			return "", err
-		}
+	astutil.Apply(expr, func(c *astutil.Cursor) bool {
+		switch n := c.Node().(type) {
+		case *ast.SelectorExpr:
+			_, isPackage := n.X.(*ast.Ident)
+			return !isPackage
+		case *ast.Ident:
+			//constants can be called like the predeclared functions
+			_, isFunc := types.Universe.Lookup(n.Name).(*types.Builtin)
+			isPredeclared := types.Universe.Lookup(n.Name) != nil && (!isFunc || c.Name() == "Fun")
+			if c.Name() == "Sel" || isPredeclared {
+				return false
+			}
 
-		y, err := p.printLen(t.Y)
-		if err != nil {
-			return "", err
+			if !ast.IsExported(n.Name) {
+				err = errors.Wrap(errUnexportedConst, n.Name)
+			}
+
+			c.Replace(&ast.SelectorExpr{X: ast.NewIdent(p.typesPrefix), Sel: n})
+			return false
 		}
 
-		return x + " " + t.Op.String() + " " + y, nil
+		return true
+	}, nil)
+	if err != nil {
+		return "", err
 	}
 
-	return p.Print(e)
+	return p.Print(expr.(*ast.ParenExpr).X)
 }
 
 var errUnexportedConst = errors.New("unexported constant")
-- 
2.43.0


From 324a94537db1bd4846b8ac869e6cfe7fb0e899df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 51/55] fix: interfaces declared in parentheses had no methods

---
 generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 18d19bc..ce3af05 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -611,7 +611,7 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 	}
 	input.visited = append(input.visited[:len(input.visited):len(input.visited)], selectedType)
 
-	switch t := selectedType.Type.(type) {
+	switch t := ast.Unparen(selectedType.Type).(type) {
 	case *ast.InterfaceType:
 		methods, err = processInterface(t, input)
 		if err != nil {
-- 
2.43.0


From 89c9ef1847b82f9b2d13fdcdb41c8b8ea749aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 52/55] fix: context and error types in parentheses were not
 recognized

---
 generator/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/types.go b/generator/types.go
index bb53f06..4bb92fc 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -96,13 +96,13 @@ func newMethod(name string, fi *ast.Field, printer typePrinter, isContext func(a
 
 	//Always name the last return parameter as an "err" if it's of type "error"
 	if f.Results != nil && len(f.Results.List) > 0 {
-		ident, ok := f.Results.List[len(f.Results.List)-1].Type.(*ast.Ident)
+		ident, ok := ast.Unparen(f.Results.List[len(f.Results.List)-1].Type).(*ast.Ident)
 		m.ReturnsError = ok && ident.Name == "error"
 		usedNames["err"] = true
 	}
 
 	if len(f.Params.List) > 0 {
-		if se, ok := f.Params.List[0].Type.(*ast.SelectorExpr); ok {
+		if se, ok := ast.Unparen(f.Params.List[0].Type).(*ast.SelectorExpr); ok {
 			m.AcceptsContext = ok && se.Sel.Name == "Context" && isContext(se)
 			usedNames["ctx"] = true
 		}
-- 
2.43.0


From d7bd71da5b32a5e60df34f08e89304ad1f108657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 53/55] fix: generators that share a loaded package wrote to
 its list of files

---
 pkg/package.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/package.go b/pkg/package.go
index 76471ef..204fcfc 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -137,7 +137,8 @@ func resolveDotImports(f *ast.File, p *packages.Package) {
 
 // Dir returns absolute path of the package in a filesystem
 func Dir(p *packages.Package) string {
-	files := append(p.GoFiles, p.OtherFiles...)
+	//the package can be shared by several goroutines
+	files := append(p.GoFiles[:len(p.GoFiles):len(p.GoFiles)], p.OtherFiles...)
 	if len(files) < 1 {
 		return p.PkgPath
 	}
-- 
2.43.0


From 4666a364b8f5abf36e02653a2f8b5f2b6483891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 54/55] fix: a type parameter that an error or a context was
 given for was taken for another type

---
 generator/generator.go | 49 ++++++++++++++++++++++++++++++++++++------
 generator/generics.go  |  2 ++
 generator/types.go     | 25 +++++++++++++++------
 3 files changed, 63 insertions(+), 13 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index ce3af05..f0f59bc 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -554,14 +554,47 @@ func addImports(imports []*ast.ImportSpec, add ...*ast.ImportSpec) []*ast.Import
 	return result
 }
 
-// isContext returns false if the type named Context doesn't belong to the context package
+// typeArg returns an argument that is given for the type parameter
+func (input targetProcessInput) typeArg(t ast.Expr) (arg genericParam, ok bool) {
+	ident, ok := ast.Unparen(t).(*ast.Ident)
+	if !ok {
+		return arg, false
+	}
+
+	i := 0
+	for _, genType := range input.genericTypes {
+		for _, name := range genType.Names {
+			if name == ident.Name && i < len(input.genericParams) {
+				return input.genericParams[i], true
+			}
+			i++
+		}
+	}
+
+	return arg, false
+}
+
+// isError returns true if the type is an error or a type parameter that an error is given for
+func (input targetProcessInput) isError(t ast.Expr) bool {
+	if arg, ok := input.typeArg(t); ok {
+		return arg.isError
+	}
+
+	return isErrorType(t)
+}
+
+// isContext returns true if the type is a Context of the context package or a type parameter
+// that such a type is given for
 func (input targetProcessInput) isContext(t ast.Expr) bool {
-	se, ok := t.(*ast.SelectorExpr)
-	if !ok || input.currentPackage == nil {
-		return ok
+	if arg, ok := input.typeArg(t); ok {
+		return arg.isContext
 	}
 
-	ident, ok := se.X.(*ast.Ident)
+	if !isContextType(t) || input.currentPackage == nil {
+		return isContextType(t)
+	}
+
+	ident, ok := ast.Unparen(t).(*ast.SelectorExpr).X.(*ast.Ident)
 	if !ok {
 		return false
 	}
@@ -776,6 +809,8 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 	var hasGenericsParams bool
 	var genericParams genericParams
 
+	isError, isContext := input.isError(t), input.isContext(t)
+
 	switch v := t.(type) {
 	case *ast.IndexExpr:
 		x = v.X
@@ -825,6 +860,8 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 		return
 	}
 
+	genericParam.isError, genericParam.isContext = isError, isContext
+
 	if hasGenericsParams {
 		genericParam.Params = genericParams
 	}
@@ -852,7 +889,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 			targetInput.useImports(v)
 
-			method, err = newMethod(field.Names[0].Name, field, pr, targetInput.isContext)
+			method, err = newMethod(field.Names[0].Name, field, pr, targetInput.isError, targetInput.isContext)
 			if err == nil {
 				methods[field.Names[0].Name] = *method
 				continue
diff --git a/generator/generics.go b/generator/generics.go
index aa55fb1..c955f53 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -29,6 +29,8 @@ type genericParams []genericParam
 type genericParam struct {
 	Name   string
 	Params genericParams
+
+	isError, isContext bool //the argument is an error or a context.Context
 }
 
 func (g genericParam) String() string {
diff --git a/generator/types.go b/generator/types.go
index 4bb92fc..74adb70 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -67,11 +67,12 @@ func (p Param) Pass() string {
 
 // NewMethod returns pointer to Signature struct or error
 func NewMethod(name string, fi *ast.Field, printer typePrinter) (*Method, error) {
-	return newMethod(name, fi, printer, func(ast.Expr) bool { return true })
+	return newMethod(name, fi, printer, isErrorType, isContextType)
 }
 
-// newMethod makes a method, isContext is asked about the types named Context
-func newMethod(name string, fi *ast.Field, printer typePrinter, isContext func(ast.Expr) bool) (*Method, error) {
+// newMethod makes a method, isError is asked about the type of the last result and isContext
+// is asked about the type of the first parameter
+func newMethod(name string, fi *ast.Field, printer typePrinter, isError, isContext func(ast.Expr) bool) (*Method, error) {
 	f, ok := fi.Type.(*ast.FuncType)
 	if !ok {
 		return nil, fmt.Errorf("%q is not a method", name)
@@ -96,14 +97,14 @@ func newMethod(name string, fi *ast.Field, printer typePrinter, isContext func(a
 
 	//Always name the last return parameter as an "err" if it's of type "error"
 	if f.Results != nil && len(f.Results.List) > 0 {
-		ident, ok := ast.Unparen(f.Results.List[len(f.Results.List)-1].Type).(*ast.Ident)
-		m.ReturnsError = ok && ident.Name == "error"
+		m.ReturnsError = isError(f.Results.List[len(f.Results.List)-1].Type)
 		usedNames["err"] = true
 	}
 
 	if len(f.Params.List) > 0 {
-		if se, ok := ast.Unparen(f.Params.List[0].Type).(*ast.SelectorExpr); ok {
-			m.AcceptsContext = ok && se.Sel.Name == "Context" && isContext(se)
+		t := f.Params.List[0].Type
+		m.AcceptsContext = isContext(t)
+		if _, ok := ast.Unparen(t).(*ast.SelectorExpr); ok || m.AcceptsContext {
 			usedNames["ctx"] = true
 		}
 	}
@@ -130,6 +131,16 @@ func newMethod(name string, fi *ast.Field, printer typePrinter, isContext func(a
 	return &m, nil
 }
 
+func isErrorType(t ast.Expr) bool {
+	ident, ok := ast.Unparen(t).(*ast.Ident)
+	return ok && ident.Name == "error"
+}
+
+func isContextType(t ast.Expr) bool {
+	se, ok := ast.Unparen(t).(*ast.SelectorExpr)
+	return ok && se.Sel.Name == "Context"
+}
+
 // NewParam returns Param struct
 func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typePrinter) (*Param, error) {
 	typ := fi.Type
-- 
2.43.0


From 8f7006246646d4c7d36bfda1ca81aea38bc0b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 55/55] fix: parameters named after the type parameters of the
 target were redeclared

---
 generator/generator.go | 12 +++++++++---
 generator/types.go     |  9 ++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index f0f59bc..94ef656 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -146,6 +146,7 @@ type processInput struct {
 	targetName     string
 	genericParams  genericParams
 	usedImports    *[]*ast.ImportSpec //imports that are required by the collected methods
+	typeParams     []string           //type parameters of the target, they are in scope of the generated methods
 }
 
 type targetProcessInput struct {
@@ -507,12 +508,15 @@ func findTarget(input processInput) (output processOutput, err error) {
 	}
 
 	isRoot := input.usedImports == nil
+	output.imports = imports
+	output.genericTypes = buildGenericTypesFromSpec(ts, types, input.astPackage.Name)
 	if isRoot {
 		input.usedImports = &[]*ast.ImportSpec{}
+		for _, genType := range output.genericTypes {
+			input.typeParams = append(input.typeParams, genType.Names...)
+		}
 	}
 
-	output.imports = imports
-	output.genericTypes = buildGenericTypesFromSpec(ts, types, input.astPackage.Name)
 	output.methods, err = findMethods(ts, targetProcessInput{
 		processInput: input,
 		types:        types,
@@ -704,6 +708,7 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string, input targetProces
 		astPackage:     srcAst,
 		targetName:     sel.Sel.Name,
 		usedImports:    input.usedImports,
+		typeParams:     input.typeParams,
 	})
 	if err != nil {
 		return nil, errors.Wrapf(err, "failed to find target in %s package", srcPackagePath)
@@ -889,7 +894,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 			targetInput.useImports(v)
 
-			method, err = newMethod(field.Names[0].Name, field, pr, targetInput.isError, targetInput.isContext)
+			method, err = newMethod(field.Names[0].Name, field, pr, targetInput.isError, targetInput.isContext, targetInput.typeParams)
 			if err == nil {
 				methods[field.Names[0].Name] = *method
 				continue
@@ -945,6 +950,7 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		targetName:     selectedName,
 		genericParams:  input.genericParams,
 		usedImports:    input.usedImports,
+		typeParams:     input.typeParams,
 	})
 
 	return output.methods, err
diff --git a/generator/types.go b/generator/types.go
index 74adb70..434575e 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -67,12 +67,12 @@ func (p Param) Pass() string {
 
 // NewMethod returns pointer to Signature struct or error
 func NewMethod(name string, fi *ast.Field, printer typePrinter) (*Method, error) {
-	return newMethod(name, fi, printer, isErrorType, isContextType)
+	return newMethod(name, fi, printer, isErrorType, isContextType, nil)
 }
 
 // newMethod makes a method, isError is asked about the type of the last result and isContext
-// is asked about the type of the first parameter
-func newMethod(name string, fi *ast.Field, printer typePrinter, isError, isContext func(ast.Expr) bool) (*Method, error) {
+// is asked about the type of the first parameter. The reserved names are not given to the parameters
+func newMethod(name string, fi *ast.Field, printer typePrinter, isError, isContext func(ast.Expr) bool, reserved []string) (*Method, error) {
 	f, ok := fi.Type.(*ast.FuncType)
 	if !ok {
 		return nil, fmt.Errorf("%q is not a method", name)
@@ -94,6 +94,9 @@ func newMethod(name string, fi *ast.Field, printer typePrinter, isError, isConte
 	}
 
 	usedNames := map[string]bool{}
+	for _, name := range reserved {
+		usedNames[name] = true
+	}
 
 	//Always name the last return parameter as an "err" if it's of type "error"
 	if f.Results != nil && len(f.Results.List) > 0 {
-- 
2.43.0

