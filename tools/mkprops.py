#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the text is reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="The six stable tests build the command line tool for three platforms, copy a config file and print one converted name; none of them feeds a schema through "
p("C01","The lexer terminates and its tokens cover the source text exactly",
  "For every source text the lexer reaches end of file after finitely many tokens and never crashes. Token positions never go backwards, each literal token's text is exactly the source text at its position, and the text between two consecutive tokens is only white space or comments, so no input character is dropped, duplicated or invented.",
  ["inputs"],"every byte string (any bytes, with or without BOM/CR/newline) up to the stated length, in both comment modes",
  T+"the lexer, let alone every byte string.",
  ["pkg/scanner/scanner.go","pkg/token/token.go"],[("Scan loop","pkg/scanner/scanner.go Scan"),("literal scanners","pkg/scanner/scanner.go scanString/scanNumber/scanComment/scanIdentifier")],["Scanner.Scan"])
p("C02","The lexer reports an error exactly when the text is lexically malformed",
  "The lexer reports at least one error if and only if the source contains something outside the schema language's lexical grammar: an illegal character, invalid UTF-8 or NUL, an unterminated string or comment, a malformed escape, or a malformed number. Well-formed text is classified into the right tokens (identifier, keyword, number, string, punctuation), and statement terminators are inserted exactly at the line ends that call for one.",
  ["inputs"],"every byte string up to the stated length",
  T+"the lexer; an accepted malformed literal or a missed terminator shows up only on unusual inputs.",
  ["pkg/scanner/scanner.go","pkg/token/token.go"],[("error reporting","pkg/scanner/scanner.go error/errorf"),("semicolon insertion","pkg/scanner/scanner.go Scan insertSemi")],["Scanner.Scan","Scanner.ErrorCount"])
p("C03","Source positions are exact: offset, line and column agree with the text",
  "For every file content, the line and column reported for a byte offset are those obtained by counting line breaks and bytes in the text, and mapping an offset to a position and back is the identity. When several files are registered, each position belongs to exactly one file and resolves to the right file name, so every diagnostic points at the place it complains about.",
  ["inputs","histories"],"every text up to the stated length, every offset in it, every sequence of up to the stated number of registered files and lookups",
  "No test looks up a position; binary-search boundaries and the last-file cache only fail on particular offset/file sequences.",
  ["pkg/token/position.go","pkg/scanner/scanner.go"],[("line table","pkg/token/position.go AddLine/unpack"),("file lookup","pkg/token/position.go searchFiles/file")],["FileSet.Position","File.Offset"])
p("C04","Parsing any text ends with a tree or an error, never a crash or a hang",
  "For every file content the parser terminates without crashing and returns either a complete syntax tree or an error that locates the problem inside the file. A text it accepts without an error contains no lexical error, and no token that the grammar does not allow at its place is silently skipped.",
  ["inputs"],"every sequence of tokens up to the stated length and every byte string up to the stated length",
  T+"the parser; a panic on an odd token order needs that order.",
  ["pkg/parser/parser.go","pkg/parser/interface.go","pkg/scanner/errors.go"],[("recovery","pkg/parser/interface.go ParseFile"),("expect/errorExpected","pkg/parser/parser.go")],["parser.ParseFile"])
p("C05","Parsing preserves the declared schema exactly",
  "Parsing the text of a schema yields exactly the declared enums, data types, services, imports and package names, in order, with every name, id, optional marker, list/map shape, element and key type, base type, tag, key and value as written. White space, line breaks and comments between tokens do not change the result.",
  ["programs","inputs"],"every schema built from the grammar up to the stated size, with symbolic names, ids, type shapes, optional markers, tags and layouts",
  "No test parses a schema; a lost optional marker or swapped map key survives every existing test.",
  ["pkg/parser/parser.go","pkg/ast/ast.go"],[("declaration parsers","pkg/parser/parser.go parseEnumItem/parseDataSpec/parseServerSpec"),("type parsers","pkg/parser/parser.go")],["parser.ParseFile"])
p("C06","Semantic checking accepts a schema exactly when it is well formed",
  "A schema is compiled if and only if it is well formed: type names, field names, enum item names, method names, ids and tag keys are unique where they must be, no declaration uses a reserved name, every referenced type exists in the file or its imports and is of the right kind, map keys are scalar or enum types, and a method takes a data type. Otherwise the compiler reports an error and the error names the offending place.",
  ["programs"],"every small schema of the stated shapes with symbolic names, ids, tags and type references",
  "No test compiles a malformed schema, so an unchecked duplicate or dangling reference goes unnoticed.",
  ["pkg/build/build.go","pkg/build/data.go","pkg/build/enum.go","pkg/build/server.go"],[("checks","pkg/build/*.go check*/register*"),("type lookup","pkg/build/build.go GetDataType")],["build.Build"])
p("C07","Inheritance is flattened completely, once, and terminates",
  "For every inheritance graph among data types or services, the generated code contains every inherited field or method exactly once, a redeclared one taking the place of the inherited one, whatever the number of parents or levels, also across imports. An inheritance cycle is reported as an error instead of crashing or hanging the compiler.",
  ["programs"],"every inheritance graph over the stated number of types with symbolic parent lists and field names",
  "No test compiles a type with a parent; diamonds and cycles need a specific graph.",
  ["pkg/build/data.go","pkg/build/server.go"],[("flattening","pkg/build/data.go EnumField"),("method flattening","pkg/build/server.go EnumMethod")],["build.Build"])
p("C08","Compiling an accepted schema to any target never crashes or hangs",
  "For every schema that passes checking, compiling it to Go, Dart, Java or TypeScript terminates without a crash, and either writes the complete output files or returns an error. An error is never swallowed so as to leave a truncated output reported as success.",
  ["programs","configurations"],"every schema of the stated templates (types, shapes, tags and tag values symbolic) and each of the four targets",
  "No test runs a generator; a nil dereference behind an unusual tag combination needs that combination.",
  ["pkg/golang","pkg/dart","pkg/java","pkg/typescript","pkg/build"],[("per-target Build","pkg/golang/gloang.go, pkg/dart/dart.go, pkg/java/java.go, pkg/typescript/typescript.go")],["build.Build"])
p("C09","Name conversion is total, yields valid identifiers, and keeps names apart",
  "Every legal schema identifier is converted to each target's naming style without a crash, and the result is a non-empty valid identifier that keeps all letters and digits of the original in order. A type, field or method is spelled the same way where it is declared and wherever it is referenced.",
  ["inputs"],"every identifier up to the stated length over letters, digits, underscore and non-ASCII letters",
  "The one naming test prints a single name; leading, trailing or doubled underscores and non-ASCII letters are never tried.",
  ["pkg/build/build.go"],[("converters","pkg/build/build.go StringToHumpName/StringToFirstLower/StringToUnderlineName/StringToAllUpper")],["build.StringToHumpName"])
p("C10","All targets agree on the JSON wire name of every field",
  "For every data type, each declared or inherited field appears exactly once in the JSON that each target's generated code writes, and exactly once in what it reads, under one wire name that is the same for reading and writing and the same in Go, Dart and TypeScript. Distinct fields of one type get distinct wire names.",
  ["programs"],"every data template of the stated size with symbolic field names, types, shapes and json tags, over all targets",
  "Tests never compare two targets; a key that differs in one language surfaces only between programs.",
  ["pkg/golang/data.go","pkg/dart/data.go","pkg/typescript/data.go","pkg/build/data.go"],[("json names","pkg/build/build.go GetJson / StringToUnderlineName"),("struct tags","pkg/golang/data.go"),("fromMap/toMap","pkg/dart/data.go")],["generated code"])
p("C11","Client and server agree on every RPC route, in every target",
  "For every service method, the route the generated client calls is the route the generated server registers, unique per method, and the Go, Dart and TypeScript clients use the same route (the Go client puts the name the service is mounted under before it, which is the name its router reports); the method's declared parameter and result types are used on both sides. Inherited methods are routed consistently too.",
  ["programs"],"every service template of the stated size with symbolic service/method names, inheritance and result kinds, over all targets",
  "Tests never generate a client and a server together.",
  ["pkg/golang/server.go","pkg/dart/server.go","pkg/typescript/server.go"],[("client routes","pkg/*/server.go"),("router","pkg/golang/server.go")],["generated code"])
p("C12","Field types and optionality map correctly to every target",
  "For every combination of base type, list, map and optional markers, the type generated in each target denotes the same schema type: same base type width and signedness, same nesting, key and element types the right way round, and optional exactly where the schema says so.",
  ["programs"],"every field type expression up to the stated nesting over all base types, enums and data types, over all targets",
  "No test generates a field; the product of base types, shapes and targets is far beyond samples.",
  ["pkg/golang/gloang.go","pkg/dart/dart.go","pkg/java/java.go","pkg/typescript/typescript.go"],[("type tables","pkg/*/ _types"),("printType","pkg/*/ printType")],["generated code"])
p("C13","Enum items keep their names and numeric values in every target",
  "For every enum, each target's generated code contains every declared item exactly once with exactly the declared numeric value, and converting a number to an item and back, or an item name to an item, follows the declaration.",
  ["programs"],"every enum template of the stated size with symbolic names and numeric ids, over all targets",
  "No test generates an enum.",
  ["pkg/golang/enum.go","pkg/dart/enum.go","pkg/java/enum.go","pkg/typescript/enum.go"],[("enum printers","pkg/*/enum.go")],["generated code"])
p("C14","Generated source is syntactically well formed",
  "For every accepted schema, the generated Go files parse as Go, and the generated Dart, Java and TypeScript files have balanced brackets and terminated string literals and comments. Schema text (names, tag texts, doc comments) never escapes from the literal or comment it is placed in.",
  ["programs","inputs"],"every schema of the stated templates with symbolic names, type shapes, tag texts and doc comments, over all targets",
  "No test looks at generated code; an unbalanced bracket needs a particular type shape.",
  ["pkg/golang","pkg/dart","pkg/java","pkg/typescript"],[("printers","pkg/*/*.go")],["generated code"])
p("C15","Generated Go files import exactly the packages they use",
  "Every generated Go file imports every package its code refers to and no package it does not refer to, so it is not rejected by the Go compiler for a missing or unused import; cross-file schema types are imported from the package the imported schema declares.",
  ["programs"],"every schema of the stated templates with symbolic field types, tags (database, cache, verify, format) and imports",
  "Imports are recorded conditionally at dozens of call sites; a missing one needs a specific tag and type combination.",
  ["pkg/golang","pkg/build/writer.go"],[("Packages","pkg/build/writer.go Packages; pkg/golang/*.go dst.Import")],["generated code"])
p("C16","Generated SQL binds every column and keeps every declared condition",
  "In generated data access code each statement's columns, placeholders and bound values correspond one to one and in order, every declared condition ends up in the WHERE clause of select, update and delete statements, no value is spliced into the SQL text except where the schema itself asks for it with $, a column has the same name in every statement, and a table's own get, set, update, delete and remove operations go by its key.",
  ["programs"],"every database template of the stated size with symbolic column names, tags and conditions",
  "A dropped condition (update or delete of the whole table) needs a certain tag combination that no test has.",
  ["pkg/golang/database.go","pkg/build/database.go"],[("statement printers","pkg/golang/database.go"),("tag parsing","pkg/build/database.go GetDB")],["generated code"])
p("C17","Declared validation rules are enforced as declared",
  "For every field with validation rules, the generated Go, Dart and TypeScript verification code checks exactly the declared bounds, patterns and emptiness rules, with the comparison the right way round, inclusive limits exact, and reports the declared error; undeclared limits default to the full range of the field's type.",
  ["programs","inputs"],"every verify template with symbolic base types, limits and rules, over the targets",
  "No test generates verification code.",
  ["pkg/golang/verify.go","pkg/dart/verify.go","pkg/typescript/verify.go","pkg/build/verify.go","pkg/build/format.go"],[("rule parsing","pkg/build/verify.go GetVerify, pkg/build/format.go GetFormat"),("printers","pkg/*/verify.go")],["generated code"])
p("C18","Compilation is deterministic",
  "Compiling the same schema files twice produces byte-identical output files, or the same error, whatever order hash tables are traversed in; the output for one file does not depend on which other unrelated files are compiled with it.",
  ["schedules","programs"],"every iteration order of every hash table the compiler traverses (up to the stated number of entries) for the stated schemas",
  "Go randomises map order per run; a test that runs once cannot see an order it did not get.",
  ["pkg/build","pkg/golang","pkg/dart","pkg/java","pkg/typescript","pkg/ast"],[("sorted traversal","pkg/*/ sort.Strings calls")],["generated files"])
p("C19","Doc comments stay comments and stay attached",
  "Every doc comment written before a declaration, field, item or method appears in the generated code of that same element, every line of it inside a comment, in every target; comments never change the generated declarations.",
  ["programs","inputs"],"every comment text up to the stated length at every commentable place, one or several lines, over all targets",
  "No test generates code from a commented schema.",
  ["pkg/parser/parser.go","pkg/golang","pkg/dart","pkg/java","pkg/typescript"],[("comment attachment","pkg/parser/parser.go"),("comment printers","pkg/*/*.go")],["generated code"])
p("C20","Imports are resolved completely and terminate",
  "For every import graph, also with cycles, diamonds and self-imports, each reachable file is loaded once, every type of a directly imported file can be used, and the compiler terminates. An import of a missing or broken file is reported as an error.",
  ["programs","configurations"],"every import graph over the stated number of files",
  "No test has a schema with an import.",
  ["pkg/parser/interface.go","pkg/build/build.go"],[("import closure","pkg/parser/interface.go ParseDir/parseDirFile"),("lookup","pkg/build/build.go GetDataType")],["build.Build"])
p("C21","The input pattern selects exactly the intended files",
  "Given an input path or wildcard pattern, exactly the schema files in that directory tree whose names match it (a star standing for any text, every other character for itself) and the files they import are compiled, each to outputs named after it; other files in the directory neither matter nor are written.",
  ["inputs","configurations"],"every pattern and file name up to the stated length over letters, dot, star and other characters, including paths without a directory part",
  "No test runs the compiler on a directory.",
  ["pkg/build/build.go","pkg/parser/interface.go"],[("pattern","pkg/build/build.go Build"),("directory walk","pkg/parser/interface.go ParseDir")],["build.Build"])
p("C22","Concurrent use of one position table is safe",
  "Registering files and resolving positions from several threads at once yields the same results as doing so one after the other.",
  ["schedules"],"every interleaving of two threads using one table",
  "The tests are single threaded.",
  ["pkg/token/position.go"],[("mutex","pkg/token/position.go FileSet")],["FileSet.Position"])
p("C23","Generated Dart, Java and TypeScript compile with their real compilers",
  "For every accepted schema the generated Dart, Java and TypeScript sources are accepted by those languages' own compilers together with the runtime library they target.",
  ["programs"],"every accepted schema",
  "No test generates code.",
  ["pkg/dart","pkg/java","pkg/typescript"],[("printers","pkg/*/*.go")],["generated code"])
p("C24","Values survive JSON in every target",
  "For every field type and every value of it, the generated Dart and TypeScript code writes the JSON form that the Go runtime uses for that type (64 bit integers and decimals as text, dates as milliseconds, enums as their number, null as null), and reads from that form, also when the field is null or absent, the value or the default; copies hold the same values and share no list, map or object, and copyWith and == in Dart see exactly the fields that differ.",
  ["programs","inputs"],"every base type alone, in a list or in a map, optional or not, and every value of it in lists and maps up to the stated length",
  "No test runs generated code, and the values that fail (a uint64 above 2^63, a null in a map, a key that is a number) are few.",
  ["pkg/dart/data.go","pkg/typescript/data.go","pkg/golang/data.go"],[("JSON printers","pkg/dart/data.go printToMap, printFormMap; pkg/typescript/data.go printToJson, printFormMap"),("copies","printCopy")],["generated toMap/fromMap, toJson/fromJson, copy/clone/copyWith"])
p("C25","Generated forms and tables show and store the declared fields",
  "A Dart or TypeScript form or table is generated exactly for the data types whose ui tag asks for one. It has one control or column for each field that asks for one (inherited fields included), in the order of the fields and of the declared kind, with the label of that field in each declared language. It shows the value of that field, with the declared digits or date format, and nothing for null; showing changes no value. What is entered is stored in that field and no other, null when an optional field is cleared, and nothing when the field may only be read; a field that may not be null never becomes null. A control has a validator exactly when its field has a rule, and it is that field's.",
  ["programs","inputs"],"a data type with an inherited field, the field looked at and its neighbours; every base type that goes with each kind of control, every value of it, every pair of ui parameters within the stated bounds",
  "No test generates a form or table, and Flutter and Vue are needed to run one; a control that stores into its neighbour compiles.",
  ["pkg/dart/ui.go","pkg/dart/language.go","pkg/typescript/ui.go","pkg/typescript/language.go"],[("Dart forms and tables","pkg/dart/ui.go printForm, printTable"),("TypeScript forms and tables","pkg/typescript/ui.go printForm, printTable"),("labels","pkg/dart/language.go, pkg/typescript/language.go")],["generated forms and tables"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
