#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Integer expressions compute the Pascal value for all operand values",
  "For every expression built from integer, longint, subrange, char- and enumeration-derived operands with +, -, *, div, mod, shl, shr, and, or, xor, not, unary sign and pow, the compiled program yields the mathematically expected value reduced to the width of the operation (32 bits, or 64 bits as soon as a longint takes part), with div truncating toward zero and a = (a div b)*b + (a mod b). Mixed-width operands are widened by value (a negative value stays negative) before the operation, and narrowing into a variable keeps the value whenever it fits.",
  ["inputs", "programs", "configurations"], "all operand values of each type mix, at every -O level, 32- and 64-bit model",
  "Tests evaluate each operator on a few constants; sign, width and extreme-value combinations are 2^64 and more.",
  ["expr.cpp", "types.cpp", "semantics.cpp"],
  [("BinaryExprAST::CodeGen", "expr.cpp"), ("TypeCastAST and type widening", "expr.cpp, semantics.cpp"), ("UnaryExprAST::CodeGen", "expr.cpp")],
  observe=["values printed by the compiled program"])
p("C02", "Comparisons and boolean operators decide the Pascal relation",
  "For every pair of operands of compatible ordinal, integer, real, pointer, set or string types, = <> < <= > >= and 'in' evaluate to exactly the Pascal relation between the two values, whatever the widths or declared subranges on either side. 'and', 'or', 'xor', 'not' compute the truth function, and the short-circuit forms 'and_then'/'or_else' do not evaluate their right operand when the left one decides the result.",
  ["inputs", "programs"], "all operand values for each pair of types and each operator",
  "The relation can be wrong only for particular sign/width/boundary values; tests compare a handful of pairs.",
  ["expr.cpp", "semantics.cpp"],
  [("BinaryExprAST::CodeGen comparison selection", "expr.cpp"), ("ShortCtAnd/ShortCtOr", "expr.cpp")],
  observe=["values printed by the compiled program"])
p("C03", "Real and complex expressions follow IEEE double semantics",
  "Every real expression (+, -, *, /, **, unary minus, comparisons, and integer operands promoted by value) yields the IEEE double result of that operation on those operands, and abs, sqr, trunc, round, sqrt, the transcendental functions, and complex re/im/cmplx/polar arithmetic apply the named mathematical function to their actual operands. trunc discards the fraction toward zero and round rounds half away from zero for every real whose result is representable.",
  ["inputs", "programs"], "all finite real and integer operand values, all operator/promotion combinations",
  "A wrong promotion, operand order or rounding shows only for particular values; tests print a few results.",
  ["expr.cpp", "builtin.cpp", "runtime/math.c", "runtime/cmath.c"],
  [("BinaryExprAST::CodeGen for reals", "expr.cpp"), ("FunctionRound/FunctionTrunc/FunctionFloat", "builtin.cpp"), ("complex runtime", "runtime/cmath.c")],
  observe=["values printed by the compiled program"])
p("C04", "Structured statements execute exactly the specified paths",
  "if, case (labels, ranges, negative and char/enum labels, otherwise), while, repeat, for to/downto over any ordinal type, for-in over sets and arrays, goto and arbitrarily nested combinations execute exactly the statements the Pascal semantics prescribes, in order and the right number of times, for all values of the controlling expressions. A for loop evaluates its limits once before the first iteration, runs zero times when the range is empty, and terminates at the extreme value of the control variable's type.",
  ["inputs", "programs"], "all values of selectors, limits and loop conditions (iteration counts bounded)",
  "Control flow depends on data values; tests fix the data, so boundary labels, empty ranges and extreme limits are unsampled.",
  ["expr.cpp", "parser.cpp", "semantics.cpp"],
  [("ForExprAST/WhileExprAST/RepeatExprAST/CaseExprAST/IfExprAST/LabelExprAST CodeGen", "expr.cpp")],
  observe=["values printed by the compiled program"])
p("C05", "Arrays, records, variants and pointers denote the right storage",
  "Storing through any designator (array element with any index type and lower bound, several dimensions, record field, nested or variant field, with-qualified field, dereferenced pointer, file buffer) changes exactly that component and a later read of the same component by any equivalent designator yields the stored value, while every disjoint component keeps its value. Assigning a whole array or record copies the value, so the two variables are independent afterwards.",
  ["inputs", "programs", "histories"], "all in-range index values and stored values for each declared shape, with and without -no-memcpy",
  "Address arithmetic errors appear only at particular index/bound/shape combinations, and as silent corruption of another variable.",
  ["expr.cpp", "types.cpp", "parser.cpp", "runtime/alloc.c"],
  [("ArrayExprAST/FieldExprAST/VariantFieldExprAST/PointerExprAST Address", "expr.cpp"), ("ArrayDecl/RecordDecl/VariantDecl layout", "types.cpp"), ("with expansion", "parser.cpp")],
  observe=["values printed by the compiled program"])
p("C06", "Set operations are mathematical set operations",
  "For sets over any ordinal base type (negative lower bounds, chars, enumerations, several machine words), union, difference, intersection, symmetric difference, =, <>, <=, >=, membership, card, set constructors with variable elements and ranges, and assignment yield exactly the mathematical result on the members within the declared range. No member outside the operands ever appears and none is lost, for all element values.",
  ["inputs", "programs"], "all set contents and element values for each base range",
  "A set has 2^n contents; tests use a few literals, mostly in one 32-bit word.",
  ["expr.cpp", "runtime/set.c", "types.cpp"],
  [("set runtime functions", "runtime/set.c"), ("BinaryExprAST::SetCodeGen, SetExprAST", "expr.cpp")],
  observe=["values printed by the compiled program"])
p("C07", "String values are preserved by assignment, concatenation and slicing",
  "For all string contents and lengths up to the declared capacity, string assignment, concatenation, comparison, indexing, length, copy/substr, pos/index, trim, and conversions between char, string constants and string variables produce exactly the Pascal result, including empty strings, full-capacity strings and characters 0..255. Equality and ordering are lexicographic on unsigned characters with the shorter string first on a common prefix.",
  ["inputs", "programs"], "all contents with lengths up to the stated bound, all capacities used",
  "Only boundary lengths and content trigger errors; tests use fixed literals.",
  ["runtime/string.c", "expr.cpp", "builtin.cpp", "types.cpp"],
  [("__StrConcat/__StrAssign/__StrCompare/__StrCopy/__StrIndex/__StrTrim", "runtime/string.c"), ("string code generation", "expr.cpp")],
  observe=["values printed by the compiled program"])
p("C08", "Calls bind parameters, locals, enclosing variables and results correctly",
  "A value parameter is a private copy of the argument, a var parameter is the argument's own storage, conformant-array parameters carry the actual bounds, procedural parameters call the routine passed, and a function returns the last value assigned to its name or result variable, for all argument values and for direct, forward-declared, mutually recursive and nested routines. A nested routine reads and writes the variables of the activation of its enclosing routines that is current for it, at every nesting depth and recursion depth.",
  ["inputs", "programs", "histories"], "all argument values, nesting up to five levels, bounded recursion",
  "Capture and aliasing bugs need particular nesting/recursion shapes; tests exercise few.",
  ["expr.cpp", "callgraph.cpp", "parser.cpp", "semantics.cpp"],
  [("BuildClosures", "callgraph.cpp"), ("CallExprAST/FunctionAST CodeGen, closures", "expr.cpp")],
  observe=["values printed by the compiled program"])
p("C09", "With range checks on, exactly the out-of-range accesses stop the program",
  "With -Cr, a program stops with the range-error exit status before performing an array access whose index lies outside the declared bounds, for every index value, and it never stops, and produces the same output as without -Cr, when every index is in range. This holds for all index types and lower bounds, each dimension, and 32- and 64-bit index expressions.",
  ["inputs", "programs", "configurations"], "all index values, including wrap-around and 64-bit values, for each array shape",
  "Tests run -Cr only on programs that stay in range; the stop side is not exercised at all.",
  ["expr.cpp", "semantics.cpp", "runtime/rangeerror.c"],
  [("RangeCheckAST::CodeGen", "expr.cpp"), ("range check insertion", "semantics.cpp"), ("range_error", "runtime/rangeerror.c")],
  observe=["exit status and output of the compiled program"])
p("C10", "Built-in ordinal and numeric functions return their defined value",
  "abs, sqr, odd, succ, pred (with or without step), ord, chr, inc, dec, min, max, sign, popcnt, card, length, the sizeof family and random's range return for every argument of every admissible type the value the language defines, in the argument's own width. inc/dec change only their argument.",
  ["inputs", "programs"], "all argument values of each admissible type",
  "Each builtin has a separate code path per type; tests call each on one or two values of one type.",
  ["builtin.cpp", "runtime/math.c"],
  [("FunctionBase subclasses", "builtin.cpp")],
  observe=["values printed by the compiled program"])
p("C11", "Constant expressions fold to the value the same expression has at run time",
  "Every constant expression accepted in a const definition, range bound, case label or initialiser has the value that the same expression over variables has when evaluated by the compiled program, with the same operator precedence and signs. This holds for integer, real, boolean, char, string and set constants and for the functions admitted in constants.",
  ["inputs", "programs"], "all constant operand values for every foldable operator (front-end folding code run symbolically) and a family of nested expressions",
  "Folding is a second implementation of every operator; tests compare only a few literal cases, rarely negative ones.",
  ["constants.cpp", "parser.cpp"],
  [("ConstDecl operators, EvalFunction", "constants.cpp"), ("ParseConstExpr/ParseConstTerm", "parser.cpp")],
  observe=["value of the constant when printed"])
p("C12", "Optimisation level, word size and copy strategy never change behaviour",
  "For every program free of errors the output and exit status are the same with -O0, -O1, -O2, -O3, with -m32 and -m64, with and without -no-memcpy, -g and -Cr, for all inputs. In particular type sizes and layouts differ between models only in what sizeof reports for pointers.",
  ["configurations", "inputs", "programs"], "all inputs of the program corpus for each option set",
  "Tests run fixed data under each option set; a miscompile of an attribute or layout shows only for some data.",
  ["lacsap.cpp", "expr.cpp", "types.cpp", "binary.cpp"],
  [("RunOptimisationPasses", "lacsap.cpp"), ("attributes and byval/memcpy choice", "expr.cpp"), ("Size/AlignSize", "types.cpp")],
  observe=["output and exit status of the compiled program"])
p("C13", "Formatted output prints every value in the requested field",
  "write/writeln of integers, longints, chars, booleans, enumerations, strings and reals prints the value's representation right-justified in the given field width (never truncating a number; default width is the value's own length) and with the given number of decimals, to the file named (default output), and writeln adds exactly one line end. For every value, width and precision, nothing else is written and no other variable or file changes.",
  ["inputs", "programs"], "all values, all widths and precisions up to the stated bound",
  "Field logic depends on the value/width relation; tests print a few combinations.",
  ["runtime/write.c", "expr.cpp"],
  [("__write_* functions", "runtime/write.c"), ("WriteAST::CodeGen", "expr.cpp")],
  observe=["bytes written to the file"])
p("C14", "Text input delivers exactly the characters, numbers and line structure",
  "For every content of a text file, read/readln of char, integer, longint, real, boolean-free mixes and strings consume exactly the characters the language prescribes (leading blanks and line ends skipped before numbers, one character per char, the rest of the line discarded by readln, a string stops at the line end), and eof and eoln are true exactly at the end of file and of line. Values read equal the value of the text read, no character is lost or delivered twice, and lines of any length are handled.",
  ["inputs", "histories"], "all file contents up to the stated length, including across the internal buffer boundary, and all short sequences of read operations",
  "The reader keeps a buffer and look-ahead; errors need particular positions of line ends, end of file and buffer boundary.",
  ["runtime/read.c", "runtime/fileio.c", "runtime/main.c"],
  [("chunked text reader, read_char/__read_*", "runtime/read.c")],
  [("file buffer and position", "look-ahead of each open text file", "runtime/read.c, runtime/fileio.c")],
  ["values read, eof, eoln"])
p("C15", "Typed files behave as sequences of components",
  "For every sequence of rewrite, reset, write, read, put, get, seek, position, append and eof on a file of any component type, the values read are exactly those written at the corresponding positions, position and size functions report the component counts, and operations on one file do not affect another. Operating on an unopened or missing file stops with the file error and never corrupts memory.",
  ["histories", "inputs"], "all operation sequences up to the stated length with all component values",
  "Tests run three fixed sequences; the state space of file position, buffer and mode is not explored.",
  ["runtime/fileio.c", "runtime/assign.c", "runtime/getput.c", "runtime/readbin.c", "runtime/writebin.c", "runtime/seek.c"],
  [("file table and buffers", "runtime/fileio.c, runtime/assign.c"), ("get/put/seek", "runtime/getput.c, runtime/seek.c")],
  observe=["values read, eof, position"])
p("C16", "writestr, readstr and val convert without loss",
  "writestr stores in its target exactly the characters write would print for the same arguments, and readstr and val yield for every string the value of its numeric or character prefix, so that converting a value to a string and back yields the value. The target never receives more characters than its capacity and no other variable changes.",
  ["inputs", "programs"], "all values and widths, all strings up to the stated length",
  "Formatting into memory is a second implementation of write; tests convert a few values.",
  ["runtime/write.c", "runtime/read.c", "runtime/val.c", "expr.cpp"],
  [("__write_S_* functions", "runtime/write.c"), ("__read_S_* / string reader", "runtime/read.c"), ("__Val_*", "runtime/val.c")],
  observe=["string contents and values"])
p("C17", "The lexer recognises the Pascal token sequence of any text",
  "For every source text the token sequence is the one the language defines: longest-match operators and alternative symbols, case-insensitive identifiers and reserved words, decimal, based and real literals with their exact values, character and string literals with doubled quotes, and comments in any position (including adjacent and alternative-bracket comments) equivalent to a blank. Token positions name the line and column where the token starts.",
  ["inputs"], "all source texts up to the stated length over the full character set",
  "Token boundaries depend on character pairs and triples; tests contain only conventional sources.",
  ["lexer.cpp", "token.cpp", "source.cpp"],
  [("Lexer::GetToken/NumberToken/StringToken", "lexer.cpp"), ("keyword table", "token.cpp")],
  observe=["token stream (via acceptance and behaviour of the program)"])
p("C18", "Expressions and statements parse with Pascal precedence and association",
  "Every expression is grouped with 'not' binding tightest, then multiplying, adding and relational operators, left-associatively within a level and with parentheses overriding, and every statement nests as written: an else belongs to the nearest open if, a loop or with body is one statement, and case arms, begin-end and repeat-until delimit exactly their statements. The compiled program therefore computes what the fully parenthesised program computes.",
  ["programs", "inputs"], "all operator pairs/triples and a family of statement nestings, for all operand values",
  "There are hundreds of operator combinations and nestings; tests contain the usual ones.",
  ["parser.cpp", "token.cpp"],
  [("Token::Precedence", "token.cpp"), ("ParseBinOpRHS, ParseStatement and friends", "parser.cpp")],
  observe=["values printed by the compiled program"])
p("C19", "Names denote the declaration the scope rules select",
  "Each use of an identifier, in any letter case, denotes the innermost visible declaration: a local hides an outer one only inside its routine, parameters and results are local, with-statements open record scopes innermost last, enumeration constants, types and routines obey the same rules, and leaving a scope restores the outer meaning. Names exported by a unit are visible to its user with the unit's meaning, and the unit's initialisation runs before the program.",
  ["programs", "inputs"], "a family of shadowing/nesting structures for all data values; name-table operations for all short histories",
  "Tests rarely reuse names across scopes, so wrong resolution goes unnoticed.",
  ["parser.cpp", "stack.h", "namedobject.cpp"],
  [("Stack<T>::Find/Add/NewLevel/DropLevel", "stack.h"), ("ExpandWithNames", "parser.cpp")],
  observe=["values printed by the compiled program"])
p("C20", "Programs that violate the type and declaration rules are rejected",
  "Assigning, passing, comparing, indexing or returning a value of an incompatible type, wrong argument counts, undeclared or doubly declared names, non-boolean conditions, assignment to constants or to protected parameters, and non-ordinal selectors make the compiler stop with a diagnostic and exit status 1 without producing output. Programs that obey the rules are accepted.",
  ["programs"], "all ordered pairs of a set of types for every typed construct",
  "The compile-error tests hold a few dozen programs; the type-pair matrix is not covered.",
  ["semantics.cpp", "types.cpp", "parser.cpp"],
  [("TypeCheckVisitor", "semantics.cpp"), ("CompatibleType/AssignableType", "types.cpp")],
  observe=["compiler exit status and diagnostics"])
p("C21", "Method calls select the right body and fields of the object",
  "Calling a virtual method through a variable of a class type runs the override of the class the object was created as, a static (non-virtual) call runs the method of the declared class, and inherited fields and methods of every ancestor are usable with their own storage. Object fields, static fields shared by all objects, and self denote the right storage for all data values.",
  ["programs", "inputs"], "a family of class hierarchies (depth up to four) for all data values",
  "Tests contain a few small hierarchies with fixed data.",
  ["types.cpp", "expr.cpp", "parser.cpp"],
  [("ClassDecl vtable and layout", "types.cpp"), ("VirtFunctionAST, VTableAST CodeGen", "expr.cpp"), ("MakeSelfCall", "parser.cpp")],
  observe=["values printed by the compiled program"])
p("C22", "The runtime library never touches memory it does not own",
  "For every file content, string content, set, array and argument value that a compiled program can pass, the runtime library's functions access only the objects they were given, never read uninitialised storage into a result, and terminate. A failed open, a read past the end or an over-long line leads to a defined result or the file error, not to corruption.",
  ["inputs", "histories", "fault_sequences"], "all argument values within the stated sizes and all failing or succeeding I/O results",
  "An out-of-bounds access of a few bytes is invisible to output comparison and needs particular data.",
  ["runtime/read.c", "runtime/write.c", "runtime/string.c", "runtime/set.c", "runtime/array.c", "runtime/assign.c", "runtime/fileio.c", "runtime/getput.c", "runtime/params.c", "runtime/bind.c"],
  [("bounds and length handling in each function", "runtime/*.c")],
  observe=["memory accesses of the runtime"])
p("C23", "Declared initial values are in place before the first statement",
  "A variable, typed constant, type or record field declared with an initial value (scalars, strings, sets, arrays with index lists, ranges and otherwise, records, nested combinations) holds exactly that value in every component when its scope is entered, for globals and for each activation of locals. Every variable of a declaration list receives the value, and components not named keep the default given by their type.",
  ["programs", "histories"], "a family of initialiser shapes; every component observed through a symbolic index",
  "Tests read back only some components of some shapes, once.",
  ["parser.cpp", "expr.cpp", "types.cpp"],
  [("ParseInitValue", "parser.cpp"), ("InitValueAST/InitArrayAST/InitRecordAST, VarDeclAST CodeGen", "expr.cpp")],
  observe=["values printed by the compiled program"])
p("C24", "Schema and conformant types use the actual discriminants",
  "A variable of a discriminated schema type has exactly the bounds given by its actual discriminants, and a conformant array parameter exposes the actual argument's bounds and elements, so that indexing, bound identifiers, iteration and assignment address the argument's components for all discriminant values accepted at compile time and all index values. Discriminant expressions such as capacity and low/high bounds read the actual values.",
  ["programs", "inputs"], "a family of discriminants and bounds with all index and element values",
  "Tests instantiate two or three schemas with fixed data.",
  ["schema.cpp", "types.cpp", "parser.cpp", "expr.cpp"],
  [("Schema::Instantiate", "schema.cpp, types.cpp"), ("DynArrayExprAST", "expr.cpp")],
  observe=["values printed by the compiled program"])
p("C25", "The compiler survives any source text",
  "For every sequence of source bytes the compiler terminates and either produces a program or reports at least one error with exit status 1; it does not crash, loop, or read outside its own data. Malformed numbers, unterminated strings and comments, stray bytes and premature end of file are reported as errors.",
  ["inputs"], "all source texts up to the stated length through the lexical analyser and constant reader; mutated fragments in fixed contexts",
  "Tests hold well-formed programs and a few hand-written errors.",
  ["lexer.cpp", "source.cpp", "parser.cpp"],
  [("Lexer", "lexer.cpp"), ("error recovery", "parser.cpp")],
  observe=["compiler exit status and diagnostics"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
