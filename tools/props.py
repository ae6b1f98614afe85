#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run after changing a property."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(observe), hook_needed=None)), technique, note))

prop("P01", "Tokenizing is lossless, total and restartable",
 "For every text, the tokenizer reaches EOF after finitely many tokens, the non-EOF tokens are non-empty, each begins where the one before it ended, and together they spell the text exactly. Leaving out spaces and/or comments changes nothing but that those tokens are absent. A clone of a tokenizer goes on from where it was made, independently of the original.",
 ["inputs", "histories"], "every text (any characters, including unterminated comments and strings and a NUL), every combination of the filter flags, every point at which the tokenizer is cloned",
 "The tests tokenize a few dozen well-formed snippets with one flag combination; open comments, NUL, illegal characters and clones in the middle of a text are not sampled.",
 ["token/tokenizer.go", "token/token.go", "runes/cursor.go", "token/comment.go", "token/string.go", "token/word.go", "token/numeral.go", "token/space.go", "token/special_symbols.go", "token/eof.go", "token/illegal.go"],
 [("Tokenizer.GetNext, the list of token processors", "token/tokenizer.go"), ("Cursor.Next and Cursor.Clone", "runes/cursor.go")],
 observe=["token.NewTokenizer, GetNext, Clone, Token.Start/End/Raw"],
 technique="property-based testing: generated texts against text-reconstruction, filter and clone invariants")

prop("P02", "Tokens and identifiers carry their true source position",
 "For every text, the line, column and index of the start and the end of every token are those of its first character and of the character after its last one, with lines counted by line feeds and columns by characters. Every identifier in a parsed tree has the spelling of the source and the start and end position of its occurrence.",
 ["inputs"], "every text (a line feed as the very first character is a known finding), every layout of a correct source: line ends, tabs, multi-line comments, multi-byte characters",
 "Tests compare locations of a few snippets; lookahead, rollback and clones at a line break, multi-line comments and non-ASCII text are hardly sampled.",
 ["runes/cursor.go", "runes/position.go", "token/token.go", "ast/astcore/ident.go", "parser/base.go"],
 [("Cursor.Next (pending line break)", "runes/cursor.go"), ("astcore.NewIdent / NewLocation", "ast/astcore/ident.go")],
 observe=["Token.Start, Token.End, Ident.Location"],
 technique="property-based testing: generated texts and laid-out sources against positions computed from the text")

prop("P03", "Every token has the type, extent and value the lexical grammar gives it",
 "For every text, splitting it by the lexical rules of the language (identifiers, reserved words in any letter case, integer and real numerals, quoted strings with doubled quotes, three comment forms, one- and two-character symbols, spaces) gives exactly the tokens that the tokenizer gives, with the same types. The value of a reserved word is its upper-case spelling, the value of any other token its text.",
 ["inputs"], "every text, in particular every pair of adjacent lexical elements with or without a gap",
 "The tests list examples per token type; adjacency (`1..2`, `a.b`, `(*)*)`, `x-1`, near-reserved words) makes a combinatorial space.",
 ["token/tokenizer.go", "token/type.go", "token/reserved_words.go", "token/comment.go", "token/string.go", "token/word.go", "token/numeral.go", "token/space.go", "token/special_symbols.go"],
 [("processors per lexical class", "token/tokenizer.go"), ("reserved word set", "token/reserved_words.go")],
 observe=["Token.Type, Token.RawString, Token.Value"],
 technique="property-based testing: differential against a reference lexer")

prop("P04", "No input makes the parser panic, hang or exhaust memory",
 "For every text, well-formed or not, each entry point of the parser (program, unit, and the parsers of single constructs) ends with either a result or an error: never with a panic, an endless loop or unbounded memory, and never with neither a result nor an error. The same is true of loading a project whose files have any bytes.",
 ["inputs"], "every text: arbitrary characters, arbitrary token sequences, correct sources with tokens deleted, inserted, replaced, duplicated, swapped or cut off at any point; every file content for a project",
 "Tests parse correct sources and a handful of wrong ones; a crash or an endless loop needs a specific malformed input.",
 ["parser/*.go", "token/*.go", "runes/cursor.go", "ast/*.go"],
 [("Validate / TokenErrorf return errors", "parser/base.go"), ("nil checks on lookups", "parser/*.go")],
 observe=["panic, CPU time, heap, (result, error) of parser.ParseProgram, ProgramParser, UnitParser, Parser.Parse*"],
 technique="fuzzing: grammar-generated sources mutated at token and character level, token soup, random bytes; crash/hang/allocation oracle")

prop("P05", "Expressions parse to the tree that precedence and associativity demand",
 "For every expression of the grammar, the parsed tree has the operators, operands and nesting that the source has: relational, additive and multiplicative operators and NOT bind at their levels, operators of one level apply from left to right, and parentheses, calls, casts, set constructors, indexes, dereferences, addresses, signs, literals and qualified names come out as written. Whether a name applied to arguments is a cast or a call depends only on what the name is declared as.",
 ["programs", "inputs"], "every expression, nested to any depth, in every place where expressions occur, over every set of declarations",
 "Tests parse a few dozen expressions, mostly of depth one or two; combinations of operator levels, signs and operand kinds are not covered.",
 ["parser/expression.go", "ast/expression.go"],
 [("ParseExpression / ParseSimpleExpression / ParseTerm / ParseFactor", "parser/expression.go")],
 observe=["ast.Expression trees in a parsed program or unit"],
 technique="property-based testing: grammar-based generation with the expected tree built alongside")

prop("P06", "Statements parse to the structure that is written",
 "For every sequence of statements, the parsed tree has the statements in source order with the nesting, conditions, bodies, selectors, handlers, labels and ELSE branches of the source; an ELSE belongs to the nearest IF that can take it. Semicolons separate statements, and empty statements add or remove nothing else.",
 ["programs", "inputs"], "every statement list nested to any depth, with every optional part present or absent",
 "Tests have one or two samples per statement kind; nesting of one kind in another, optional parts and empty statements are combinatorial.",
 ["parser/statement.go", "ast/statement.go"],
 [("ParseStmtList / ParseStatement and the parsers per statement", "parser/statement.go")],
 observe=["ast.StmtList trees in a parsed program or unit"],
 technique="property-based testing: grammar-based generation with the expected tree built alongside")

prop("P07", "Types parse to the structure that is written",
 "For every type (enumerated, subrange, array, set, file, record with variants, string, pointer, procedural, PACKED, references to types of this file or of another unit), the parsed tree has its parts, nesting and order as in the source.",
 ["programs", "inputs"], "every type nested to any depth, in type, variable, typed constant, field and parameter declarations",
 "Tests have a few samples per kind of type; nesting of kinds in one another isn't covered.",
 ["parser/type*.go", "ast/type*.go"],
 [("ParseType and the parsers per kind", "parser/type.go")],
 observe=["ast types in a parsed program or unit"],
 technique="property-based testing: grammar-based generation with the expected tree built alongside")

prop("P08", "Class declarations parse to the members that are written",
 "For every class declaration, the parsed class has the heritage, the sections with their visibility, and in each section the fields, methods, constructors, destructors, class methods, directives and properties (parameters, type, index, read, write, stored, default, implements) of the source, in order. Forward declarations, short classes and class references come out as what they are.",
 ["programs", "inputs"], "every class declaration with any sections and members",
 "Tests have a handful of classes; the combinations of sections, member kinds and property specifiers are not covered.",
 ["parser/type_class.go", "ast/type_class.go"],
 [("ParseClassType, member and property parsers", "parser/type_class.go")],
 observe=["ast.CustomClassType in a parsed program or unit"],
 technique="property-based testing: grammar-based generation with the expected tree built alongside")

prop("P09", "Member and property lookup follows inheritance and visibility",
 "For every class hierarchy, looking a member up by name (in any letter case) finds the declaration in the nearest class that declares it, where private members of ancestors are never found and those of the class itself only on request. Looking a property up finds the nearest declaration; a property redeclared without a type or accessors takes what is missing from the nearest ancestor that gives it.",
 ["programs", "inputs"], "every chain of classes (with aliases, forward declarations, unknown ancestors), with members of every kind and visibility redeclared at any level",
 "Tests have one or two hierarchies of two classes.",
 ["ast/type_class.go"],
 [("FindMemberDecl, FindProperty, ComputedProperty, InheritsFrom", "ast/type_class.go")],
 observe=["FindMemberDecl, FindProperty, ClassProperty.Parent, ComputedProperty"],
 technique="property-based testing: generated class hierarchies against a model of lookup")

prop("P10", "Programs and units parse to the sections and declarations that are written",
 "For every program and unit, the parsed tree has the heading, uses clauses, declaration sections (constants, variables, thread variables, types, labels, routines), routine headings, parameters, directives, external options, exports, blocks, initialization and finalization of the source, in source order and with nothing lost or added.",
 ["programs", "inputs"], "every combination and order of sections, routines nested to any depth, every optional part present or absent",
 "Tests parse single sections and a few short files.",
 ["parser/program.go", "parser/unit.go", "parser/block.go", "parser/function*.go", "parser/const.go", "parser/var.go", "parser/uses_clause.go"],
 [("ParseProgram, ParseUnit, ParseBlock, ParseFunctionDecl, ...", "parser/*.go")],
 observe=["ast.Program, ast.Unit"],
 technique="property-based testing: grammar-based generation with the expected tree built alongside")

prop("P11", "Layout, comments and letter case of keywords do not change the tree",
 "Two texts with the same tokens, apart from the letter case of reserved words and directives and apart from spaces, line ends and comments between tokens, parse to the same tree or are both rejected. Names which differ only in letter case are the same name.",
 ["programs", "inputs"], "every program and unit, correct or not, in every layout and spelling",
 "Tests are written in one layout and mostly in one letter case.",
 ["token/tokenizer.go", "token/predicate.go", "parser/*.go", "ext/strings.go", "ast/astcore/decl_map.go"],
 [("skipping of spaces and comments", "token/tokenizer.go"), ("case folding of words", "token/*.go, ast/astcore/decl_map.go")],
 observe=["equality of trees and of acceptance for two layouts"],
 technique="property-based testing: metamorphic relation between two layouts of one token sequence")

prop("P12", "Source with a syntax error is rejected, at the place of the error",
 "A program or unit with a character that belongs to no token, with a missing keyword, bracket or separator that the grammar demands, with a reserved word in place of a name, or cut off before its end is never accepted. The error names the position of the offending token when the error is a token that cannot occur at its place.",
 ["programs", "inputs"], "every correct program and unit with one such error at any place",
 "Tests have a few negative samples.",
 ["parser/base.go", "parser/*.go", "token/predicate.go"],
 [("Validate, TokenErrorf", "parser/base.go")],
 observe=["error of the parse and the line:column it names"],
 technique="property-based testing: generated correct sources with one injected syntax error, rejection and location oracle")

prop("P13", "Every name refers to the declaration that is in scope where it is used",
 "For every program and unit, each use of a name (in expressions, statements, type positions, goto, property accessors, class references) refers to the declaration which the scope rules of the language give at that point: the innermost one, declared before the use, in any letter case; types of a section may be used before their declaration; names without a declaration refer to nothing. Declarations of a routine, of its parameters, and of an exception handler are not visible outside of it.",
 ["programs", "inputs"], "every program and unit, with names redeclared in nested scopes, routines nested to any depth",
 "Tests check references in a few short programs; shadowing and order of declaration are combinatorial.",
 ["parser/context.go", "parser/pcontext/*.go", "parser/*.go", "ast/astcore/decl_map.go", "ast/type_id.go"],
 [("chained declaration maps, StackContext", "parser/pcontext/stackable_context.go"), ("deferred resolution of type references", "parser/type.go")],
 observe=["IdentRef.Ref, TypeId.Ref, GotoStatement.Ref and their declaring nodes"],
 technique="property-based testing: generated scoped programs against a scope model")

prop("P14", "A name is declared at most once per scope, and shadowing is allowed",
 "A program or unit which declares a name (in any letter case) twice in one scope of a program, unit or routine is rejected, whatever the kinds of the two declarations (fields and members, which belong to their type, aside), except that a routine may be declared again (forward, interface heading, overload) and a forward class be completed. The same name declared in an inner scope is accepted.",
 ["programs", "inputs"], "every pair of declaration kinds in one scope and in nested scopes, anywhere in every program and unit",
 "Tests have a few duplicate samples for some kinds.",
 ["ast/astcore/decl_map.go", "parser/*.go"],
 [("DeclMap.Set checks duplicates", "ast/astcore/decl_map.go")],
 observe=["acceptance of the parse"],
 technique="property-based testing: generated programs with one duplicate declaration injected, and shadowing programs")

prop("P15", "Names across units refer to what the used unit declares in its interface",
 "In a project, a name used in a program or unit finds declarations of its own file first, then those in the interfaces of the units it uses, the unit named last first; a name qualified by a unit finds that unit's declaration, and is rejected in an expression if its interface has none. Declarations of an implementation section, and units which aren't used, are never visible elsewhere; all references to one declaration, from any file, are to the same node.",
 ["programs", "configurations"], "every project of a program and several units which use one another (interface or implementation) in any order, with names declared in several of them",
 "Tests load two or three fixed projects.",
 ["parser/program.go", "parser/unit.go", "parser/uses_clause.go", "parser/pcontext/*.go", "ast/unit.go"],
 [("LoadUnits, ProcessIntfBody/ProcessImplBody", "parser/program.go"), ("composite declaration maps", "ast/astcore/decl_map.go")],
 observe=["parser.ParseProgram on files; references in all trees"],
 technique="property-based testing: generated multi-file projects against a scope model")

def load_more():
    p = os.path.join(here, "tools", "props_more.py")
    if os.path.exists(p):
        exec(compile(open(p).read(), p, "exec"), globals())
load_more()

NOTE = ("Exploration: the property held on every generated case (counts, non-trivial rule and samples in the evidence); "
        "nothing is proved about inputs which were not generated. Trusted: the generator and the oracle in /verif/harness, the Go toolchain, rapid.")
src = "".join(open(os.path.join(here, "harness", f)).read() for f in os.listdir(os.path.join(here, "harness")) if f.endswith(".go"))
checks, na = [], []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p, tech, note in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
        if 'ID: "%s"' % p["id"] in src:
            checks.append(dict(property=p["id"], quick_cmd="bash harness/run.sh check %s quick" % p["id"],
                thorough_cmd="bash harness/run.sh check %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"], technique=tech, level="exploration", level_note=(note + " " + NOTE).strip()))
        else:
            na.append(dict(property=p["id"], reason="The check is not built yet."))
m = dict(version=1, setup_cmd="bash harness/run.sh build /dev/null.skip || true", checks=checks, not_applicable=na,
    notes="All checks: bash harness/run.sh check <property> quick|thorough; a saved failure is re-run with bash harness/run.sh replay <file>. No hooks in /repo: the harness uses the exported API only. Known findings and repairs: known-findings.txt.")
m["setup_cmd"] = "bash harness/setup.sh"
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")
