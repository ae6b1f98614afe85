prop("P16", "A project is loaded completely, in any order of its units, or rejected",
 "Loading a program loads exactly the units whose files its uses clause names, in the order of the uses clause, from the files named (Shift-JIS text; both path separators), whatever the order in which they use one another; each item of a uses clause that names a loaded unit refers to that unit. Interfaces that use one another in a cycle are rejected, cycles through implementations are not. A missing file, a file which isn't that unit, two files of one unit, and an error in any file are reported, naming the file (and the place in it).",
 ["programs", "configurations", "faults"], "every graph of interface and implementation uses, every order of the uses clause, every way to write a path, every file missing, exchanged or wrong",
 "Tests load two or three fixed projects without faults.",
 ["parser/program.go", "parser/unit_parser.go", "parser/unit_parsers.go", "parser/uses_clause.go", "parser/pcontext/unit_context.go", "ast/uses_clause.go", "ast/unit.go"],
 [("LoadUnits", "parser/program.go"), ("UnitParsers.Sort (topological order)", "parser/unit_parsers.go"), ("UsesClauseItem.EffectivePath", "ast/uses_clause.go")],
 observe=["parser.ParseProgram on files: Program, Units, UsesClauseItem.Unit, error"],
 technique="property-based testing: generated graphs of units with injected faults against a model of loading")

prop("P17", "Walking a tree visits every identifier of it exactly once",
 "For every parsed program and unit, and every tree put together of nodes by hand (with or without their optional parts), WalkDown from the root calls the function for the root first and for each identifier that the tree has exactly once, and for none of another tree. When the function returns an error, the walk ends there and returns that error.",
 ["programs", "inputs"], "every program, unit, project and tree of nodes, every node at which the walk is stopped",
 "No test walks a tree and looks at the visits; whether Children of every kind of node lists all parts, once, is a fact about each combination of optional parts.",
 ["ast/astcore/node.go", "ast/*.go"],
 [("WalkDown", "ast/astcore/node.go"), ("Children of each node", "ast/*.go")],
 observe=["astcore.WalkDown on parsed trees"],
 technique="property-based testing: generated sources whose identifiers are known against the visits of the walk")

prop("P18", "Parsing is a function of the input: repeatable, isolated, concurrent",
 "Parsing one text or project gives the same tree (structure, positions, references) or the same error message every time, whatever was parsed before or is parsed at the same time in other goroutines, without data races. Parsing changes neither the built-in types nor files.",
 ["inputs", "schedules", "histories"], "every sequence and every concurrent mix of parses of correct, wrong and built-in-redeclaring sources",
 "Tests parse each source once, alone.",
 ["ext/string_set.go", "ast/type_embedded.go", "parser/*.go", "token/*.go"],
 [("the built-in types are one shared map", "ast/type_embedded.go"), ("package-level sets of words and predicates", "token/*.go"), ("order of units", "parser/unit_parsers.go")],
 observe=["outcome of repeated and concurrent parses, Go race detector, ast.EmbeddedTypeDeclMap"],
 technique="property-based testing: generated histories and concurrent schedules of parses under the race detector; equality with the first outcome")

prop("P19", "Declaration maps give the innermost declaration of a name, in any case",
 "For every history of operations on declaration maps and parser contexts, looking up a name (in any letter case) gives the declaration that was last set or overwritten in the innermost map which has one: a chained map before its parent, a composed map's parts in order, a stacked context's latest level, a context before the one it is based on; the units which a context imports, the last first, before what it had. A clone of a context finds the same. Setting a name which the receiving map already has is an error and changes no declaration; setting never reaches another map than the innermost. Leaving a level restores what was there; the built-in types are at the bottom and can't be changed. Lists of identifiers, declarations, uses items and units find the first element of a name likewise.",
 ["histories", "inputs"], "every sequence of creating, chaining, composing, stacking, unstacking, cloning, setting and overwriting, over every set of names",
 "Tests set one or two names in one map.",
 ["ast/astcore/decl_map.go", "ast/astcore/decl.go", "ast/astcore/ident.go", "ast/type_embedded.go", "parser/pcontext/*.go", "ast/uses_clause.go", "ast/unit.go"],
 [("DeclMapImpl, ChainedDeclMap, CompositeDeclMap", "ast/astcore/decl_map.go"), ("StackDeclMap, Clone", "parser/pcontext/*.go")],
 observe=["Get after each operation, error of Set"],
 technique="stateful property-based testing: generated operation histories against a model of maps")

prop("P20", "Types are classified by what they are, and ordinal types are demanded",
 "The classification of a type (simple, ordinal, ordinal identifier, real, string, pointer, variant) is that of the type it finally stands for: built-in, enumerated, subrange, fixed string, pointer, or none of them for structured, procedural, class and unknown types, through any chain of aliases, in this file or in a unit; a cyclic alias is of no kind. Where the language needs an ordinal type (base of a set, index of an array, selector of a variant part), any ordinal type is accepted and a known type of another kind is rejected at the place of that type.",
 ["programs", "inputs"], "every type nested and aliased to any depth, in every place",
 "Tests classify a handful of types.",
 ["ast/type_id.go", "ast/type_embedded.go", "ast/type_simple.go", "ast/type_struc.go", "ast/type_string.go", "ast/type_pointer.go", "parser/type_simple.go", "parser/type_struc.go"],
 [("Is...Type of each kind of type", "ast/type*.go"), ("ParseTypeAsOrdinalType", "parser/type_simple.go")],
 observe=["Is...Type of the types of variables, acceptance and place of the error"],
 technique="property-based testing: generated type declarations against a model of kinds")

prop("P21", "Token predicates and string sets mean what their parts mean",
 "For every token and every predicate built with Some, Every and Not from the elementary ones (type, symbol, value, keyword, directive), the predicate holds exactly if the parts say so; words of directives are recognised in any letter case, symbols only as symbols, keywords only as reserved words. The lists and sets of strings behind them behave as lists and sets, and their operations leave their arguments as they are (adding, removing and sorting, which work in place, aside).",
 ["inputs", "histories"], "every predicate expression, every token of every text, every sequence of operations on lists and sets",
 "Tests evaluate one predicate on one token.",
 ["token/predicate.go", "token/type.go", "token/directives.go", "token/token.go", "ext/strings.go", "ext/string_set.go"],
 [("Predicators.Some / Every, Not", "token/predicate.go"), ("DirectivePredicator", "token/directives.go")],
 observe=["Predicate on tokens; ext.Strings, ext.StringSet"],
 technique="property-based testing: generated predicate expressions and operation sequences against their meaning")

prop("P22", "Constructors build what the parser builds, and nodes declare what they hold",
 "A tree put together with the constructors of the nodes, from any of the forms of arguments which they take (tokens, identifiers, references, finished parts; by value or by pointer), is equal in structure, positions and references to the tree which the parser gives for the same source; a constructor given a finished node of its type returns that node, and none changes its arguments' meaning. Every declaring node gives one declaration for each of its identifiers, in order, with itself as the node; a section gives its declarations in order; the accessors for identifier, path, names, declarations and PACKED give what the node has.",
 ["programs", "inputs"], "every program and unit, every choice of an argument form for every node, every combination of optional parts",
 "Tests use the constructors with the one form they need.",
 ["ast/expression.go", "ast/function_heading.go", "ast/type_id.go", "ast/type_simple.go", "ast/type_string.go", "ast/type_pointer.go", "ast/type_variant.go", "ast/var.go", "ast/const.go", "ast/directive.go", "ast/uses_clause.go", "ast/unit.go", "ast/astcore/ident.go", "ast/astcore/decl.go"],
 [("NewExpression ... NewDesignator", "ast/expression.go"), ("NewFormalParm, NewParameter", "ast/function_heading.go"), ("NewTypeId", "ast/type_id.go"), ("NewIdentFrom, NewIdentList", "ast/astcore/ident.go"), ("ToDeclarations, GetDeclNodes", "ast/*.go")],
 observe=["trees built with ast.NewXxx; ToDeclarations, GetDeclNodes, GetIdent, GetPath, IsPacked, Names"],
 technique="property-based testing: differential between the parsed tree and the one rebuilt with constructors in randomly chosen argument forms; generated trees of all node types")
