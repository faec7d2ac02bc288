#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Statements parse to exactly the tree their source spells",
 "Every statement form of the documented grammar that the parser supports (compound, if/else, case, for/to/downto, while, repeat, with, try/except/finally with handlers, raise, goto, inherited, asm, labelled, assignment, call) is accepted, and the returned node has the form's type with each sub-statement, sub-expression, flag and label taken from the source position the grammar gives it, all list items present once and in source order, and absent parts empty. Text that does not spell a statement is rejected and never returned as a tree.",
 ["inputs"], "all token sequences, hence all Pascal statement texts of any length and nesting",
 "The tests sample about a dozen statements; the claim ranges over all token sequences and every nesting.",
 ["parser/statement.go","parser/statement_conditional.go","parser/statement_loop.go","parser/statement_try.go","parser/statement_raise.go","parser/statement_with.go","parser/statement_asm.go","ast/statement.go"],
 [("recursive-descent statement dispatch","parser/statement.go")],observe=["returned statement tree","returned error"])
prop("C02", "Expressions keep Pascal precedence, operand order and operators",
 "For every expression the tree nests relational over additive over multiplicative over unary/primary operators exactly as the grammar states, each operator is recorded with the operand that follows it, operands stay in source order, and parentheses, sets and sub-ranges, type casts, calls, indexing, member access, dereference, address-of, not, literals and nil become the node the source spells. A token that cannot continue the expression ends it or is an error; none is skipped.",
 ["inputs"], "all token sequences starting at an expression",
 "Precedence tests cover a few operator pairs; there are over 20 operators in unbounded combinations.",
 ["parser/expression.go","parser/unit.go","ast/expression.go","ast/manifest_constants.go"],
 [("one parse level per precedence class, operator predicates","parser/expression.go")],observe=["returned expression tree"])
prop("C03", "Declaration sections are recorded completely and in order",
 "For constant, variable, threadvar, label, type, exports and routine declarations every declared item appears once, in source order, with its name, type, initial value, absolute target, parameter mode, array flag, default value, result type, directives and external options taken from the source, in both interface and implementation parts. A section keyword followed by malformed text is an error.",
 ["inputs"], "all token sequences of declaration sections",
 "Tests hold a handful of sections with one or two items each.",
 ["parser/block.go","parser/const.go","parser/var.go","parser/type.go","parser/function.go","parser/function_heading.go","parser/ident_list.go","ast/const.go","ast/var.go","ast/block.go","ast/function.go","ast/function_heading.go"],
 [("section loops ending on the next reserved word","parser/const.go, parser/var.go, parser/type.go")],observe=["declaration nodes"])
prop("C04", "Type denoters become the type node the source spells",
 "Every supported type denoter (identifier with or without unit qualifier, embedded real/ordinal/string types, sized string, enumeration, sub-range, pointer, array, set, record with variant part, file, procedural type, class and class reference) yields the node of that kind with its bounds, index types, element type, fields, variants, packed flag and of-object flag taken from the source. A denoter that is not a type is rejected, and no type node is ever missing from an accepted declaration.",
 ["inputs"], "all token sequences at a type position and all declaration kinds an identifier can have",
 "Tests use about forty fixed denoters; bounds, nesting and qualification combine freely.",
 ["parser/type.go","parser/type_simple.go","parser/type_string.go","parser/type_struc.go","parser/type_procedure.go","ast/type.go","ast/type_simple.go","ast/type_struc.go","ast/type_procedure.go","ast/type_pointer.go","ast/type_string.go"],
 [("dispatch on the first token of the denoter","parser/type.go")],observe=["type nodes"])
prop("C05", "Class members keep their section, visibility, order and specifiers",
 "For every class type the heritage list, and for each section the visibility keyword, fields, methods with headings and directives, and properties with interface, index, read, write, stored, default and implements specifiers, are recorded once, in source order, in the section they are written in. Malformed members are rejected.",
 ["inputs"], "all token sequences of class bodies",
 "Tests contain a few classes; visibility, member kinds and specifiers combine freely.",
 ["parser/type_class.go","ast/type_class.go","ast/type_class_ref.go"],
 [("visibility sections and member lists","parser/type_class.go")],observe=["class type node"])
prop("C06", "Programs and units keep their section structure",
 "A program or unit is accepted only with its heading, optional uses clause, sections and closing 'end.' in the documented order; its name, used units with their paths, declaration sections, exports, body, initialization and finalization statements are each recorded in their own place. Nothing between the heading and the final period is silently dropped.",
 ["inputs"], "all token sequences of program and unit files",
 "Tests parse a few sample projects.",
 ["parser/program.go","parser/unit_parser.go","parser/uses_clause.go","parser/block.go","ast/program.go","ast/unit.go","ast/uses_clause.go","ast/goal.go"],
 [("section parsing in file order","parser/unit_parser.go, parser/program.go")],observe=["program and unit trees"])
prop("C07", "Parsing always terminates",
 "On every finite source text the parser returns: every loop in it consumes a token other than end-of-file on each round trip, every recursion consumes at least one token before re-entering the same construct, and no traversal follows reference links that user declarations can make cyclic.",
 ["inputs"], "all texts, including truncated ones",
 "Tests use well-formed, finite, acyclic samples; a hang needs a truncated or cyclic input.",
 ["parser/base.go","parser/statement_asm.go","parser/type_class.go","parser/unit_parser.go","ast/type_id.go","ast/type_class.go"],
 [("loops bounded by token consumption","parser/*.go")],observe=["the parse call returns"])
prop("C08", "Parsing never panics on any source text",
 "Whatever the text, parsing a program or unit ends in a tree or an error value; no nil dereference, failed type assertion, out-of-range index or explicit panic is reachable from the parse entry points because of the text being parsed.",
 ["inputs"], "all texts and all declaration histories",
 "Panics need malformed or unusual input at specific places; tests are well-formed.",
 ["parser","ast","token","runes"],
 [("error returns instead of panics","parser/base.go")],observe=["the parse call returns normally"])
prop("C09", "A detected error is always returned, never swallowed",
 "If reading a file, expecting a token, parsing a sub-construct, registering a declaration or ordering units fails, the enclosing parse call returns a non-nil error; and a parse call that returns no error returns a usable non-nil node.",
 ["inputs","fault_sequences"], "all inputs and all failing steps of each parse call",
 "Tests check a few error messages; each of the several hundred error exits is a separate path.",
 ["parser"],
 [("error return convention","parser/*.go")],observe=["returned error and node"])
prop("C10", "Scopes are balanced and declarations land in the right scope",
 "Each routine, procedural type, method and indexed property gets its own scope for its parameters and locals, and when its parse call ends, successfully or not, name lookup is exactly what it was before plus only the names declared at the enclosing level. Names of an inner scope are never visible afterwards, and a name declared at a level stays visible to the end of that level.",
 ["inputs","histories"], "all sequences of nested scopes and all exits, including error exits and backtracking",
 "Tests check lookups for a few programs, not every nesting and exit.",
 ["parser/function.go","parser/function_heading.go","parser/type_class.go","parser/type_procedure.go","parser/statement_try.go","parser/pcontext/program_context.go","parser/pcontext/unit_context.go","parser/pcontext/stackable_context.go"],
 [("scope push with deferred pop","parser/pcontext")],observe=["references resolved in the tree"])
prop("C11", "Backtracking restores the parse position and state exactly",
 "When the parser gives up a speculative reading, the token stream, current token, line and column tracking and name scopes continue exactly as if the speculation had never happened, and copies made for it are independent of the original.",
 ["inputs"], "all inputs that make the parser backtrack, at every position",
 "Tests backtrack in a few short texts without multi-line input after the rollback point.",
 ["parser/base.go","parser/type_simple.go","parser/type_struc.go","parser/expression.go","token/tokenizer.go","token/token.go","runes/cursor.go","runes/position.go"],
 [("rollback closure over cloned tokenizer and token","parser/base.go")],observe=["tokens and positions after a rollback"])
prop("C12", "The tokenizer is total: it always progresses and ends with EOF",
 "For every text, reading tokens repeatedly consumes at least one character per token until the end, every character belongs to exactly one token or skipped blank or comment, and at the end an end-of-file token is returned every time; unterminated comments and strings end at the end of the text.",
 ["inputs"], "all rune sequences",
 "Token tests sample short well-formed texts.",
 ["token/tokenizer.go","token/comment.go","token/string.go","token/numeral.go","token/special_symbols.go","token/word.go","token/space.go","token/eof.go","runes/cursor.go"],
 [("ordered list of token processors","token/tokenizer.go")],observe=["token sequence"])
prop("C13", "Characters are grouped into the documented token kinds",
 "Identifiers, reserved words, numerals (integer, real), quoted strings, one- and two-character symbols and the three comment styles are recognised exactly as the lexical grammar says: longest match for words, symbols and numerals, '..' never swallowed by a numeral, comment delimiters never taken as symbols, each reserved word recognised in any letter case and no other word reserved.",
 ["inputs"], "all rune sequences",
 "Token tests sample a few dozen lexemes.",
 ["token/comment.go","token/string.go","token/numeral.go","token/special_symbols.go","token/word.go","token/reserved_words.go","runes/word.go","runes/digit.go"],
 [("per-kind scanners and lexical tables","token/*.go")],observe=["token types and texts"])
prop("C14", "Token text is exactly the source between its start and end",
 "Every token's text is the source slice from its start to its end position; the start is where the scanner stood before the token, the end where it stands after it, both are private copies unaffected by later reading, and a scanner that does not recognise a token consumes nothing.",
 ["inputs","histories"], "all texts and all later reads",
 "Tests compare a few tokens, rarely after further reading.",
 ["token/token.go","token/tokenizer.go","token/*.go","runes/position.go"],
 [("start/end positions cloned from the cursor","token/*.go")],observe=["token text, start and end"])
prop("C15", "Line and column follow the text for every position",
 "After any number of reads the reported position has index equal to characters consumed, line one plus the number of line feeds consumed, and column one plus the characters consumed since the last line feed (one-based), also right after a line feed, at the first character and when the end is read repeatedly.",
 ["inputs"], "all texts and all read sequences",
 "Position tests use short texts; off-by-one errors need particular newline placement.",
 ["runes/cursor.go","runes/position.go"],
 [("incremental line/column update","runes/cursor.go")],observe=["positions of tokens and in messages"])
prop("C16", "Letter case never changes the meaning of a program",
 "Changing the letter case of keywords, directives, visibility words, specifiers, built-in type names, constants and identifiers never changes whether a text is accepted, which tree is built apart from the recorded spelling, or which declaration a name resolves to.",
 ["inputs"], "all spellings of every word in every position",
 "Each word has exponentially many spellings; tests use one or two.",
 ["token/predicate.go","token/reserved_words.go","token/directives.go","parser","ast/astcore/decl_map.go","ast/astcore/ident.go","ast/type_class.go","ast/type_embedded.go","ast/uses_clause.go","ast/unit.go","ast/manifest_constants.go","parser/unit_parsers.go"],
 [("upper/lower casing before comparison","token/*.go, ast/*.go")],observe=["trees and resolved references"])
prop("C17", "Walking a tree visits every node of it once",
 "For every node kind, its children list contains every sub-node held by it exactly once and no missing or nil entries, in the order the fields are declared or written, so that walking down from any node reaches every identifier and sub-node, visits parents before children and stops at the first callback error.",
 ["inputs","programs"], "all trees the parser can build",
 "Few tests walk trees and only small ones.",
 ["ast","ast/astcore/node.go","ast/astcore/ident.go"],
 [("Children methods of each node type","ast/*.go"),("recursive walk","ast/astcore/node.go")],observe=["children lists, walk callback order"])
prop("C18", "Names resolve to the innermost, then most recent, declaration",
 "Looking up a name returns the declaration of the innermost scope that has it, searching outward scope by scope to the built-in types; among the units of one uses clause the last listed wins, a unit's or program's own declarations win over used units, and registration always goes to the innermost scope and changes no other.",
 ["inputs","histories"], "all scope chains, unit lists and names",
 "Tests resolve a few names in two-level chains.",
 ["ast/astcore/decl_map.go","parser/pcontext","parser/program.go","parser/unit_parser.go"],
 [("chained and composite declaration maps","ast/astcore/decl_map.go")],observe=["references in the tree"])
prop("C19", "Units are processed in dependency order with cycles rejected",
 "Every unit's interface is processed only after the interfaces of all loaded units its interface uses, all interfaces come before any implementation, each loaded unit is processed exactly once, interface cycles are an error, and a unit's implementation-only names are never visible to other units.",
 ["inputs","histories"], "all use graphs and all orders of listing units",
 "Tests load two or three units in a fixed order.",
 ["parser/program.go","parser/unit_parsers.go","parser/unit_parser.go","parser/pcontext/unit_context.go","ast/unit.go"],
 [("topological order of the use graph, two-phase load","parser/program.go, parser/unit_parsers.go")],observe=["unit trees and references, returned error"])
prop("C20", "Parsing is deterministic",
 "The same files always give the same tree, the same token sequence, the same unit order and the same error message: nothing observable depends on map iteration order, time, randomness, environment or goroutine scheduling.",
 ["inputs","schedules"], "all runs over the same input",
 "A test run observes one iteration order.",
 ["token/directives.go","token/special_symbols.go","ext/string_set.go","parser/unit_parsers.go"],
 [("order-insensitive or sorted use of maps","ext, token, parser")],observe=["trees and error texts across runs"])
prop("C21", "Parses are independent: no shared mutable state between them",
 "One parse never changes the outcome of another, earlier, later or concurrent: package-level tables, built-in declarations and option values are not modified after program start-up, except by the caller installing a logger.",
 ["histories","schedules"], "all sequences and interleavings of parses",
 "Tests run parses one after another and compare each alone.",
 ["token","ast","parser","ext","log/base.go","ast/type_embedded.go"],
 [("package state written only at initialization","all packages")],observe=["results of repeated or concurrent parses"])
prop("C22", "Every error about source text says where",
 "Each error raised while parsing a file because of a token of it carries the file path and the one-based line and column of the offending token; the position printed is the position of the token the error is about.",
 ["inputs"], "all malformed inputs and every rejecting rule",
 "Tests check a couple of messages; there are dozens of rejecting sites.",
 ["parser","ast/astcore/decl_map.go"],
 [("position-formatting error helper","parser/base.go")],observe=["error text"])
prop("C23", "Class member lookup follows visibility and ancestry",
 "Looking up a member of a class searches its own fields, methods and properties first and then its ancestors nearest first, ignoring letter case; inherited private members are not found, and a property re-declared without a type inherits from the nearest ancestor property of that name.",
 ["inputs","histories"], "all class hierarchies and member names",
 "Tests use two-level hierarchies.",
 ["ast/type_class.go","parser/type_class.go"],
 [("recursive member search","ast/type_class.go")],observe=["resolved read/write/stored references, property parents"])
prop("C24", "Built-in types and type predicates classify correctly",
 "Each built-in type name denotes exactly its documented kind (real, ordinal, string, pointer, variant) and no other; a type name is classified as real, ordinal, string, pointer or variant exactly when the type it finally refers to is, and a name that refers to nothing or to a non-type is classified as none.",
 ["inputs"], "all type names and alias chains",
 "Tests sample a few names per kind.",
 ["ast/type_embedded.go","ast/type_id.go","ast/type_simple.go","ast/type_string.go"],
 [("embedded type tables, predicate delegation","ast/type_embedded.go, ast/type_id.go")],observe=["type predicates, accepted index and set types"])
prop("C25", "Every declaration is registered and duplicates are rejected",
 "Each constant, variable, threadvar, type, label, enumeration element, parameter, routine, used unit and handler variable becomes findable under each of its names with a reference to its own declaration, and declaring a name twice in one scope is an error naming it, except completing a forward-declared class.",
 ["inputs"], "all declarations and name sets",
 "Tests declare few names; duplicates are hardly tested.",
 ["parser","ast/astcore/decl_map.go","ast/astcore/decl.go","ast/*.go"],
 [("registration call per declaration","parser/*.go"),("ToDeclarations","ast/*.go")],observe=["references in the tree, returned error"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
