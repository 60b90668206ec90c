#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the list stays readable and consistent).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

G, A, S, T, R, F = "ast/grammar.y", "ast/ast.go", "ast/ast_struct.go", "ast/tokens.go", "ast/ast_print.go", "ast/fast_tolower/gowrap.go"
Y = "ast/y.go"

p("C01", "Any input is handled without crash or hang",
  "For every byte string, parsing it returns (success or error) in bounded time without a panic, fatal error or runaway memory, however long, deeply nested, truncated or non-UTF-8 the text is. Afterwards JSON, Print (any margin from nothing to hundreds, one-line or not), PrintStatement and Walk on the resulting object also return without a panic. Reading the same text token by token always makes progress and reaches end of input after a number of tokens no larger than the number of bytes plus one.",
  ["inputs"], "all byte strings, including random bytes, mutated modules, deep nesting and very long tokens",
  "the tests feed a few dozen friendly modules and three real files; hostile, truncated, deeply nested or non-UTF-8 text is never tried",
  [T, A, Y, R, S], [("lexer loops stop at end of input", T), ("goyacc table-driven parser with a growing stack", Y), ("renderers switch over node types with a default", R)],
  ["(*AstNode).Parse", "(*AstNode).JSON", "(*AstNode).Print", "(*ModuleStatement).Walk", "(*Token).Next"])
p("C02", "Every well-formed module is accepted",
  "A module written in the supported language (module variables, then procedures/functions with directives, Экспорт, Знач and default parameters, then statements: assignments, calls, Если, the three loops, Попытка, Возврат, Прервать/Продолжить, ВызватьИсключение, Выполнить, labels and Перейти; all operators, literals, ternary, Новый, indexing and call chains) parses without an error, in every combination, nesting depth and length of these constructs.",
  ["programs"], "all well-formed modules, every combination of constructs",
  "tests contain a fixed set of modules; the combinations, orders and sizes are unbounded",
  [G, Y, T], [("LALR grammar", G), ("tokeniser", T)], ["(*AstNode).Parse"])
p("C03", "Ill-formed text is rejected",
  "Parse returns a non-nil error for every text that is not in the supported language: an unexpected, missing, duplicated or misplaced token, an unclosed or mismatched block, bracket or routine, a character that is not part of the language, an unterminated string or date, a date that is not a calendar date of 8, 12 or 14 digits, a malformed number, or a number running into an identifier. An error is never lost because of what follows or precedes it in the module.",
  ["inputs"], "all texts that are not well-formed modules (every single-token corruption of every module, every short token sequence)",
  "tests pin a handful of rejected texts",
  [G, Y, T, A], [("LALR tables", Y), ("lexer errors stored in the parser state", A)], ["(*AstNode).Parse"])
p("C04", "The tree mirrors statements, blocks and their order",
  "For a well-formed module the tree contains exactly the statements of the source, each once, in source order, with the right kind and parts, inside the block that encloses it: routine body, module body, Если / each ИначеЕсли (in order) / Иначе, loop body, Попытка / Исключение part, to any nesting depth and block length. Empty statements and empty blocks add nothing and take nothing from elsewhere.",
  ["programs"], "all nestings, orders and lengths of statements and blocks",
  "tests compare a few hand-written trees; order, depth and length dependent mistakes need unbounded variation",
  [G, Y, S, A], [("block productions", G), ("ModuleStatement.Append", S)], ["AstNode.ModuleStatement"])
p("C05", "Operator precedence, associativity and unary operators",
  "Every expression tree reflects the operator table: ИЛИ, then И, then Не, then all comparisons (= <> < > <= >=) on one level, then + -, then * / %, then unary minus, tightest last; binary operators group to the left and parentheses override. Each operator keeps its own kind and its operands in order, and every unary minus and Не of the source is present in the tree on exactly the operand it applies to (folded into a number or boolean literal where the operand is one).",
  ["inputs"], "all expressions: every operator sequence, parenthesisation, unary placement and context",
  "the tests contain around a dozen expressions",
  [G, Y, A, S], [("precedence declarations", G), ("unaryMinus / not helpers", A)], ["expressions in AstNode.ModuleStatement"])
p("C06", "Calls, members, indexing and Новый keep their structure",
  "For every access path the tree records every link in order: member names, method calls and index brackets each attached to the link they follow, and assignment targets the same way. A call, Новый or ВызватьИсключение keeps all its arguments in order, with an omitted argument occupying its position as an empty one; Новый keeps constructor name and arguments in both forms, Выполнить keeps its operand, and a ternary its three parts.",
  ["inputs"], "all access paths, argument lists and constructors, with arbitrary nested expressions",
  "tests cover a few chains of fixed shape",
  [G, Y, S], [("through_dot / identifier / exprs / new_object productions", G)], ["CallChainStatement", "MethodStatement", "ItemStatement", "NewObjectStatement", "TernaryStatement"])
p("C07", "Literal values are exact",
  "Every literal's value is carried into the tree unchanged: a number as the nearest double of its decimal text, a string as the characters between its quotes (doubled quotes and '|' continuation lines as written, adjacent literals joined), a date as the calendar instant of its 8, 12 or 14 digits whatever separators are written (all zeros is the empty date), and Истина, Ложь, Неопределено. This holds wherever a literal may stand, including parameter defaults.",
  ["inputs"], "all literal texts in all contexts",
  "tests check a few literals; the value space is unbounded",
  [T, G], [("scanNumber/scanString/date parsing in Token.Next", T)], ["literals in AstNode.ModuleStatement"])
p("C08", "Layout, comments, regions and keyword case do not matter",
  "Two texts with the same token sequence give the same tree and the same JSON (or are both rejected) whatever the spaces, tabs, line ends (LF or CRLF), blank lines, // comments and # lines between tokens. The letter case of keywords and directives is irrelevant in every letter position, and adding or removing empty statements changes nothing.",
  ["inputs"], "all re-layouts and re-casings of every module",
  "tests use one layout and mostly one letter case per module",
  [T], [("skipSpace/skipComment/skipRegions", T), ("fastToLower keyword lookup", T)], ["(*AstNode).Parse"])
p("C09", "Identifiers are kept verbatim and never confused with keywords",
  "A name made of letters (of any script), digits and underscores, not starting with a digit, appears in the tree exactly as written, in every role: variable, routine, parameter, method, member, constructor, label, loop variable. Only an exact (case-insensitive) match is a keyword, so names that merely contain, extend or begin with one are plain names; after a dot every keyword is a plain member name, whatever stands between the dot and the name, and only there.",
  ["inputs"], "all identifier spellings in all roles, every keyword after a dot",
  "tests try a few names",
  [T, G], [("scanIdentifier, prevDot flag", T)], ["names in AstNode.ModuleStatement"])
p("C10", "Прервать, Продолжить, Возврат and ВызватьИсключение context rules",
  "Прервать and Продолжить are accepted exactly when a loop of the same routine (or module body) encloses them, at any depth and whatever came before. Возврат with a value is accepted exactly inside functions, and ВызватьИсключение without an argument is accepted inside an Исключение part and rejected where no Исключение part encloses it.",
  ["programs"], "all nestings of blocks and positions of the operators, whatever precedes them in the module",
  "tests try one or two placements each; the flags are parser state whose history matters",
  [A, G], [("setLoopFlag/setTryFlag/isFunction and check* helpers", A)], ["(*AstNode).Parse"],
  [("isLoop/isTry/isFunction", "nesting counters and current routine kind", A)])
p("C11", "Declaration rules: order and uniqueness",
  "A module is rejected when a module variable is declared twice, when a local variable is declared twice in one routine (in one declaration or several, whatever the letter case and distance), when a module variable is declared after a routine or statement, or when a routine follows a statement. Different routines may reuse the same local names, and locals may reuse the names of module variables.",
  ["programs"], "all sets, spellings and orders of declarations",
  "tests check one duplicate of each kind",
  [A, S, G], [("appendVarStatements", A), ("ModuleStatement.Append", S)], ["(*AstNode).Parse"])
p("C12", "Declarations are recorded faithfully",
  "Each routine in the tree has the kind, name, directive, Экспорт mark, parameters (in order, each with name, Знач mark and default value or none) and set of local variables it was declared with, and nothing from another routine. The module variables recorded are exactly those declared, each with its own directive and Экспорт mark, including lists in one declaration.",
  ["programs"], "all combinations of directive, kind, export, parameter lists, defaults and variable declarations",
  "tests cover a few combinations",
  [G, A, S], [("funcProc / global_variables / declarations_method_params productions", G), ("createFunctionOrProcedure, ParamStatement.Fill", A)], ["FunctionOrProcedure", "GlobalVariables"])
p("C13", "The tree of a part does not depend on its surroundings",
  "The subtree of a routine is the same whether it is parsed alone or among any other routines and variables, and likewise for a statement among other statements or inside any block. Parsing a module therefore yields the concatenation of the subtrees of its parts, and so do the parts of its JSON.",
  ["programs", "histories"], "all modules composed of arbitrary parts",
  "tests parse each sample once, in one surrounding",
  [G, Y, A], [("parser value stack reuse", Y), ("append in list productions", G)], ["AstNode.ModuleStatement"])
p("C14", "Printed code parses back to the same module",
  "For every accepted module, the text produced by Print parses without error to an equivalent tree: same declarations, statements, blocks, operators, operands, unary operators, arguments, literals and names. It follows that printing, reparsing and printing again gives the same text.",
  ["programs", "configurations"], "all accepted modules, any non-negative margin, one-line or not",
  "tests compare printed text for a few modules and never reparse it",
  [R, G], [("astPrint", R)], ["(*AstNode).Print"])
p("C15", "Print options only change white space",
  "The tokens Print writes (names, keywords, literals, operators, punctuation) are the same for every margin and for both one-line and multi-line mode. In multi-line mode each statement starts on its own line indented by margin times its nesting depth, with the keywords that open and close a block at the depth of the block statement, and in one-line mode Print itself adds no line breaks between statements.",
  ["configurations", "programs"], "all margins and modes for all modules",
  "tests use one or two configurations on a few modules",
  [R], [("newLine, Margin*depth", R)], ["(*AstNode).Print"])
p("C16", "Parsing and rendering are deterministic and side-effect free",
  "The same text always gives the same result: the same error or, for an accepted module, the same tree, the same JSON bytes and the same printed text, in every run and process and whatever was parsed before. Print, PrintStatement, JSON and read-only walks do not change the tree, so repeating or interleaving them in any order gives the same output.",
  ["histories", "inputs"], "all sequences of parse and render calls on all modules",
  "tests perform each call once per module; map iteration order and state leaks need repetition",
  [A, R, S], [("sortedNames", R), ("no package-level mutable state", A)], ["Parse", "JSON", "Print", "PrintStatement", "Walk"])
p("C17", "JSON describes the module completely",
  "For every accepted module JSON returns valid UTF-8 JSON without error, in which module variables, routines (name, kind, directive, export, parameters, locals), statements, blocks, expressions, operators, unary marks, arguments, names and literal values of the source appear with their values and in order under their field names, and nothing else appears.",
  ["programs"], "all accepted modules",
  "one exact-equality test on one module",
  [A, S], [("json.Marshal over the exported fields", A)], ["(*AstNode).JSON"])
p("C18", "Walk visits every statement once, in place",
  "Walk calls the callback exactly once for every routine and for every statement of every block of the module at any depth, statements nested in a statement before that statement, giving the enclosing routine (none for module body statements) and the statement that directly contains the block. The arguments of a call that is a statement are likewise visited once each. The statement pointer refers to the place in the tree, so replacing a statement or argument through it is visible in JSON and Print.",
  ["programs"], "all modules and all edits made through the callback",
  "tests count visits on one or two modules",
  [S], [("walkHelper", S)], ["(*ModuleStatement).Walk", "StatementWalk"])
p("C19", "Independent parses and shared reads are safe concurrently",
  "Any number of goroutines may parse different or equal texts at the same time, and any number may call Print, PrintStatement, JSON and read-only Walk on one parsed module at the same time, without a data race. Every one of them gets the result it would get alone.",
  ["schedules"], "all interleavings of parses and read-only renderings",
  "tests are sequential and not run under the race detector",
  [A, T, R, Y, F], [("all parser state is per AstNode/Token", A)], ["Parse", "JSON", "Print", "Walk", "FastToLower"])
p("C20", "Syntax errors name the offending token",
  "When a module fails because of a token that cannot continue any module (and contains no illegal characters), the error text gives the 1-based line, the 0-based column counted in characters, and the literal of the first such token; when the text just ends too early it gives the last token. This holds whatever precedes the token: multi-line strings, comments, regions, CRLF, tabs, non-ASCII text, earlier routines.",
  ["inputs"], "all single-fault corruptions of all modules in all layouts",
  "tests pin about ten messages",
  [A, T, Y], [("AstNode.Error, Token.positionAt", A)], ["error returned by Parse"])
p("C21", "Parsing work grows linearly with the text",
  "Parsing, and reading tokens one by one, takes work (source reads, executed steps, allocated memory) at most proportional to the length of the text, up to a modest constant factor, for every kind of content: long comments, region lines, blank space, strings, names, numbers, long statement and argument lists, deep nesting, long chains. Print, PrintStatement, JSON and Walk take work proportional to what they render or visit when nesting depth is bounded.",
  ["inputs"], "all content kinds at growing sizes",
  "tests do not measure growth; a benchmark prints numbers nobody checks",
  [T, A, Y], [("single pass lexer", T), ("LALR parser", Y)], ["Iast.SrsCode call count", "block execution counters", "runtime.MemStats"])
p("C22", "The token stream is exact",
  "Reading a text with Token.Next yields exactly its tokens: each keyword, name, number, string, date, label, directive and (longest-match) operator once, in order, with its kind and literal, then end of input on every further call; text that is no token gives an error. GetPosition after each call lies between the end of that token and the start of the next one, with 1-based line and column counted in characters.",
  ["inputs"], "all texts, all token sequences and separators",
  "tests tokenise a few texts",
  [T], [("Token.next", T)], ["(*Token).Next", "(*Token).GetPosition"])
p("C23", "FastToLower lowers exactly ASCII and Russian capitals, memory-safely",
  "For every string (any bytes, including empty, NUL, truncated or invalid UTF-8) FastToLower returns a string of the same length in which A-Z, А-Я and Ё are lowered and every other byte is unchanged. It reads and writes only its own buffer, leaks nothing, does not modify its argument and may be called from many goroutines.",
  ["inputs", "schedules"], "all byte strings, concurrent callers",
  "one test on a handful of strings, without a memory checker",
  [F], [("C fastToLower over a private copy", F)], ["fast_tolower.FastToLower"])
p("C24", "A printed statement parses back to the same statement",
  "For every statement of an accepted module, at any depth, PrintStatement and PrintStatementWithConf (any margin from nothing to hundreds, one-line or not) give text that, parsed inside a suitable enclosing routine, is that one statement again; the texts of the statements of a block put one after the other are the statements of that block; printing nothing gives an empty string. The text depends only on the statement and the options, not on the object the method is called on.",
  ["programs", "configurations"], "all statements of all modules",
  "one or two statements are printed in tests and never reparsed",
  [R], [("printBodyItem", R)], ["(*AstNode).PrintStatement", "(*AstNode).PrintStatementWithConf"])
p("C25", "A broken rule is named, with its place",
  "When the only faults of a module are broken context or declaration rules (Прервать or Продолжить outside a loop, ВызватьИсключение without an argument outside an Исключение part, a value returned outside a function, a variable declared twice, a module variable declared after a routine, a colon after a statement that is no label), the error says which rule of one of these faults is broken and quotes the operator or repeated variable as it is written there; its line, column and literal are those of one token between the first of the offending statement or declaration and the one right after it (for a colon: or after the statement that follows it). This holds whatever precedes or follows: nesting, layout, multi-line strings, comments, earlier routines.",
  ["programs", "inputs"], "all modules with a broken rule, in all layouts",
  "tests pin about ten messages in short texts",
  [A, S, G, T], [("check* helpers and appendVarStatements call yylex.Error", A), ("ModuleStatement.Append", S), ("currentToken and positionError", A)], ["error returned by (*AstNode).Parse"])
p("C26", "An edited tree renders as edited",
  "When a program changes a parsed module through its exported fields (names, literals, operators of one level, arguments, statements, branches, parameters, directives, Экспорт marks, local and module variables, whole routines: changed, added, removed, moved, or taken from another module's tree), Print, PrintStatement, JSON and Walk then describe exactly the edited module: the printed text parses back to it and the JSON holds it, whatever was rendered before the edit and whichever AstNode holds the tree.",
  ["histories", "programs"], "all sequences of edits and renderings of all modules",
  "one test replaces one statement; stale or derived state shows only after edits that follow renderings",
  [R, S], [("astPrint renders from the tree alone", R), ("exported statement types", S)], ["Print", "PrintStatement", "JSON", "Walk"])

p("C27", "An edit stays where it is made",
  "When a program changes a place of a parsed module through its exported fields (a list element, a field behind a pointer, a map entry, an element appended to a list, whether the grown list is stored or kept aside), nothing but that place changes: no other part of the same module, no other module parsed before or after in the process (also from the same text), no text or JSON document rendered before, and no later parse. The caller owns what Parse, Print and JSON gave it.",
  ["histories", "programs"], "all edits of all parsed modules, with any other modules alive",
  "no test edits one tree and looks at another; shared lists, maps or buffers show only then",
  [S, A, Y], [("lists and maps are made anew by the grammar's actions", Y), ("exported statement types", S)], ["(*AstNode).Parse", "exported fields of the tree", "Print", "JSON"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
