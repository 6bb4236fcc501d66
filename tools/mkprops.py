#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EX, AT, PM, LIB = "src/parser/expression/mod.rs", "src/parser/atom/mod.rs", "src/parser/mod.rs", "src/lib.rs"
PEG, RUL, P2C, GC, AST, FLAT = "src/peg/mod.rs", "src/peg/rules.rs", "src/peg/peg2code.rs", "src/peg/gcode.rs", "src/ast/mod.rs", "src/ast/flat.rs"

p("C01", "A text is accepted exactly when the rules match all of it (PEG semantics)",
  "For every rule set without left recursion and every text, parsing succeeds exactly when the `main` rule matches the whole text under PEG semantics: sequence elements match one after another, the first alternative that matches is the one taken, a repetition takes as much as it can and gives nothing back, negation looks ahead without consuming, and literals, character classes (listed characters plus inclusive ranges), any-character and end-of-input compare whole characters. Everything else is reported as an error.",
  ["programs", "inputs"], "all rule sets without left recursion x all Unicode texts",
  "The tests try about thirty fixed grammar/text pairs, nearly all ASCII and single-construct; how constructs combine (backtracking out of nested choices, lookahead inside repetition, recursion) is a space no list of examples covers.",
  [EX, AT, LIB], [("parse_expr and the per-construct functions", EX), ("character matching", AT), ("whole-input test", LIB + " parse_with_debug")], ["dynparser::parse"])

p("C02", "The tree of a successful parse is the derivation, and loses no text",
  "When parsing succeeds, the tree has the rule `main` at its root, one rule node, under its name and in order, for each rule reference that took part in the match, and below it one value node per matched literal (its full text), class or any-character match (that character) and one end-of-file node per matched end-of-input. Lookaheads, abandoned alternatives and the attempt that ends a repetition leave no trace, so the values read left to right are exactly the input text.",
  ["programs", "inputs"], "all rule sets without left recursion x all texts they accept",
  "The engine tests mostly look at positions or is_ok; no test compares a whole tree after backtracking, and none states that the leaves rebuild the input.",
  [EX, AT, LIB], [("node building", EX + " parse_rule_name, parse_and, parse_repeat"), ("atoms", AT)], ["dynparser::parse -> ast::Node"])

p("C03", "Repetitions respect their bounds and always come to an end",
  "A repetition with minimum m and optional maximum M (m <= M, M may be 0) matches its body between m and M times in a row, as often as it can, and fails when fewer than m are possible. An iteration that succeeds without consuming anything is the last one as soon as m is reached, so parsing terminates for every rule set without left recursion, including repetitions of bodies that can match nothing.",
  ["programs", "inputs"], "all bounds 0 <= m <= M <= infinity, all bodies (nullable ones included), all texts",
  "The tests use bounds 0..3 on one literal; maximum 0, bodies that can match nothing, and nested repetitions are never tried.",
  [EX], [("parse_repeat bounds", EX)], ["dynparser::parse"])

p("C04", "Parsing is by character: consistent renaming of characters changes nothing",
  "Replace every character of a rule set and of a text by another one, order-preserving and one-to-one and leaving line breaks alone, for instance ASCII letters by accented, CJK or emoji characters: the verdict, the shape of the tree, the error position (counted in characters), row and column stay the same and all reported texts are the renamed ones. Neither the number of bytes of a character nor its Unicode block may matter.",
  ["inputs", "programs"], "all rule sets and texts x all order-preserving character renamings",
  "All existing tests are pure ASCII, where byte offsets and character offsets coincide.",
  [PM, AT, LIB], [("character counting", AT + " get_char"), ("line text of errors", PM + " Error::from_status"), ("end of input test", LIB)], ["dynparser::parse", "parser::Error"])

p("C05", "Every reported error location agrees with the text",
  "For every error that parse, parse_debug or rules_from_peg report about a text, the position n is at most the number of characters of that text, row is the number of '\\n' before n, start_line is the offset just after the last of them (or 0), and col is the number of characters between the last '\\n' or '\\r' before n (or the start) and n. line_before is the text from start_line to n, and line_after the text from n to the next '\\n' or '\\r' (or the end).",
  ["inputs", "programs"], "all rule sets x all rejected texts, including multi-line and non-ASCII ones and PEG texts",
  "Two tests look at row/col of a success; no test looks at the location fields of an error.",
  [PM, AT], [("Possition updates", AT + " get_char"), ("Error::from_status", PM)], ["parser::Error.pos, line_before, line_after"])

p("C06", "A failed parse reports the failure that got furthest",
  "A sequence that fails reports the failure of its first failing element; a choice all of whose alternatives fail reports the one whose position is furthest (the later alternative on a tie); a failed negation is reported where it started and a mismatch of literal, class or end-of-input just after the character that did not fit. When `main` matched but text is left over, the report is the failure that stopped the last repetition on the successful path that a failure stopped, or, if there is none, that the input was not fully consumed, at the place where matching stopped; a literal mismatch names the literal.",
  ["programs", "inputs"], "all rule sets without left recursion x all texts they reject",
  "Tests only assert is_err; nothing checks which failure is reported.",
  [EX, AT, LIB], [("deep_err in parse_or", EX), ("set_potential_error in parse_repeat", EX), ("parse_with_debug", LIB)], ["parser::Error.pos.n, descr, priority"])

p("C07", "error(...) and undefined rules abort the parse at once",
  "When matching reaches an error constructor, outside any negation, the whole parse fails there: the error carries exactly the given message, the position reached and critical priority, and no other alternative, repetition or later element is tried. A reference to an undefined rule (including a missing `main`) does the same with a message naming the rule, while constructors and references that are never reached have no effect at all.",
  ["programs", "inputs"], "all rule sets with error constructors or undefined references anywhere x all texts",
  "One doc example has one error constructor in one position; nesting in choices, repetitions and referenced rules is not explored.",
  [EX, AT], [("ErrPriority::Critical handling", EX + " parse_or, parse_repeat"), ("parse_error", AT), ("Missing rule", EX + " parse_rule_name")], ["parser::Error.descr, priority, pos"])

p("C08", "Debug tracing changes no result and lists the rules on the path",
  "parse_debug gives the same tree, or the same error except for its rule trace, as parse. The trace of a debug error starts at main and lists, in order and with repetitions, every rule entered on the path to the reported failure, without those of abandoned attempts; without debug the trace is empty.",
  ["programs", "inputs"], "all rule sets x all texts",
  "No test calls parse_debug.",
  [LIB, PM, EX], [("Status::push_rule", PM), ("trace_rules", EX + " parse_rule_name")], ["dynparser::parse_debug", "parser::Error.parsing_rules"])

p("C09", "A rule set behaves as a map from names to definitions under add and merge",
  "After any sequence of additions and merges, a rule set holds exactly the rules given to it: add binds a name and replaces an earlier definition of it, merge keeps every rule of the receiver and adds those of the argument whose names are new. Parsing afterwards uses exactly those definitions, whatever the order of construction.",
  ["histories"], "all sequences of new / add / merge / parse operations",
  "Two doc examples add or merge one new name; replacement, conflicts and longer histories are not tried.",
  [EX, LIB], [("SetOfRules::add, merge", EX), ("rules! macro", LIB)], ["SetOfRules", "dynparser::parse"])

p("C10", "A PEG text builds the rules it denotes, whatever its layout",
  "Any grammar written in the documented PEG syntax builds rules equivalent to it: `/` binds weaker than juxtaposition, which binds weaker than `*`, `+`, `?` and `!`; parentheses group; `error(\"..\")` and references with dots in their names are kept; a later rule replaces an earlier definition of its name (the definitions in a module `m { .. }` count as if written outside, but do not replace one made before the module). Spaces, line breaks of any kind, redundant parentheses, and line or block comments at any place where blanks are allowed (including after a rule at the end of its line) do not change the result.",
  ["programs", "configurations"], "all grammars expressible in PEG syntax x all layouts",
  "The tests use about twenty fixed grammars with one layout each and check acceptance of a few texts.",
  [PEG, RUL], [("grammar of PEG", RUL), ("consume_* functions", PEG)], ["dynparser::rules_from_peg -> SetOfRules"])

p("C11", "Literals and classes in PEG text mean exactly the characters written",
  "A single-quoted literal denotes the characters between the quotes unchanged (backslashes included, possibly none); a double-quoted one denotes its characters with \\n \\r \\t \\\\ \\\" and \\0xHH (two upper-case hex digits) replaced by the character they stand for, and nothing else replaced; the message of error(...) follows the same rules. A class [...] denotes its listed characters, taken literally, and its inclusive ranges.",
  ["inputs"], "all strings and all classes, Unicode and quote/backslash/line-break characters included, in every writable form",
  "Tests contain letters and spaces only; escapes appear in one doc example.",
  [PEG, RUL], [("consume_literal_esc, consume_literal_no_esc, consume_match", PEG)], ["dynparser::rules_from_peg"])

p("C12", "Any text given as PEG is either built or cleanly refused, per the syntax",
  "For any text whatsoever, rules_from_peg returns: rules exactly when the text is a grammar of the documented PEG syntax, and otherwise an error, never a panic and never a silently partial rule set. Unbalanced parentheses are reported by the dedicated message of the PEG grammar.",
  ["inputs"], "all Unicode strings (of moderate nesting), in particular small corruptions of valid grammars",
  "Eight invalid texts are tried in total.",
  [PEG, RUL, P2C], [("grammar of PEG", RUL), ("flat AST consumption", PEG)], ["dynparser::rules_from_peg"])

p("C13", "The shipped PEG parser is the one its own grammar generates",
  "The built-in rules used to read PEG texts are equivalent to the rules obtained by reading the project's own PEG description of PEG with them: for every text both give the same tree or the same error. The description is therefore a fixed point, and pasting the printed code back changes nothing.",
  ["inputs", "programs"], "all texts fed to the shipped and to the regenerated PEG parser",
  "The doc-test only runs the printer and looks at nothing; nothing compares the two.",
  [RUL, P2C, GC], [("text_peg2code", P2C), ("parse_peg", RUL)], ["peg::rules (hook)", "peg2code::print_rules2parse_peg"],
  "cfg(dynparser_verif): access to the built-in rules and to the PEG description text")

p("C14", "Generated Rust code compiles and rebuilds the same rules",
  "For every rule set, the Rust source that gcode::rust_from_rules returns, put inside rules!(...), compiles against the crate and evaluates to an equivalent rule set with the same names, whatever characters occur in names, literals, messages and classes and whatever bounds repetitions have.",
  ["programs"], "all rule sets, with arbitrary characters and every construct",
  "The doc-tests print the code; none compiles it.",
  [GC, LIB], [("rust_from_rules and the *2code functions", GC), ("macros", LIB)], ["peg::gcode::rust_from_rules", "rules! and friends"])

p("C15", "compact joins exactly the adjacent values and nothing else",
  "compact returns the tree in which, at every level below the root, each maximal run of consecutive value nodes is one value with their concatenation; rule nodes, their names and order and end-of-file nodes stay as they are and separate runs. The text read off the leaves is unchanged, compacting again changes nothing, and the original is untouched.",
  ["inputs"], "all trees", "One doc example with one run of three values.",
  [AST], [("Node::compact", AST)], ["ast::Node::compact"])

p("C16", "prune removes exactly the named subtrees",
  "prune returns the tree without any rule node below the root whose name is listed, together with everything below it; all other nodes remain with their order, names and texts, the root always remains, values equal to a listed name are not affected, and nodes are only ever removed. Pruning two lists one after the other equals pruning their union.",
  ["inputs"], "all trees x all lists of names", "One doc example with empty leaves.",
  [AST], [("Node::prune", AST)], ["ast::Node::prune"])

p("C17", "pass_through_except splices out exactly the unlisted rules",
  "pass_through_except replaces every rule node below the root whose name is not listed by its own (likewise treated) children, in place and at any depth; listed rules, values, end-of-file nodes and the root stay, in order. The sequence of leaves never changes, and applying it again with the same list changes nothing.",
  ["inputs"], "all trees x all lists of names", "One doc example with single-child chains.",
  [AST], [("Node::pass_through_except", AST)], ["ast::Node::pass_through_except"])

p("C18", "flatten is the exact pre-order walk, from which the tree can be rebuilt",
  "flatten lists the tree in order: a begin marker with the rule name, the flattened children, and an end marker with the same name for each rule node; the value for a value node; end-of-file for an end-of-file node. Begin and end markers are properly nested, so the tree can be rebuilt from the list alone.",
  ["inputs"], "all trees", "One doc example without end-of-file nodes or empty rules.",
  [FLAT], [("Node::flatten", FLAT)], ["ast::Node::flatten"])

p("C19", "Tree access helpers return exactly what is there or an error",
  "On any node or node list, each helper of the ast module (name and children of a rule, value of a node, single value of a list, first node, split, consume a value / a given value / a rule of a given name, check for emptiness) succeeds exactly when the first node or the list has the requested form, and then returns that node's own contents and exactly the remaining nodes in order; otherwise it returns an error. None of them panics or skips a node, in any sequence of calls.",
  ["histories", "inputs"], "all node lists x all sequences of helper calls", "Each helper has one success example; refusals are tried once.",
  [AST], [("consume_*, get_*, peek, split", AST)], ["ast::* helper functions"])

p("C20", "Flat-list access helpers return exactly what is there or an error",
  "On any flattened list, each helper of the ast::flat module (consume begin/end marker of a given name, consume a value / a given value, split, peek, value and name of a node) succeeds exactly when the first node has the requested kind and, where one is given, the requested name or value, and then returns its contents and exactly the remaining nodes; otherwise it returns an error. None of them panics or skips a node, in any sequence of calls.",
  ["histories", "inputs"], "all flat node lists x all sequences of helper calls", "Each helper has one success example and no refusal.",
  [FLAT], [("consume_*, get_*, peek, split", FLAT)], ["ast::flat::* helper functions"])

p("C21", "Results depend only on the rules and the text",
  "Parsing (plain or debug), reading PEG texts and every tree operation give the same result when repeated, in any order among other calls, successful or failing, with the same or other rules, from one or several threads sharing a rule set. They leave the rule set unchanged, and rules that are never reached, or the order in which rules were added, make no difference.",
  ["histories", "schedules"], "all sequences and interleavings of calls on shared rule sets", "Each test makes one or a few calls in one order.",
  [LIB, EX, PEG], [("Status holds all parsing state", PM), ("rules are taken by shared reference", LIB)], ["parse, parse_debug, rules_from_peg"])

p("C22", "Long inputs need no deeper stack",
  "The length of the text, of a sequence, of a list of alternatives, the number of iterations of a repetition and the number of children of a node are not limited by the stack: parsing, compact, prune, pass_through_except and flatten work within an ordinary thread stack for tens of thousands of iterations, elements or children and give the correct result. The same goes for reading a PEG text: the number of its rules, modules, alternatives, elements of a sequence, escapes, ranges, name parts, blanks and comments is not limited by the stack (only nesting is); nor, for generating code, the number of rules, elements, alternatives and ranges.",
  ["inputs"], "inputs, sequences, alternatives, repetitions and child lists of growing length (to about 10^5), PEG texts of thousands of parts", "The longest test text has 16 characters.",
  [EX, AST, FLAT, PEG], [("tail_call trampolines", EX), ("fold over children", AST), ("loops over the flat nodes of a PEG text", PEG)], ["dynparser::parse", "ast::Node operations", "rules_from_peg"])

p("C23", "Equivalent ways of writing a grammar parse alike",
  "These rewritings change neither verdict nor (apart from the named rule's own node) tree: regrouping nested sequences or nested choices; writing a literal as the sequence of its parts (values joined by compact); writing a class as a choice of one-character literals or a shuffled class; `e?` as `e` or nothing, `e+` as `e e*`, n..m repetitions unrolled; duplicating an alternative later in the same choice; adding `!!e` before `e`; naming a subexpression as a rule (plus that rule's node); distributing a common prefix `a b / a c` into `a (b / c)`.",
  ["programs", "inputs"], "all rule sets without left recursion or error constructors x all listed rewritings at any place x all texts",
  "No test compares two grammars.", [EX, AT], [("parse_expr and the per-construct functions", EX)], ["dynparser::parse"])

p("C24", "Parsing never panics, whatever the rules and the text",
  "For every rule set without left recursion, however odd (no main, empty choices, empty sequences, empty literals or classes, reversed ranges, maximum below minimum, undefined references, nullable repetitions with moderate minima, extreme bounds of others), and every Unicode text, parse and parse_debug return a tree or an error, and every tree operation and formatting of the outcome works on the result.",
  ["programs", "inputs"], "all rule sets constructible through the public API without left recursion x all Unicode texts of moderate nesting",
  "Tests use sane rules and ASCII texts only.", [EX, AT, PM, LIB], [("Result-based control flow", EX), ("text slicing for errors", PM)], ["dynparser::parse, parse_debug"])

p("C25", "Errors stacked on reading a PEG text are all shown, outermost first",
  "Adding a description to any PEG error keeps the error below it, and displaying a stack of errors shows every added description once, outermost first, separated by ` > `, followed by the innermost error with its own content (description, or the details of the parser or tree error). Converting a parser or tree error into a PEG error keeps its content.",
  ["histories"], "all error stacks of any depth over all kinds of innermost error", "No test touches error display.",
  [PEG], [("Error::ipush, Display, From", PEG)], ["peg::Error"])

p("C26", "PEG text to processed tree: the whole pipeline agrees with the definition",
  "For a grammar text and an input text, the documented pipeline (read the PEG text, parse, then compact, prune, pass through, flatten in any order the types allow) gives exactly the result of applying the definitions of PEG syntax, PEG matching and the four tree operations one after the other; in particular prune, compact and pass_through_except compose on real parse trees.",
  ["programs", "inputs"], "all PEG texts x all inputs x all combinations of tree operations",
  "README examples run the pipeline once and print.", [LIB, PEG, EX, AST, FLAT], [("rules_from_peg, parse, ast::Node operations", LIB)], ["the public API end to end"])

p("C27", "The building macros build what they say",
  "Rule sets written with rules!, lit!, dot!, error!, ematch! (both forms), and!, or!, not!, eof!, rep! (with and without maximum) and ref_rule!, nested in any way, contain exactly the rules and expressions written: every argument in its place and order, bounds, characters and names unchanged.",
  ["programs"], "all nestings of the public macros",
  "Each macro has one or two fixed examples checked by is_ok of one parse.", [LIB], [("macro_rules!", LIB)], ["rules! and friends"])

p("C28", "No call does more work than its definition asks for",
  "A parse evaluates an expression at a position only when ordered choice with backtracking calls for it, and does not go through what is already matched again: its allocations and CPU time are at most a (generous) constant times the number of steps of the definition, so that nested constructs are not evaluated repeatedly, a repetition takes time linear in its iterations, a sequence in its elements, and rules that are not reached cost nothing (a failure may copy its line). In the same sense compact, prune, pass_through_except and flatten do work linear in the number of nodes whatever the nesting, bytes copied included (compact may copy what it joins, and pass_through_except may move a spliced node once per level it goes up), adding a rule costs the same however many there are, merging is linear in what it is given, and so is the number of allocations of generating code (the code may be copied once per part), and reading a PEG text is linear in its length, nested parentheses, long layout and many rules included.",
  ["inputs", "programs"], "all rule sets without left recursion x all texts; all trees; all PEG texts; sizes growing without bound", "Tests are so small that exponential or quadratic work is not noticed.",
  [EX, AST, PEG, LIB], [("parse_and, parse_or, parse_not, parse_repeat", EX), ("Node operations", AST), ("rules_from_flat_ast", PEG)], ["dynparser::parse", "ast::Node operations", "rules_from_peg", "SetOfRules::add, merge"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
