HOOKS = None
BOUNDS = "Bounded random search with a fixed seed; nothing is proved beyond the cases generated. "

prop("C01", "The syntax tree covers the text exactly",
     "Parsing any text with any language yields a tree whose leaves, read from left to right, spell exactly that text; every node's range is the concatenation of its children's ranges, every child knows its parent, and the root covers the whole text. The textual dump of the tree shows exactly these nodes.",
     ["inputs"], "every text, for every shipped language and every grammar",
     "The repository's tests compare a few hundred hand-written trees; losing, duplicating or misplacing a byte needs a particular combination of trivia, recovery and nesting.",
     ["fall/tree/src/node/imp.rs", "fall/tree/src/node/tree_builder.rs", "fall/tree/src/lib.rs", "fall/parse/src/syn_engine/convert.rs", "fall/tree/src/util.rs"],
     [("events to tree conversion", "fall/parse/src/syn_engine/convert.rs: Convertor::fill, go"), ("tree storage", "fall/tree/src/node/tree_builder.rs, imp.rs")],
     BOUNDS + "The oracle is the input text itself plus the structural invariants, read through the public tree interface.",
     "property-based testing: invariant over generated texts and random grammars")

prop("C02", "Parsing is total",
     "For every text, however malformed, parsing with a shipped language terminates and yields a tree covering the text; it never panics.",
     ["inputs"], "every text of bounded nesting depth, for every shipped language",
     "Tests feed well-formed or mildly broken samples; crashes hide behind unusual token sequences, truncations, unterminated literals and odd characters.",
     ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/lex_engine.rs", "lang/rust/syntax/src/rust.rs", "lang/fall/syntax/src/fall.rs"],
     [("start rule and leftovers", "fall/parse/src/syn_engine/expr.rs: parse"), ("custom lexer functions", "lang/rust/syntax/src/rust.fall, lang/fall/syntax/src/fall.fall: parse_raw_string, parse_block_comment")],
     BOUNDS + "Crashes and non-termination (60 s of CPU on one text of at most a few kB) are caught by running the search in a supervised child process.",
     "property-based fuzzing: structured and mutated texts, panic / crash / hang oracle")

prop("C03", "Incremental reparsing equals parsing from scratch",
     "After any sequence of edits, the tree obtained by applying each edit to the previously obtained file is identical to the tree obtained by parsing the resulting text from scratch.",
     ["histories"], "every initial text and every sequence of edits, for every language whose rules marked for reuse do not depend on what follows them",
     "The tests apply a handful of single edits; reuse of stale tokens or segments shows only for particular combinations of edit position, token boundaries and earlier edits.",
     ["fall/parse/src/lex_engine.rs", "fall/parse/src/syn_engine/mod.rs", "fall/parse/src/syn_engine/parser.rs", "fall/tree/src/lib.rs"],
     [("relexing", "fall/parse/src/lex_engine.rs: relex"), ("segment reuse", "fall/parse/src/syn_engine/mod.rs: salvage_segments; parser.rs: get_from_cache")],
     BOUNDS + "Differential oracle: fresh parse of the same text. Reuse of tokens whose extent depends on text beyond the following token is a listed finding, recognised by what happened at the first differing token.",
     "stateful property-based testing: edit histories, differential oracle against a fresh parse")

prop("C06", "The parser does what the grammar says",
     "For any well-formed grammar and any text, the tree is the one described by the documented meaning of the grammar's constructs: ordered choice, sequence with commit point, repetition, lookahead, skipping, layers, contexts, parameters, operator tables, injection, replacement, and attachment of surrounding whitespace.",
     ["programs", "inputs"], "every well-formed grammar (no left recursion, no repetition of empty matches) and every text over a fixed token alphabet",
     "Tests exercise the constructs through a few fixed grammars; wrong interplay (a rule abandoned halfway, a lookahead inside a layer inside a parameter) needs grammars nobody wrote.",
     ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/pratt.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/syn_engine/convert.rs"],
     [("expression interpreter", "fall/parse/src/syn_engine/expr.rs: parse_expr_inner"), ("operator tables", "fall/parse/src/syn_engine/pratt.rs"), ("tree building", "fall/parse/src/syn_engine/convert.rs")],
     BOUNDS + "Reference model: a purely functional interpreter of grammars written for this check, compared node by node.",
     "model-based testing: random grammars and texts against a reference interpreter")

prop("C04", "Reparsing work is local to the edit",
     "After an edit, lexing looks again only at the tokens the edit can affect (plus one on each side), parsing never takes more steps than parsing from scratch, and in an error-free file of independent items the steps do not grow with the contents of items the edit does not touch.",
     ["histories"], "every error-free file of top-level items and every single edit, repeated",
     "No test measures work; an editor becomes unusable on large files when reuse silently stops, with every tree still correct.",
     ["fall/parse/src/lex_engine.rs", "fall/parse/src/syn_engine/mod.rs", "fall/parse/src/syn_engine/parser.rs", "fall/tree/src/metrics.rs"],
     [("relexing", "fall/parse/src/lex_engine.rs: relex"), ("reuse of cached rules", "fall/parse/src/syn_engine/parser.rs: get_from_cache, mod.rs: salvage_segments")],
     BOUNDS + "Work is read from the metrics the library reports (relexed region, parsing ticks); the bound on lexing is computed with a reference lexer, the bound on parsing is three times the steps the edited items take alone plus a constant per item.",
     "stateful property-based testing: edit histories, work compared with a computed bound")

prop("C05", "Lexing is longest match, first rule wins, never gets stuck",
     "Every text is cut into tokens such that each token is the longest prefix any lexical rule matches (its custom function deciding the length if it has one), the earlier rule winning ties, and text no rule matches becomes single error characters joined into one error token; incremental relexing gives the same tokens.",
     ["inputs", "programs"], "every set of lexical rules that do not match the empty string, and every text",
     "The tests use the fixed rule sets of the shipped languages; ties, empty custom matches and errors between tokens need other rules.",
     ["fall/parse/src/lex_engine.rs", "fall/parse/src/lib.rs"],
     [("tokenizer", "fall/parse/src/lex_engine.rs: tokenize, lex, relex"), ("rules", "fall/parse/src/lib.rs: LexRule, RegexLexer")],
     BOUNDS + "Reference lexer using one anchored regular expression per rule; the regular expression engine itself is shared.",
     "model-based testing: random lexical rules and texts against a reference lexer")

prop("C07", "Operators group by the precedence and associativity of the language",
     "An expression printed from an abstract tree with the parentheses the precedence table demands is parsed back to that tree, for the operator tables of the shipped languages and for any table declared with binary, prefix, postfix and atom rules.",
     ["inputs", "programs"], "every expression tree over the operators of Rust and over random operator tables",
     "Tests contain a dozen expressions; a wrong priority shows only when two particular operators meet on a particular side.",
     ["fall/parse/src/syn_engine/pratt.rs", "lang/rust/syntax/src/rust.fall", "fall/gen/src/generate/mod.rs"],
     [("operator parser", "fall/parse/src/syn_engine/pratt.rs"), ("Rust's table", "lang/rust/syntax/src/rust.fall: expr and the #[bin], #[prefix], #[postfix] rules")],
     BOUNDS + "Round trip: tree to text to tree. Rust's right-associative assignment, chained comparisons and block-like operands cannot be expressed with the library's tables and are not generated.",
     "property-based testing: print / parse round trip of random expression trees")

prop("C08", "An error stays where it is",
     "In a file of several items, what is wrong inside one item, between two items or with an item cut short does not change how the other items are parsed, and the broken item is still recognised for what it began to be.",
     ["inputs"], "every sequence of intact, broken (with balanced delimiters) and cut-short items with skipped tokens in between, of Rust, the grammar language and JSON",
     "Recovery tests show single broken snippets; recovery that eats the next item needs a particular neighbour.",
     ["fall/parse/src/syn_engine/expr.rs", "lang/rust/syntax/src/rust.fall", "lang/fall/syntax/src/fall.fall", "lang/json/src/json.fall"],
     [("layers, commit points and skipping", "fall/parse/src/syn_engine/expr.rs: Expr::Layer, Expr::And, Expr::WithSkip"), ("recovery points of the grammars", "lang/rust/syntax/src/rust.fall: file, block, with_skip uses")],
     BOUNDS + "Oracle: the intact item parsed alone. An item whose parameter list or argument list is never closed takes the following tokens with it by design and is not generated.",
     "property-based testing: metamorphic relation between a file with errors and its items alone")

prop("C09", "Whitespace and comments do not change the tree",
     "Replacing, adding or removing blanks and comments between tokens leaves the tree of all other nodes as it was, and whitespace and comments never begin or end an inner node, except that a Rust struct owns the line comments directly above it.",
     ["inputs"], "every text of the shipped languages and every replacement of its trivia that leaves the other tokens alone",
     "Tests format samples in one way each.",
     ["fall/parse/src/syn_engine/convert.rs", "fall/parse/src/syn_engine/mod.rs", "lang/rust/syntax/src/rust.fall"],
     [("attachment of trivia", "fall/parse/src/syn_engine/convert.rs: whitespace binder"), ("Rust's rule for comments", "lang/rust/syntax/src/rust.fall: verbatim, whitespace_binder")],
     BOUNDS + "Metamorphic: the two trees without trivia are equal.",
     "property-based testing: metamorphic relation over generated texts")

prop("C10", "Tree navigation tells the truth",
     "Leaf at offset, covering node, ancestors, siblings, subtree walks, search by type and visitors return exactly the nodes a naive reading of the tree gives.",
     ["inputs"], "every tree of the shipped languages, every node, offset and range in it",
     "The tests look at a few offsets in one tree; off-by-one errors at token borders, empty nodes and the ends of the file stay unseen.",
     ["fall/tree/src/search.rs", "fall/tree/src/visitor.rs", "fall/tree/src/node/imp.rs", "fall/tree/src/node/tree_builder.rs", "fall/tree/src/util.rs"],
     [("searches", "fall/tree/src/search.rs"), ("visitors", "fall/tree/src/visitor.rs")],
     BOUNDS + "Reference: the tree flattened once, all answers computed by scanning.",
     "model-based testing: naive reference over generated trees")

prop("C12", "A tree edit changes exactly what it says",
     "Deleting, replacing and inserting after nodes, and replacing a piece of text, yields the text of the tree printed with these changes and nothing else, whatever their order and combination, and the resulting edit can be applied to the file.",
     ["programs"], "every tree and every combination of operations on nodes that do not contain one another",
     "Tests and editor actions use one or two operations in a row.",
     ["fall/tree/src/edit.rs", "fall/text/src/text_edit.rs"],
     [("tree edits", "fall/tree/src/edit.rs: FileEdit")],
     BOUNDS + "Reference: printing the tree with the operations looked up per node.",
     "model-based testing: operation sequences against a naive printer")

prop("C13", "Text edits do what their operations say",
     "An edit built from insertions, deletions and replacements given from left to right yields the text obtained by applying them one after another; operations out of order are refused, and the pieces kept are in order and disjoint.",
     ["programs"], "every text and every sequence of operations on character boundaries",
     "The tests apply three fixed edits.",
     ["fall/text/src/text_edit.rs"],
     [("builder", "fall/text/src/text_edit.rs: TextEditBuilder"), ("application", "fall/text/src/text_edit.rs: TextEdit::apply")],
     BOUNDS + "Reference: operations on a String.",
     "model-based testing: operation sequences against String")

prop("C14", "A text view behaves like the string it shows",
     "Every operation of a view into a text buffer (slicing, searching, trimming, comparing, hashing, iterating, printing, serialising) gives what the same operation gives on the string shown, and a view never reveals text outside of it.",
     ["inputs"], "every text, view, view of a view and needle",
     "A handful of unit tests; the offsets into the shared buffer go wrong only for views that do not start at zero.",
     ["fall/text/src/text.rs", "fall/text/src/text_buf.rs", "fall/text/src/text_slice.rs"],
     [("views", "fall/text/src/text.rs"), ("buffers", "fall/text/src/text_buf.rs")],
     BOUNDS + "Reference: &str.",
     "property-based testing: differential against &str")

prop("C15", "Text ranges obey interval arithmetic",
     "Containment, overlap, order, shifting, gluing, length and serialisation of ranges and offsets agree with sets of byte positions; ranges ending before they start and glueing ranges that do not touch are refused.",
     ["inputs"], "every pair of ranges and offset below 2 GiB; overlap and order for non-empty ranges",
     "A few fixed ranges are tested, if at all.",
     ["fall/text/src/text_range.rs", "fall/text/src/text_unit.rs"],
     [("ranges", "fall/text/src/text_range.rs"), ("offsets", "fall/text/src/text_unit.rs")],
     BOUNDS + "Reference: plain integers. Overlap and order of empty ranges are not claimed (the library's own answers for them are not consistent).",
     "property-based testing: algebraic laws against integers")

prop("C33", "Shipped languages are parsed as their grammars say",
     "Parsing a text with one of the shipped languages yields the tree that its published grammar describes: the generated parser, its serialised rules and its lexer are the grammar's.",
     ["inputs"], "every text, for Rust, the grammar language, JSON, BNF and the three test languages",
     "The generated files are checked in next to the grammars and can differ from them, or from what the engine does, in rules no sample reaches.",
     ["lang/rust/syntax/src/rust.rs", "lang/fall/syntax/src/fall.rs", "lang/json/src/json.rs", "lang/bnf/src/bnf.rs", "fall/parse/src/syn_engine/expr.rs"],
     [("generated parsers", "lang/*/src/*.rs: parser_json, lexer, node types")],
     BOUNDS + "Reference model: an interpreter and a lexer written for this check, on a snapshot of the grammars.",
     "model-based testing: generated texts against a reference interpreter of the grammar")

ANA = ["lang/fall/src/analysis/mod.rs", "lang/fall/src/analysis/db.rs", "lang/fall/src/analysis/query/mod.rs"]
GRAMMAR = "every grammar file without syntax errors"
prop("C19", "Names and calls in a grammar resolve by the language's scoping rules",
     "Every reference in a grammar file resolves to the parameter of its own rule, else the rule, else the token of that name (the first one declared, except that a token shadows nothing); every call is classified as the built-in or rule it names with its arguments bound to parameters in order; operator rules and generated accessors are classified as documented.",
     ["programs"], GRAMMAR,
     "The tests resolve a few names in hand-written grammars; shadowing, duplicates and malformed calls combine in ways nobody wrote down.",
     ANA + ["lang/fall/src/analysis/query/resolve_call.rs", "lang/fall/src/analysis/query/resolve_ref_expr.rs", "lang/fall/src/analysis/query/resolve_pratt_variant.rs", "lang/fall/src/analysis/query/resolve_method.rs"],
     [("reference resolution", "lang/fall/src/analysis/query/resolve_ref_expr.rs"), ("call resolution", "lang/fall/src/analysis/query/resolve_call.rs"), ("navigation", "lang/fall/src/editor/references/refdec.rs")],
     BOUNDS + "Reference: the grammar's abstract form, which is generated first and printed with random spacing.",
     "model-based testing: printed random grammars, resolution compared with the generating model")

prop("C20", "Diagnostics of a grammar are exactly its mistakes",
     "The diagnostics of a grammar file are exactly the mistakes in it (unresolved names, duplicate, unused or malformed definitions, wrong calls, contexts used once), each reported once, at the offending text, errors before warnings in file order.",
     ["programs"], GRAMMAR,
     "Tests contain one sample per diagnostic; missed, duplicated or misplaced reports need several mistakes that interact.",
     ["lang/fall/src/analysis/mod.rs", "lang/fall/src/analysis/diagnostics.rs", "lang/fall/src/analysis/query/unused_rules.rs", "lang/fall/src/analysis/query/all_context_ids.rs", "lang/fall/src/analysis/query/all_lex_rules.rs"],
     [("collection", "lang/fall/src/analysis/mod.rs: collect_diagnostics"), ("single queries", "lang/fall/src/analysis/query/*.rs")],
     BOUNDS + "Reference: mistakes computed from the abstract form the file was printed from.",
     "model-based testing: printed random grammars, diagnostics compared with the generating model")

prop("C21", "Find usages and go to definition are inverse to each other",
     "The usages found from a definition or from any reference to it are exactly the references that resolve to that definition, whichever character of the name the question is asked at; each of them leads back to the definition.",
     ["programs"], GRAMMAR + " and every offset in it",
     "Tests ask at one offset of one name.",
     ["lang/fall/src/editor/references/mod.rs", "lang/fall/src/editor/references/refdec.rs"],
     [("references and declarations", "lang/fall/src/editor/references/mod.rs"), ("search", "lang/fall/src/editor/references/refdec.rs: find_usages, resolve_reference")],
     BOUNDS + "Reference: the declarations and references recorded while the file was printed, and agreement of the two services.",
     "metamorphic and model-based testing: every offset of printed random grammars")

prop("C22", "Analysis answers do not depend on the order of questions",
     "What the analysis of a grammar file answers, and which diagnostics it collects, does not depend on which questions were asked before, how often, or from which call of analyse; an edited file is analysed like a fresh one.",
     ["histories"], GRAMMAR + " and every sequence of queries",
     "Each test asks one question of a fresh analysis; a cache that answers for the wrong key or swallows a diagnostic needs a sequence.",
     ["lang/fall/src/analysis/db.rs", "lang/fall/src/analysis/mod.rs", "lang/fall/src/lib.rs"],
     [("query cache", "lang/fall/src/analysis/db.rs"), ("cached file analysis", "lang/fall/src/lib.rs, lang/fall/src/editor/mod.rs")],
     BOUNDS + "Differential oracle: the same question asked first of a fresh analysis.",
     "stateful property-based testing: random query sequences, differential oracle")

prop("C23", "Editor services are total and stay inside the text",
     "For every file, well-formed or not, every editor service (highlighting, structure, diagnostics, formatting, selection, actions, navigation, completion, breadcrumbs) returns at every offset without panicking; all ranges and edits it returns lie within the text on character boundaries, and an action applies exactly where it is offered. After an edit the services answer as on a fresh file.",
     ["inputs", "histories"], "every text, offset, range and edit, for Rust and grammar files",
     "Tests call services on complete, well-formed samples; editors call them on half-typed files at every cursor position.",
     ["fall/editor/src/lib.rs", "lang/fall/src/editor/mod.rs", "lang/rust/src/editor/mod.rs", "lang/fall/src/analysis/mod.rs"],
     [("service interface", "fall/editor/src/lib.rs: EditorFileImpl"), ("grammar files", "lang/fall/src/editor"), ("Rust files", "lang/rust/src/editor")],
     BOUNDS + "Oracle: no panic, ranges within the text, agreement of offered and applicable actions, agreement with a freshly parsed file.",
     "property-based fuzzing: structured and mutated files, panic oracle and invariants")

prop("C24", "Extend selection grows to the smallest enclosing node",
     "Extending a non-empty selection yields the smallest node that strictly contains it, so that repeating it reaches the whole file; an empty selection becomes the word it touches, else the whitespace, or, in the indentation of a line, what the line holds.",
     ["inputs"], "every file and every selection on character boundaries",
     "A few selections in one file are tested.",
     ["fall/editor/src/extend_selection.rs", "fall/tree/src/search.rs"],
     [("selection", "fall/editor/src/extend_selection.rs"), ("covering node", "fall/tree/src/search.rs: find_covering_node, find_leaf_at_offset")],
     BOUNDS + "Reference: a search over all nodes of the tree.",
     "property-based testing: naive search over the tree as reference")

prop("C25", "Reformatting changes spaces only and settles at once",
     "Reformatting a grammar file changes nothing but spaces and tabs within lines: tokens, comments and line structure stay, bars get exactly one space on either side and angle brackets none inside; reformatting the result changes nothing. Files without formatting rules are left alone.",
     ["inputs"], "every grammar file, well-formed or not, and every Rust file",
     "Three samples are tested; adjacent tokens, empty alternatives and comments in odd places are not.",
     ["lang/fall/src/editor/formatter.rs", "fall/tree/src/edit.rs"],
     [("rules", "lang/fall/src/editor/formatter.rs: Spacer::apply"), ("edits", "fall/tree/src/edit.rs")],
     BOUNDS + "Oracle: token and line invariants, spacing rules restated over the tree, idempotence.",
     "property-based testing: invariants and idempotence over generated grammar files")

prop("C26", "Refactorings of grammars do what they say, wherever they are offered",
     "Swap exchanges exactly the two neighbours of a comma and Swap alternatives the two neighbours of a bar (twice gives the original); Extract rule replaces the selected expressions by a reference to a new rule holding exactly them, and the grammar stays parsable. Each is offered exactly where it applies.",
     ["programs"], GRAMMAR + " and every offset and selection in it",
     "Each action has one or two samples.",
     ["fall/editor/src/actions.rs", "lang/fall/src/editor/actions/extract_rule.rs", "lang/fall/src/editor/actions/swap_alternatives.rs"],
     [("extract rule", "lang/fall/src/editor/actions/extract_rule.rs"), ("swap alternatives", "lang/fall/src/editor/actions/swap_alternatives.rs")],
     BOUNDS + "Reference: string surgery on the printed model and naive searches of the tree.",
     "model-based testing: printed random grammars, actions compared with string surgery")

prop("C27", "Refactorings and typing aids for Rust do what they say",
     "Add braces wraps exactly the last segment of an import (with its alias), Add impl appends an empty implementation with the type's parameters after the struct or enum, Swap exchanges the neighbours of a comma, the print postfix expands to a debug print of the whole expression before it, and a semicolon is added after `let ` exactly for a statement that has none.",
     ["programs"], "every error-free Rust file of the generated shapes and every offset in it",
     "Each action has one or two samples.",
     ["lang/rust/src/editor/actions.rs", "lang/rust/src/editor/mod.rs", "fall/editor/src/actions.rs"],
     [("actions", "lang/rust/src/editor/actions.rs"), ("expansion and completion", "lang/rust/src/editor/mod.rs")],
     BOUNDS + "Reference: string surgery on a model recorded while the file is printed.",
     "model-based testing: printed random Rust files, actions compared with string surgery")

prop("C28", "Structure, breadcrumbs and test lookup list what is in the file",
     "The structure of a file lists exactly its named items in file order with their ranges; breadcrumbs name exactly the items around the cursor, outermost first; looking up the test at an offset finds the test whose text is there, numbered in file order with its contents.",
     ["programs"], "every error-free grammar or Rust file of the generated shapes and every offset in it",
     "One sample file each is tested.",
     ["lang/fall/src/editor/structure.rs", "lang/rust/src/editor/file_symbols.rs", "lang/rust/src/editor/mod.rs"],
     [("structure", "lang/fall/src/editor/structure.rs, lang/rust/src/editor"), ("tests", "lang/fall/src/editor/mod.rs: test_at_offset")],
     BOUNDS + "Reference: the items recorded while the file is printed.",
     "model-based testing: printed random files, listings compared with the generating model")

prop("C29", "Highlighting marks every token according to what it means",
     "The highlighting of a grammar file marks exactly the keywords, literals, names (rules, tokens, parameters, accessors by what they resolve to), built-in calls and comments it contains, each once with its own tag; every syntax error of any file is marked at its place.",
     ["programs", "inputs"], GRAMMAR + ", and every text for errors",
     "One sample file is tested.",
     ["lang/fall/src/editor/highlighting.rs", "fall/editor/src/hl.rs", "lang/rust/src/editor/mod.rs"],
     [("grammar files", "lang/fall/src/editor/highlighting.rs"), ("common part", "fall/editor/src/hl.rs")],
     BOUNDS + "Reference: the tags derived from the abstract form the file was printed from.",
     "model-based testing: printed random grammars, highlights compared with the generating model")

prop("C30", "Symbol search finds exactly the matching symbols",
     "A query lists the symbols whose name contains the query's letters in order, ignoring case: types only, unless `#` is in the query or no type matches; results are cut short only past the limit, and each leads to the symbol's file, offset, line and column. Line/column and offset convert into each other on every text.",
     ["inputs"], "every set of files and every query",
     "A couple of queries on one sample are tested; case folding, letters beyond ASCII, equal names and long result lists are not.",
     ["lang/rust/src/editor/symbol_index.rs", "lang/rust/src/editor/line_index.rs", "lang/rust/src/editor/fst_subseq.rs", "lang/rust/src/editor/file_symbols.rs"],
     [("query", "lang/rust/src/editor/symbol_index.rs: Query, FileSymbols"), ("automaton", "lang/rust/src/editor/fst_subseq.rs"), ("positions", "lang/rust/src/editor/line_index.rs")],
     BOUNDS + "Reference: a filter over the symbols recorded while the files are printed.",
     "model-based testing: printed random files, naive search as reference")

prop("C31", "The file index follows the file system",
     "Whatever happens to the files of a project, while the index starts or later, the index soon holds exactly the files that are there and that the filter accepts, each with the value computed from its present contents, and reports nothing else.",
     ["histories", "schedules"], "every history of creating, writing, replacing, renaming and removing files and directories",
     "One test creates, changes and removes one file each.",
     ["indxr/src/lib.rs"],
     [("index", "indxr/src/lib.rs: FileIndex"), ("watching", "indxr/src/lib.rs")],
     BOUNDS + "Changes within a history are at least 60 ms apart once the index runs, since the notification library falls behind in bursts. Reference: a walk over the directory.",
     "stateful property-based testing: random file system histories against a directory walk")

prop("C32", "Concurrent use gives the answers of use alone",
     "Files, analyses and symbol indexes used from several threads at once give every thread the answers that it gets alone.",
     ["schedules", "inputs"], "every mix of queries on shared files",
     "No test shares a file between threads.",
     ["lang/fall/src/analysis/db.rs", "fall/tree/src/metrics.rs", "lang/rust/src/editor/symbol_index.rs"],
     [("query database", "lang/fall/src/analysis/db.rs"), ("metrics", "fall/tree/src/metrics.rs")],
     BOUNDS + "Schedules are those the operating system happens to choose. Reference: the same queries answered one after another.",
     "property-based testing: random query mixes on threads, differential oracle against sequential use")

prop("C16", "A generated parser does what its grammar file says",
     "The Rust code generated from a grammar compiles, and the parser in it gives every text, typed in or edited, the tree that the grammar file describes: its tokens (literal, by pattern, by function, skipped, contextual), rules in any order, parameters, operators with their priorities, shared node types, attributes, contexts and whitespace binding.",
     ["programs", "inputs"], "every well-formed grammar file over a fixed token alphabet and every text",
     "Tests generate parsers for a handful of hand-written grammars; the translation of rarely combined constructs is never executed.",
     ["fall/gen/src/generate/codegen.rs", "fall/gen/src/generate/mod.rs", "lang/fall/src/analysis/query/resolve_call.rs", "lang/fall/syntax/src/ast_ext.rs", "fall/parse/src/lib.rs"],
     [("translation", "fall/gen/src/generate/codegen.rs: gen_rule, gen_expr, gen_pratt"), ("template", "fall/gen/src/generate/mod.rs: TEMPLATE")],
     BOUNDS + "Each run translates and compiles 250 (quick) or 1500 (thorough) random grammars. Reference: the interpreter of C06 applied to the abstract grammar the file was printed from.",
     "model-based testing: random grammars printed, translated, compiled and run against a reference interpreter")

prop("C17", "Generated accessors return the children they name",
     "The typed interface generated from an `ast` section wraps exactly the nodes of the declared types, a class holds exactly its variants, and every accessor returns the first (or every) child of its type or class, or its text, in file order; only an accessor declared as always there panics when the child is missing.",
     ["programs", "inputs"], "every `ast` section over a random grammar and every text, erroneous ones included",
     "Accessors are used by the shipped languages only, on complete trees.",
     ["fall/gen/src/generate/codegen.rs", "fall/gen/src/generate/mod.rs", "lang/fall/src/analysis/query/resolve_method.rs", "fall/tree/src/ast.rs", "fall/tree/src/search.rs"],
     [("accessors", "fall/gen/src/generate/codegen.rs: gen_method"), ("template", "fall/gen/src/generate/mod.rs: ast_nodes, ast_classes, ast_traits")],
     BOUNDS + "Reference: a search among the children in the tree that the reference interpreter computes.",
     "model-based testing: random typed interfaces generated, compiled and compared with a naive search")

prop("C18", "Generating a parser is total and depends on the grammar's tokens only",
     "For every grammar file the generator answers with a parser or a reason, never a panic; asked again, or after other analyses, it answers the same; and for a well-formed file the parser does not depend on layout and comments.",
     ["programs"], "every grammar file, well-formed, with meaningless references, or broken",
     "Tests only feed grammars that are meant to work.",
     ["fall/gen/src/generate/codegen.rs", "lang/fall/src/analysis/mod.rs", "lang/fall/syntax/src/ast_ext.rs"],
     [("generator", "fall/gen/src/generate/codegen.rs"), ("analysis", "lang/fall/src/analysis")],
     BOUNDS + "Oracle: no panic, equality of repeated runs, equality after inserting trivia between tokens.",
     "property-based fuzzing: generated and mutated grammar files, panic oracle and metamorphic relations")

prop("C34", "The generator writes what it generates, and shows examples as parsed",
     "Running the generator on a grammar file writes exactly the generated parser next to it, or reports why there is none and writes nothing. Rendering the examples of a grammar shows, for each in order (or for the one asked for), the tree that the grammar gives its trimmed text, or the reason why the grammar cannot be translated, whatever was rendered before.",
     ["programs", "histories"], "every grammar file, every list of examples in it, every sequence of renderings in one directory",
     "No test renders anything: each rendering builds a parser, and a stale one shows only after another grammar was rendered.",
     ["fall/gen/src/lib.rs", "fall/tree/src/util.rs", "lang/fall/syntax/src/ast_ext.rs"],
     [("renderer", "fall/gen/src/lib.rs: process, TestRenderer"), ("dump", "fall/tree/src/util.rs: dump"), ("contents of examples", "lang/fall/syntax/src/ast_ext.rs: TestDef::contents")],
     BOUNDS + "Oracle: the reference interpreter's tree, printed as `dump_file` documents. Each rendering runs cargo (about a second), so only one case in a hundred renders; examples containing the renderer's separator line are not generated.",
     "property-based testing: generated grammars with examples, reference-model oracle, sequences of renderings")

prop("C11", "The typed syntax trees of the shipped languages say what the tree says",
     "Every accessor of the typed interfaces of grammar files and Rust files returns exactly the child (or children, or text) that its declaration names, wraps only nodes of its type, and the derived facts about grammar files (token texts and patterns, attributes, visibility, names, contents, contexts) are those written in the text.",
     ["inputs"], "every grammar or Rust file, complete or broken",
     "Accessors are exercised on complete files only, and indirectly.",
     ["lang/fall/syntax/src/fall.rs", "lang/fall/syntax/src/ast_ext.rs", "lang/rust/syntax/src/rust.rs", "fall/tree/src/ast.rs", "fall/tree/src/search.rs"],
     [("grammar files", "lang/fall/syntax/src/fall.rs, ast_ext.rs"), ("Rust files", "lang/rust/syntax/src/rust.rs")],
     BOUNDS + "Reference: a search among the children, and string surgery on the source of each definition.",
     "property-based testing: naive search of the tree as reference")

prop("C35", "The editor backends pass edits and answers on as they are",
     "A file of an editor backend, parsed and edited through the functions exported to JavaScript, is the file of the edited text, and files from before an edit stay as they were. Every exported question answers what the library answers, with null for none, and an answer that is an edit arrives as replacements that an editor can apply to the old text and that do what the edit does.",
     ["inputs", "histories"], "every grammar or Rust file, every history of edits and questions",
     "The backends are outside of the workspace and have no tests at all; edits that delete the end of a file or touch each other are lost in translation first.",
     ["code/generic_backend/src/lib.rs", "code/rust/native/src/lib.rs", "code/fall/native/src/lib.rs", "fall/editor/src/lib.rs", "fall/tree/src/edit.rs", "fall/text/src/text_edit.rs"],
     [("translation of edits", "code/generic_backend/src/lib.rs: from_vs_edits, to_vs_edits"), ("end of an edit", "fall/tree/src/edit.rs: into_text_edit"), ("exports", "code/*/native/src/lib.rs: register_module")],
     BOUNDS + "neon and neon-serde are replaced by stand-ins (backend/neon): values cross as JSON. Rendering of examples is left to C34.",
     "model-based testing: random sessions through the exported functions, differential oracle against the library and a model of applying edits")

prop("C36", "The editor plugins show what the library says about the text shown",
     "After every event (documents opened, changed, shown, closed, in any order), highlighting, diagnostics and the syntax tree shown are those of the active document's text. Symbols, definitions, usages, breadcrumbs, actions, rendered tests, formatting, selections and typing aids are those the library gives for it, at the positions it gives them, whatever characters the text contains; no event or command makes the plugin throw.",
     ["histories", "inputs"], "every history of documents and commands in an editor",
     "The plugins have no tests; whether they keep up with a document shows after several events, and positions differ from bytes only outside of ASCII.",
     ["code/common.ts", "code/rust/src/main.ts", "code/fall/src/main.ts", "code/generic_backend/src/lib.rs", "lang/rust/src/editor/line_index.rs"],
     [("documents and changes", "code/common.ts: documentToFile"), ("positions", "code/common.ts: toOffset, toVsRange"), ("providers", "code/*/src/main.ts")],
     BOUNDS + "The editor is a model of the interface the plugins use (backend/host.js), run in node; the plugins are bundled without type checking.",
     "stateful property-based testing: random editor sessions, differential oracle against the library")

prop("C37", "The helpers for tests accept exactly what they are asked to check",
     "A check of a tree, of the examples in a grammar (all of them, in order), of a directory of sources or of an editor action passes if what is expected is what the library gives, up to blanks around it, and fails otherwise; when asked to rewrite expectations, it writes exactly the right ones. Carets in a text give the text without them and their offsets.",
     ["inputs"], "every language, text, grammar with examples, expectation and file system state",
     "The helpers are what the tests are made of: one that accepts too much keeps every test green.",
     ["fall/tree/src/test_util.rs", "fall/editor/src/actions.rs", "fall/tree/src/util.rs"],
     [("trees and examples", "fall/tree/src/test_util.rs"), ("actions", "fall/editor/src/actions.rs: check_context_action, check_no_context_action")],
     BOUNDS + "Oracle: expectations made by printing the right ones and changing them or not; the word `test` followed by a raw string inside comments and token texts is not generated.",
     "property-based testing: right and damaged expectations with known verdicts")
