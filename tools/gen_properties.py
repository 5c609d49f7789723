#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

G = ["programs", "inputs"]
prop("C01", "What a symbol can begin with is complete, whatever can be empty",
 "For every grammar, the generator knows for each non-terminal exactly which tokens can begin text derived from it and whether it can derive nothing, including tokens that become visible only because the symbols before them can be empty, and regardless of the order in which non-terminals and productions are written or how they recurse. No valid sentence is rejected because such a token or such an emptiness was missed, and no token is admitted that cannot begin the non-terminal.",
 G, "all grammars (nullable, mutually recursive, any declaration order)",
 "Tests sample about fifteen grammars; none has a non-terminal that begins with a nullable symbol which itself can begin with a token, nor a chain of nullables declared before their definitions.",
 ["src/first.rs"], [("FIRST/nullable least fixpoint", "src/first.rs generate_first_table")],
 [("FirstTable", "per non-terminal: set of first terminals and a can-be-empty flag", "src/first.rs")],
 ["generated Entry::parse accepting/rejecting sentences"])
prop("C02", "Parser states contain every predicted production with its exact lookahead",
 "For every grammar, whenever a parser state can be about to read a non-terminal, that state also predicts each production of that non-terminal, paired with exactly the tokens (or end of input) that can follow it in that context: what the rest of the production can begin with and, only when all of that rest can be empty, the context's own lookahead. Predictions are themselves expanded until nothing new appears.",
 G, "all grammars and all reachable parser states",
 "One unit test compares six states of one grammar without empty productions; integration grammars exercise few nullable suffixes.",
 ["src/lr1.rs"], [("LR(1) closure work list", "src/lr1.rs compute_lr1_closure")],
 [("LR1Item", "production, dot position, lookahead", "src/lr1.rs")], ["generated parse tables"])
prop("C03", "States are complete and merged only when truly identical",
 "For every grammar, each parser state has a transition on every symbol that some item in it expects, leading to the state made of all those items advanced by one symbol; two states are shared only if they agree on every item including lookaheads (canonical LR(1), never LALR-style merging). Grammars that are LR(1) but not LALR(1) or SLR(1) are therefore accepted and parsed correctly.",
 G, "all grammars; all pairs of states of the automaton",
 "lookahead_example_2 is a single LR(1)-not-LALR(1) grammar; automaton construction is order and sharing sensitive and one assertion in it is commented out as not understood.",
 ["src/lr1.rs", "src/grammar.rs"], [("goto computation and item-set interning", "src/lr1.rs compute_lr1_goto, generate_lr1_automaton"), ("derived equality of LR(1) items", "src/lr1.rs LR1Item")],
 [("state_indices", "item set -> state number", "src/lr1.rs")], ["generated parse tables"])
prop("C04", "Each state shifts, reduces and accepts exactly when its items say so",
 "For every grammar and every parser state, the parser shifts a token exactly when some item expects that token next, reduces by a production exactly when the item is complete and the next token is that item's lookahead, and accepts exactly when the entry production is complete at end of input. Entry productions are never reduced as ordinary ones, so input after a complete sentence is never silently ignored.",
 G, "all grammars, all states, all lookahead tokens including end of input",
 "Tests simulate about twenty short accepted sentences and no rejected one.",
 ["src/lr1.rs"], [("rules 2.a/2.b/2.c of table construction", "src/lr1.rs build_lr1_table")],
 [], ["generated parse tables", "Entry::parse result on accepted and rejected inputs"])
prop("C05", "Conflicting grammars never lose an action silently",
 "When a grammar makes two different actions possible for one state and one lookahead, code generation fails: reduce/reduce, accept/reduce and shift/shift conflicts are always rejected, whichever action was recorded first. The only tolerated resolution is keeping the shift of a shift/reduce conflict; a shift is never discarded in favour of a reduction.",
 ["programs"], "all ambiguous or non-LR(1) grammars, all orders in which the conflicting actions are recorded",
 "No test contains a conflicting grammar (a macro panic would break the test crate's build).",
 ["src/lr_common.rs"], [("recording an action checks the one it replaces", "src/lr_common.rs LRTableBuilder::add_shift/add_reduce/add_accept")],
 [("LRTable.action", "state x lookahead -> action", "src/lr_common.rs")], ["compile error of the crate invoking parser!"])
prop("C06", "The emitted tables are the computed tables, cell for cell",
 "For every grammar, the arrays in the generated parser hold exactly the computed action and goto entries: row = state, column = declaration index of the token with end of input last, goto column = non-terminal index; a missing entry stays missing. Each reduce entry carries the length of its own production, its own non-terminal and its own semantic action.",
 ["programs"], "all grammars, all table cells",
 "Tests only observe a few short parses; a misplaced cell that no sampled sentence visits goes unseen.",
 ["src/lr_codegen.rs", "src/codegen.rs", "src/lr_common.rs"], [("table linearisation and array printing", "src/lr_codegen.rs action_table_vec, generate_goto_vec, generate_action_array, generate_goto_array")],
 [], ["static ACTION / GOTO in the expansion"])
prop("C07", "The generated parser keeps its state and value stacks in step",
 "In every generated parser and for every token stream, each shift adds one state and one value; each reduction runs its production's action exactly once, which removes one value per right-hand-side symbol and adds one, and removes one state per right-hand-side symbol and adds one chosen from the uncovered state. Acceptance runs the entry action and returns the one value it leaves, so stack underflow or extraction of the wrong value cannot occur.",
 ["programs", "inputs"], "all grammars and all token streams",
 "Tests run a few dozen short inputs; a stack imbalance on a rarely taken path (empty productions, unnamed symbols, deep nesting) is not reached.",
 ["src/lr_codegen.rs", "src/codegen.rs"], [("LR driver loop in the generated code", "src/lr_codegen.rs generate_lr1_parser (parse_generic)"), ("semantic action functions", "src/codegen.rs generate_semantic_action_table")],
 [], ["Entry::parse"])
prop("C08", "Input is read once, in order, one token ahead; lexer errors pass through",
 "For every input iterator, a generated parser pulls items strictly in order, at most one item beyond what it has shifted, uses every pulled token exactly once, and pulls nothing more after it has returned a result or seen end of input as the lookahead. A lexer error that becomes the lookahead ends the parse at once and is returned unchanged as the lexer-error variant; success is reported only at end of input.",
 ["inputs", "histories"], "all token streams, including ones containing lexer errors at any position and non-fused iterators",
 "No test feeds a lexer error or observes how far the iterator was advanced.",
 ["src/lr_codegen.rs"], [("token handling in the driver loop", "src/lr_codegen.rs generate_lr1_parser (parse_generic)")],
 [], ["calls to Iterator::next", "ParseError::LexerError"])
prop("C09", "Syntax errors name the offending token and the tokens acceptable there",
 "For every grammar and input, a syntax error is reported exactly when the current state has no action for the current token, without consuming further input; it names that token by its declared text (or end-of-input) and lists, in declaration order and with nothing missing or extra, the declared tokens for which that very state has an action.",
 ["programs", "inputs"], "all grammars, states and offending tokens",
 "No test checks a parse error.",
 ["src/codegen.rs", "src/lr_codegen.rs"], [("expected-token strings per state", "src/codegen.rs generate_expected_state_tokens"), ("token names", "src/codegen.rs generate_token_to_text"), ("error return of the driver loop", "src/lr_codegen.rs generate_lr1_parser")],
 [], ["ParseError::ParserError"])
prop("C10", "Semantic actions see the values of the symbols they name",
 "For every production, the user's action runs with each named symbol bound, with the declared mutability, to the value produced by exactly that right-hand-side symbol, unnamed symbols being skipped without shifting the others; the action's result becomes the value of that production's non-terminal. Actions are attached to the production they were written for, whatever the number and order of productions.",
 ["programs", "inputs"], "all productions: any mix of named, unnamed, mutable and empty right-hand sides",
 "Tests contain a handful of productions with at most three bound symbols.",
 ["src/codegen.rs", "src/lower.rs"], [("value popping and binding code", "src/codegen.rs generate_semantic_action_table"), ("lowering of productions", "src/lower.rs lower, add_symbol")],
 [], ["values returned by Entry::parse"])
prop("C11", "Tokens are classified by the first matching declaration, payload intact",
 "For every token declaration list, an input token counts as the first declared terminal whose pattern matches it, and its value is made of the payload parts marked in that same pattern, all of them and in the written order. The terminal used for parsing decisions and the one used for the token's value are always the same, and patterns written by the user are reproduced unchanged apart from the payload markers.",
 ["programs", "inputs"], "all token enum declarations: nested enum, struct, tuple, literal, wildcard and rest patterns",
 "Tests use unit variants and single-payload tuple variants, and one overlapping pair of patterns.",
 ["src/codegen.rs", "src/ast.rs"], [("terminal index function", "src/codegen.rs token_terminal_idx_fn, pattern_ignore"), ("token value function", "src/codegen.rs token_value_fn, generate_pattern_syn_with_idents, pattern_types")],
 [], ["Entry::parse"])
prop("C12", "Exactly the pub non-terminals become entry points, each its own",
 "For every grammar, each non-terminal marked pub, and no other, yields a public parser of that name and declared result type, which starts in the state for that non-terminal, parses that non-terminal's language, and returns that non-terminal's value. A pub non-terminal used inside other productions or recursively behaves there like any other non-terminal.",
 ["programs"], "all grammars with any number of pub non-terminals in any order",
 "One test has four entry points, all of the same type.",
 ["src/lower.rs", "src/lr1.rs", "src/lr_codegen.rs"], [("entry wrapper production", "src/lower.rs lower"), ("initial state per entry", "src/lr1.rs generate_lr1_automaton"), ("entry structs", "src/lr_codegen.rs generate_lr1_parser")],
 [], ["struct NonTerminal { fn parse }"])
prop("C13", "Expansion is a deterministic, side-effect-free function of its input",
 "The code generated for a grammar depends only on the grammar text: the same input yields the same tokens in every process, on every run and whatever was expanded before, and expanding a grammar neither reads nor writes files, environment, clock, network, processes, global mutable state or randomly seeded collections.",
 ["programs", "histories", "configurations"], "all grammars, build environments and sequences of expansions in one process",
 "Tests expand each grammar once in one process.",
 ["src/lib.rs", "src/collections.rs"], [("fixed-seed hash collections", "src/collections.rs"), ("no ambient authority used anywhere reachable from the macro", "src/lib.rs parser")],
 [], ["output of the proc macro"])
prop("C14", "Code generation terminates for every grammar",
 "For every grammar, including empty, cyclic, left-recursive and useless non-terminals, macro expansion finishes: each iteration of every fixpoint or work-list computation either adds something new to a finite set or is the last, and each other loop makes progress through finite input.",
 ["programs"], "all grammars",
 "Non-termination shows only on the grammar shapes that trigger it.",
 ["src/first.rs", "src/lr1.rs", "src/lr_codegen.rs", "src/codegen.rs", "src/lower.rs", "src/grammar.rs", "src/ast.rs"], [("change flags of fixpoint loops", "src/first.rs generate_first_table; src/lr1.rs generate_lr1_automaton"), ("work list fed only by newly inserted items", "src/lr1.rs compute_lr1_closure"), ("index iterators advance", "src/grammar.rs")],
 [], ["the macro returns"])
prop("C15", "Grammars too large for the table encoding are rejected, never truncated",
 "Every number that is stored in a narrower integer for the generated tables (states, productions' lengths, non-terminals, semantic actions, terminals) is either represented exactly or makes expansion fail; no grammar, however large, gets a parser whose indices wrapped around or were clamped.",
 ["programs"], "all grammar sizes",
 "Tests have at most about ten non-terminals and twenty productions; limits lie at 2^16 and 2^32.",
 ["src/lr_codegen.rs", "src/codegen.rs", "src/grammar.rs"], [("checked integer conversions", "src/lr_codegen.rs generate_action_array, generate_goto_array; src/codegen.rs generate_semantic_action_table; src/grammar.rs *Idx")],
 [], ["compile error, or exact indices in the expansion"])
prop("C16", "Ill-formed grammars are rejected rather than half-accepted",
 "A grammar that uses an undeclared token or non-terminal, declares the same token text, non-terminal, token enum or state type twice, omits the token enum, or uses a production feature the generator does not implement (repetition, fallible actions), makes expansion fail. A syntax error in the grammar text is never swallowed, and no written symbol, production, token or non-terminal declaration is silently dropped or replaced (`type State` is reserved: it is parsed and checked for repetition, and has no other effect).",
 ["programs"], "all malformed grammars",
 "A rejected grammar cannot appear in the tests (the macro would break their build).",
 ["src/lib.rs", "src/lower.rs", "src/ast.rs"], [("definition lookups and duplicate checks", "src/lower.rs lower, add_symbol; src/lib.rs parser"), ("error propagation in parsing", "src/ast.rs")],
 [], ["compile error of the crate invoking parser!"])
prop("C17", "The grammar notation means what is written",
 "Every grammar text that is accepted is represented completely and in written order: items, non-terminals with their visibility and type, productions, symbols with names and mutability, actions, token patterns with their structure, fields and rest markers, and lifetimes. Nothing is dropped, duplicated, reordered or reclassified between the text and the grammar the parser is generated from.",
 ["programs"], "all grammar texts",
 "Five small unit tests check the outermost kind of a parsed fragment, never its content or order.",
 ["src/ast.rs", "src/lower.rs", "src/lib.rs"], [("Parse implementations", "src/ast.rs"), ("item sorting", "src/lib.rs parser"), ("lowering", "src/lower.rs")],
 [], ["behaviour of the generated parser"])
prop("C18", "A value is taken off the stack at the type it was put on",
 "In every generated parser, the wrapper a value is put into when a token is shifted or a production is reduced is the one from which it is later extracted: the same kind and number for the same symbol, two non-terminals sharing a wrapper only if their declared types are equal. Extraction therefore never meets a foreign wrapper, for any mix of result types.",
 ["programs", "inputs"], "all grammars with any number of token payloads and non-terminal types, shared or distinct",
 "Tests have at most two distinct non-terminal types per grammar.",
 ["src/codegen.rs", "src/lr_codegen.rs"], [("wrapper enum and extraction methods", "src/codegen.rs semantic_action_result_type"), ("uses of both", "src/codegen.rs generate_semantic_action_table, token_value_fn; src/lr_codegen.rs generate_lr1_parser")],
 [], ["Entry::parse never panics"])
prop("C19", "The generated parser accepts exactly the grammar's language",
 "For every conflict-free grammar and every token stream, the entry point succeeds if and only if the stream is a sentence of the non-terminal, and the value returned is the one obtained by evaluating the actions bottom-up over the unique parse tree.",
 ["programs", "inputs"], "all LR(1) grammars and all token streams", "End-to-end equivalence between a grammar's derivations and runs of a table-driven automaton; tests sample sentences.",
 ["src/lr1.rs", "src/lr_codegen.rs"], [("canonical LR(1) construction and LR driver", "whole pipeline")], [], ["Entry::parse"])
prop("C20", "Parsing terminates in time linear in the input",
 "For every grammar accepted by the generator and every finite token stream, a call of an entry point returns, after a number of steps proportional to the number of tokens.",
 ["programs", "inputs"], "all grammars, all finite token streams", "Bounds the number of reductions between shifts for every table.",
 ["src/lr_codegen.rs"], [("LR driver loop", "src/lr_codegen.rs generate_lr1_parser")], [], ["Entry::parse"])
prop("C21", "Well-typed grammars expand to code that compiles",
 "If the user's types, patterns and actions are well typed in their context, the expansion type-checks in any module, whatever names the user chose for binders, tokens and non-terminals.",
 ["programs"], "all grammars and user identifiers", "Name capture depends on the identifiers a user picks.",
 ["src/codegen.rs", "src/lr_codegen.rs"], [("identifiers made with call-site spans", "src/codegen.rs")], [], ["rustc on the expansion"])
prop("C22", "Only grammars with a stated defect are refused",
 "For every input of the macro that follows the notation, expansion succeeds unless the grammar has one of these defects: the token enum is missing or declared twice, the state type, a token or a non-terminal is declared twice, a symbol is named twice or not declared, a fallible action or a repetition is used, two different actions compete for one state and lookahead, or a count or index exceeds 65,535. No lookup, unwrapping, subtraction or identifier made during expansion fails for any other grammar: not for empty productions, non-terminals without productions, grammars without entry points or tokens, raw identifiers, or any number of states, symbols or payload fields within the limit.",
 ["programs"], "all inputs of the macro",
 "Tests expand a dozen well-formed grammars; a failure needs a grammar at the edge (empty, raw names, many of something).",
 ["src/lib.rs", "src/lower.rs", "src/grammar.rs", "src/lr1.rs", "src/lr_common.rs", "src/lr_codegen.rs", "src/codegen.rs", "src/ast.rs"],
 [("panics and assertions", "src/lower.rs lower, add_symbol; src/lr_common.rs LRTableBuilder; src/lr1.rs; src/lr_codegen.rs generate_action_array"), ("lookups and identifiers", "src/grammar.rs Grammar; src/codegen.rs; src/lr_codegen.rs generate_lr1_parser")],
 [], ["failure of the crate invoking parser! to build"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
