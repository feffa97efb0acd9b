#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties lives here so it stays readable)."""
import json, os
LEX = {"name": "character cursor, line/column counters, type-parameter depth", "meaning": "tokenizer state", "where": "src/lexer.rs struct Lexer"}
PAR = {"name": "token cursor and pending leading/trailing comment indices", "meaning": "parser state", "where": "src/parser.rs struct Parser"}
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state),
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
HOOK = "cfg(bq2cst_verif) re-exports the tokenizer, parser, node and token types"

p("C01", "Tokenizing loses nothing",
  "For every text the tokenizer accepts, the token literals in order are exactly the text with only whitespace between tokens left out (plus the trailing whitespace of a line comment), each literal being copied character for character. The list ends with exactly one end-of-input token with an empty literal, and no other token is empty.",
  ["inputs"], "every input text, including non-ASCII characters and text inside strings, comments and templates",
  "The lexer test tokenizes one fixed text; losing or altering a character only in some context (after a template, inside an escape, at end of input) is not sampled.",
  ["src/lexer.rs", "src/token.rs"], [("each reader slices the input between two cursor positions", "src/lexer.rs read_*"), ("end token appended once", "src/lexer.rs tokenize_code")],
  [LEX], ["tokenize()"], HOOK)
p("C02", "Every token carries its exact source position",
  "The line and column of every token are the 1-based line and the 1-based character column at which the token's first character stands in the text. This holds whatever precedes the token: multi-line strings, comments, templates and quoted identifiers, tabs, carriage returns, wide and non-ASCII characters.",
  ["inputs"], "every input text and every token of it",
  "Positions are asserted for one fixed text; they depend on everything before the token.",
  ["src/lexer.rs"], [("line/column advanced per character", "src/lexer.rs next_char"), ("position captured before reading a token", "src/lexer.rs next_token")],
  [LEX], ["tokenize()", "token of every node of parse()"], HOOK)
p("C03", "Token boundaries follow the GoogleSQL lexical rules",
  "Every text is split at the boundaries the lexical rules give: strings and quoted identifiers end at the first matching unescaped delimiter (triple-quoted ones at the first unescaped triple), comments at end of line or at the first */, templates at the matching run of closing braces, and numbers, words, parameters and multi-character operators are taken as long as possible, except that a > closing an ARRAY<, STRUCT< or RANGE< type list is always its own token. A text whose last string, quoted identifier, block comment or template is unterminated is rejected with an error positioned at the end of the text.",
  ["inputs"], "every input text over the lexical alphabet",
  "Boundaries depend on the interaction of delimiters, escapes, nesting and adjacency; the test suite tokenizes a few handwritten snippets.",
  ["src/lexer.rs"], [("dispatch on first character", "src/lexer.rs next_token"), ("escape tracking", "src/lexer.rs read_string/read_multiline_string"), ("type_declaration_depth", "src/lexer.rs '<' and '>' arms")],
  [LEX], ["tokenize()"], HOOK)
p("C04", "The tokenizer always answers",
  "For every text, tokenizing terminates with either a token list or an error; it never crashes and never loops. An error always carries a position inside the text (or just past its last character).",
  ["inputs"], "every input text, including empty, truncated, and malformed ones",
  "The tests only tokenize well-formed text.",
  ["src/lexer.rs"], [("end-of-input turned into an error", "src/lexer.rs next_char"), ("every loop advances the cursor", "src/lexer.rs")],
  [LEX], ["tokenize()"], HOOK)
p("C05", "The parser always answers",
  "For every text that can be tokenized, parsing terminates with either a statement list or an error; it never crashes and never loops, whatever tokens are missing, duplicated, misplaced or cut off (nesting deeper than the stack allows excepted). An error always carries the position of a token of the text or of the end of input.",
  ["inputs"], "every token sequence: well-formed statements, statements cut after any token, with tokens removed, inserted, repeated or replaced, and arbitrary short token sequences",
  "Only four malformed inputs are tested; every look-ahead and every unconditional advance in the parser is a place where an unexpected token or the end of input can crash it.",
  ["src/parser.rs", "src/error.rs"], [("look-ahead and advance return an error past the end", "src/parser.rs get_offset_index/next_token")],
  [PAR], ["parse()"], HOOK)
p("C06", "The syntax tree loses nothing",
  "For every text the parser accepts, every token of the text, comments included, appears exactly once in the returned tree, with its literal and position unchanged. The tree holds no other token.",
  ["inputs"], "every accepted text, well-formed or not",
  "The tests compare whole trees for a few hundred fixed statements; a token is dropped or duplicated only for particular combinations of clauses, lists and comments.",
  ["src/parser.rs", "src/cst.rs"], [("each token becomes exactly one node", "src/parser.rs construct_node/next_token"), ("children stored under distinct keys", "src/cst.rs push_node/push_node_vec")],
  [PAR], ["parse()"], HOOK)
p("C07", "The tree mirrors source order and nesting",
  "For every accepted well-formed text, the tokens of every subtree form one contiguous run of the source, sibling subtrees do not interleave, and the nodes of every list child are in source order. The top-level list is in source order and ends with exactly one end-of-input node.",
  ["inputs"], "every accepted well-formed statement sequence",
  "Contiguity is a relation over all tokens of a statement, never asserted by the tests, and depends on which optional clauses are present.",
  ["src/parser.rs", "src/cst.rs"], [("recursive descent attaches what it consumes", "src/parser.rs")],
  [PAR], ["parse()"], HOOK)
p("C08", "Comments never change the parse",
  "Replacing any comment by whitespace of the same extent, at any place between two tokens of a statement, leaves the tree unchanged apart from the comment itself. In particular a text parses with its comments exactly when it parses without them.",
  ["inputs"], "every well-formed statement, every gap between tokens, every comment style, any number of comments",
  "Comments can stand in every gap of every statement form; the tests try a few gaps of a few statements.",
  ["src/parser.rs", "src/lexer.rs"], [("look-ahead skips comments", "src/parser.rs get_offset_index"), ("advance skips comments", "src/parser.rs next_token")],
  [PAR, LEX], ["parse()"], HOOK)
p("C09", "Every comment is attached to the right token",
  "A comment is kept as a trailing comment of the token before it when it (and every comment between them) starts on the line where that token starts, and as a leading comment of the next token, or of the end-of-input node, otherwise. Comments attached to one token keep their source order.",
  ["inputs"], "every well-formed statement, every gap, every comment style and line-break pattern, up to several comments per gap",
  "The attachment rule depends on line breaks, runs of comments and the position in the statement; a handful of placements are tested.",
  ["src/parser.rs"], [("leading/trailing comment indices", "src/parser.rs Parser::new/next_token/construct_node")],
  [PAR], ["parse()"], HOOK)
p("C10", "Layout never changes the parse",
  "Two texts that differ only in the whitespace between tokens (kind, amount, line breaks; never whitespace against no whitespace) give the same tree apart from positions. Leading and trailing whitespace of the text is irrelevant.",
  ["inputs"], "every well-formed statement and every way of filling its gaps with spaces, tabs, line breaks, CRLF and Unicode whitespace",
  "The tests use one layout per statement.",
  ["src/lexer.rs", "src/parser.rs"], [("whitespace skipped", "src/lexer.rs skip_whitespace"), ("adjacency only used for multi-token identifiers", "src/parser.rs parse_identifier")],
  [LEX, PAR], ["parse()"], HOOK)
p("C11", "Keywords are case-insensitive",
  "Changing the letter case of any keywords or unquoted words of a text, in any combination, changes neither acceptance nor the tree, apart from the literals themselves, which keep the case of the text.",
  ["inputs"], "every well-formed statement and every choice of letter case per word",
  "Most statements are tested in upper case only, and each keyword is compared at its own place in the parser.",
  ["src/token.rs", "src/parser.rs", "src/lexer.rs"], [("comparisons fold case", "src/token.rs is/in_"), ("type list detection folds case", "src/lexer.rs")],
  [], ["parse()"], HOOK)
p("C12", "Operators nest by GoogleSQL precedence and associativity",
  "The tree of every expression built from prefix, postfix and infix operators is the one given by the documented GoogleSQL precedence: field access, subscript and call; unary + - ~; * / ||; + -; << >>; &; ^; |; comparisons, [NOT] LIKE, BETWEEN, IN, IS; NOT; AND; OR; infix operators of one level group to the left. Parentheses and brackets override it and nothing outside the expression is absorbed into it.",
  ["inputs"], "every expression over all operators up to a bounded number of operators",
  "Pairs and triples of operators number in the thousands; the tests check a few dozen expressions.",
  ["src/parser.rs"], [("precedence climbing", "src/parser.rs get_precedence/parse_expr")],
  [], ["parse()"], HOOK)
p("C13", "Expressions are represented faithfully",
  "Every well-formed expression (literals, identifiers, parameters, templates, calls with all their modifiers, window clauses, CASE, CAST, EXTRACT, INTERVAL, STRUCT, ARRAY and RANGE constructors, IN, BETWEEN, subqueries, function chains, aliases, sort orders) is accepted, each leaf has the node kind of its lexical class, and every part is found under the child that names it.",
  ["inputs"], "every expression derivable from the reference expression grammar within the bound",
  "Parts are optional and combine freely; tests cover single combinations.",
  ["src/parser.rs", "src/token.rs", "src/cst.rs"], [("expression parser", "src/parser.rs parse_expr/parse_exprs/parse_window_expr"), ("leaf classification", "src/token.rs is_*")],
  [], ["parse()"], HOOK)
p("C14", "Type expressions are represented faithfully",
  "Every well-formed type (scalar, parameterized, ARRAY, STRUCT, RANGE, TABLE, ANY TYPE, arbitrarily nested, with collation, constraints, defaults, NOT NULL and options where allowed) is accepted in every place that takes a type and yields nested type nodes with every part under the child that names it.",
  ["inputs"], "every type derivable from the reference grammar within the bound, in every context that takes a type",
  "Types nest and appear in many contexts (casts, literals, columns, parameters, declarations); tests cover few combinations.",
  ["src/parser.rs", "src/lexer.rs"], [("type parser", "src/parser.rs parse_type/parse_grouped_type_declaration_or_constraints"), ("> splitting", "src/lexer.rs type_declaration_depth")],
  [], ["parse()"], HOOK)
p("C15", "Queries are represented faithfully",
  "Every well-formed query (SELECT with any combination of its clauses, WITH, set operators, parenthesized queries, table expressions with joins, subqueries, PIVOT, UNPIVOT, MATCH_RECOGNIZE, TABLESAMPLE, and pipe syntax with every operator) is accepted and every clause is found under the child that names it, with joins, set operators and pipe operators nested left to right.",
  ["inputs"], "every query derivable from the reference grammar within the bound",
  "Clauses are optional and combine freely and recursively; the tests check single combinations.",
  ["src/parser.rs"], [("query parser", "src/parser.rs parse_select_statement/parse_table/parse_pipe_statement")],
  [PAR], ["parse()"], HOOK)
p("C16", "DDL and DCL statements are represented faithfully",
  "Every well-formed CREATE, ALTER, DROP, UNDROP, GRANT and REVOKE statement, with any combination of its optional clauses, is accepted as the statement it is and every clause is found under the child that names it.",
  ["inputs"], "every DDL/DCL statement derivable from the reference grammar within the bound",
  "Each form has many optional clauses; tests check single combinations.",
  ["src/parser.rs"], [("statement dispatch", "src/parser.rs parse_statement"), ("DDL parsers", "src/parser.rs parse_create_*/parse_alter_*/parse_drop_*")],
  [], ["parse()"], HOOK)
p("C17", "DML, scripting and other statements are represented faithfully",
  "Every well-formed INSERT, UPDATE, DELETE, TRUNCATE, MERGE, scripting (DECLARE, SET, EXECUTE, BEGIN, IF, CASE, loops, labels, transactions, RAISE, CALL, RETURN), ASSERT, EXPORT and LOAD statement, arbitrarily nested, is accepted as the statement it is and every part is found under the child that names it.",
  ["inputs", "programs"], "every such statement or script derivable from the reference grammar within the bound",
  "Scripts nest; tests check single combinations.",
  ["src/parser.rs"], [("statement parsers", "src/parser.rs parse_*_statement")],
  [PAR], ["parse()"], HOOK)
p("C18", "Statements are parsed independently of their neighbours",
  "Parsing a sequence of semicolon-terminated well-formed statements gives the concatenation of the trees of the statements parsed alone, apart from line numbers, in any order and number. The same holds for the statement lists inside BEGIN, IF, CASE, LOOP, REPEAT, WHILE and FOR blocks, and the semicolon of the last top-level statement is optional.",
  ["inputs", "histories"], "every sequence of statements up to the bound, at top level and in every kind of block",
  "The tests parse one statement at a time; state left over by one statement (comment indices, type depth, look-ahead) shows only in particular successors.",
  ["src/parser.rs", "src/lexer.rs"], [("statement loop", "src/parser.rs parse_code/parse_keyword_with_statements"), ("type depth returns to zero", "src/lexer.rs")],
  [PAR, LEX], ["parse()"], HOOK)
p("C19", "Results conform to the published TypeScript types",
  "Every node returned for a well-formed text has a node kind that belongs to the published union of node types, and each of its children is declared for that kind in the shipped type declarations with the same name and shape (single node or list) and, aliases excepted, of one of the declared kinds. Children and tokens declared as mandatory are always present, and a token declared as absent is absent.",
  ["inputs"], "every tree of every text derivable from the reference grammar within the bound",
  "The type declarations are a text constant, compared with the parser by nobody; the wasm test does not look at the result.",
  ["src/types.rs", "src/parser.rs", "src/cst.rs", "src/lib.rs"], [("hand-maintained declarations", "src/types.rs"), ("serialization of nodes", "src/cst.rs, src/lib.rs")],
  [], ["parse() and the generated .d.ts"], HOOK)
p("C20", "The published API returns exactly the tree, tokens or error",
  "Called through the compiled WebAssembly package, parse and tokenize return plain JSON-like data equal to the statement list and token list of the text, and otherwise throw an object with exactly the line, column and message of the failure; parse fails whenever tokenize fails, with the same error. No input makes them return both or neither.",
  ["inputs"], "every text of the explored set, accepted and rejected by tokenizer and parser",
  "The only API test parses one statement and ignores the result.",
  ["src/lib.rs", "src/error.rs", "src/cst.rs", "src/token.rs"], [("result/err serialization", "src/lib.rs parse/tokenize")],
  [], ["exports of the wasm package under node"], HOOK)
p("C21", "Calls are independent of each other",
  "The result of parse or tokenize depends only on its argument: after any sequence of earlier calls, successful or failed, on the same loaded module, a call returns the same result as on a freshly loaded module. Repeating a call gives the same result.",
  ["histories", "inputs"], "every sequence of calls up to the bound over an alphabet of succeeding and failing inputs",
  "Each test makes one call per input on fresh objects.",
  ["src/lib.rs", "src/lexer.rs", "src/parser.rs", "src/token.rs"], [("all state lives in objects created per call", "src/lib.rs")],
  [], ["exports of the wasm package under node", "tokenizer and parser called in sequence natively"], HOOK)
p("C22", "Incomplete and unrecognized statements are rejected where they go wrong",
  "A well-formed statement cut off directly before a closing parenthesis, closing bracket or END, or, outside parentheses, directly after a symbol, operator or keyword that must be followed by something, is rejected with the end-of-input position rather than accepted. An unknown statement object after CREATE or ALTER, an unknown pipe operator, an unknown MERGE action, a missing closing parenthesis of a WITH query, a dangling NOT and a doubly labelled statement are rejected with the position of a token of the offending statement, or of the end of input if nothing follows it.",
  ["inputs"], "every well-formed statement derivable within the bound cut after every token, and every offending token at the listed places",
  "Four rejections are tested, each with one input.",
  ["src/parser.rs", "src/error.rs"], [("end-of-input error", "src/parser.rs get_offset_index/next_token"), ("explicit rejections", "src/parser.rs")],
  [PAR], ["parse()"], HOOK)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
