"""Property catalogue (authoring source of properties.jsonl and MANIFEST.json)."""
W = "crates/wolfram-parser/src/"


def q(text, *over):
    return {"over": list(over or ["inputs"]), "text": text}


def anchors(files, mech, **kw):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    d.update(kw)
    return d


TB = "Trusted: the rustc nightly front end (MIR, constant evaluation), the fact extractor, the abstract interpreter with its models of std, and the oracle tables in /verif/rules. "

PROPS = [
 dict(id="P01", title="Bytes decode to characters exactly as strict UTF-8 says",
  statement="For every byte sequence, reading the next source character consumes exactly the bytes of one well-formed UTF-8 sequence and yields its code point. Overlong forms, surrogates, values above U+10FFFF and truncated sequences never yield a character; they yield the unsafe-byte marker. CR LF is one newline character, the end of input yields the end marker and consumes nothing, and no byte sequence makes the reader panic or read past the end.",
  quantifier=q("every byte sequence at the read position, with any number of bytes remaining, every encoding mode and every setting of issue checking"),
  why_tests_cant="The tests decode a few dozen sequences; well-formedness is a partition of all 1- to 4-byte prefixes crossed with how many bytes remain.",
  anchors=anchors([W + "read/byte_decoder.rs", W + "read.rs", W + "read/byte_buffer.rs"], [("ByteDecoder state machine", W + "read/byte_decoder.rs"), ("Reader byte cursor", W + "read.rs")], observe_at=["token text", "token spans", "issues"]),
  technique="abstract interpretation of MIR over symbolic input bytes (interval boxes), compared with the Unicode well-formed byte sequence table",
  level_note=TB + "Every path of the decoder is covered for symbolic bytes and symbolic remaining length; the decoder is loop-free."),
 dict(id="P02", title="Malformed bytes are always reported and flag the parse as unsafe",
  statement="A byte sequence that is not a well-formed character sets the parse's unsafe-encoding flag to the matching kind (incomplete UTF-8, stray surrogate, byte order mark) and, when issues are checked, adds a fatal encoding issue spanning it. Well-formed characters never set the flag and never add a fatal encoding issue. The flag, once set, is not cleared while the input is being read.",
  quantifier=q("every byte sequence at the read position, in every encoding mode and issue-checking setting", "inputs", "configurations"),
  why_tests_cant="Only a handful of malformed sequences are tested, mostly with one configuration.",
  anchors=anchors([W + "read/byte_decoder.rs", W + "read.rs"], [("invalid / incomplete / stray surrogate / BOM handlers", W + "read/byte_decoder.rs")], observe_at=["unsafe character encoding of the parse result", "fatal issues"]),
  technique="abstract interpretation of MIR over symbolic input bytes with effect tracking of the flag and the issue list",
  level_note=TB + "All decoder paths."),
 dict(id="P03", title="Source locations advance by the character just read",
  statement="In line-and-column convention, every character advances the column by one, a newline (LF, CR or CR LF) moves to column one of the next line, and a tab moves to the next tab stop when tab stops are in force. In character-index convention every character advances the index by one. The position before a character never depends on later input.",
  quantifier=q("every character, every current location, every tab width of at least one, both location conventions"),
  why_tests_cant="Tests pin a few literal locations; the claim is about the step from every location by every character.",
  anchors=anchors([W + "read/byte_decoder.rs", W + "source.rs", W + "read.rs"], [("location increment / newline / tab", W + "read/byte_decoder.rs"), ("Location arithmetic", W + "source.rs")], observe_at=["token and node spans"]),
  technique="abstract interpretation of MIR with symbolic location and bytes; exit states compared with the location oracle",
  level_note=TB + "Assumes lines, columns and indices stay below u32::MAX and a tab width of at least one."),
 dict(id="P04", title="Operator grammar equals the published operator data",
  statement="Every token kind parses as the prefix, infix, postfix, binary or special operator that the project's operator data files assign to it, builds the operator symbol they name, and binds with the precedence they give. Comparing two precedences decides exactly as their order and associativity in the precedence file.",
  quantifier=q("every token kind in prefix and infix position, every pair of precedence levels", "inputs", "programs"),
  why_tests_cant="About 30 operators occur in the tests; there are over 400 token kinds, 160 precedence names and 26,000 ordered pairs of them.",
  anchors=anchors([W + "parse/parselet.rs", W + "parse/token_parselets.rs", W + "precedence.rs", W + "generated/precedence_values.rs", "CodeParser/Data/PrefixParselets.wl", "CodeParser/Data/InfixParselets.wl", "CodeParser/Data/Precedence.wl"], [("prefix and infix parselet tables", W + "parse/token_parselets.rs"), ("Precedence::greater", W + "precedence.rs")], observe_at=["syntax tree shape and operator heads"]),
  technique="compiler-evaluated constant tables and function summaries over the finite domain, compared with the grammar data files",
  level_note=TB + "CodeParser/Data/*.wl is the specification."),
 dict(id="P05", title="Every token kind is classified consistently with how it is dispatched",
  statement="For every token kind, whether it counts as an error, a closer, trivia, an empty token, an unterminated token or a possible beginning of an expression agrees with what the kind is and with what the parser does when it meets one. No token kind reaches a handler that is not meant for it, and no two kinds share a representation.",
  quantifier=q("every token kind", "inputs", "programs"),
  why_tests_cant="Most token kinds never occur in a test in both prefix and infix position.",
  anchors=anchors([W + "tokenize/token_kind.rs", W + "parse/token_parselets.rs"], [("TokenKind class bits", W + "tokenize/token_kind.rs"), ("parselet tables", W + "parse/token_parselets.rs")], observe_at=["implicit multiplication, trivia placement, error nodes"]),
  technique="function summaries over the finite token-kind domain cross-checked with the dispatch tables",
  level_note=TB + "Exhaustive over the kinds."),
 dict(id="P06", title="Brackets close only with their own closer",
  statement="Every opening bracket starts the group that the grammar data names, and only the matching closing bracket ends it. Every closing bracket token is recognised as exactly its own closer. A bracket that follows an expression as a call builds the call of the same bracket kind.",
  quantifier=q("every opener and closer token kind, in prefix and call position", "inputs", "programs"),
  why_tests_cant="Tests exercise round, square and curly brackets; there are fourteen openers.",
  anchors=anchors([W + "parse/token_parselets.rs", W + "tokenize/token_kind.rs", W + "parse/operators.rs"], [("closer mapping", W + "tokenize/token_kind.rs"), ("group and call parselets", W + "parse/token_parselets.rs")], observe_at=["group, call and missing-closer nodes"]),
  technique="function summaries over the finite token-kind domain and compiled tables, compared with the grammar data and a bracket pairing table",
  level_note=TB + "Exhaustive over the kinds."),
 dict(id="P07", title="Named characters mean what the long-name data says",
  statement="Every named character resolves to the code point given in the long-name data file and every named code point resolves back to its name. Its category (letterlike, punctuation, whitespace, newline, uninterpretable, raw), its operator token and its ASCII replacements are those of the data file, and no other character has them.",
  quantifier=q("every long name and every code point"),
  why_tests_cant="A few long names are tested out of 1,100.",
  anchors=anchors([W + "long_names.rs", W + "generated/long_names_registration.rs", "CodeParser/Data/LongNames.wl"], [("long name tables and searches", W + "long_names.rs")], observe_at=["token kinds and suggestions for named characters"]),
  technique="abstract interpretation of the lookup functions on every table key, interval analysis over all code points, compared with LongNames.wl",
  level_note=TB + "LongNames.wl is the specification."),
 dict(id="P08", title="Every enum name that is written out reads back to the same value",
  statement="For every kind of value that is written as a symbol or name and can be read back (token kinds, operators, error kinds and the like), reading the name of a value yields that value. Distinct values never share a name, except the two newline kinds that share one by design.",
  quantifier=q("every value of every enumeration with a name writer and a name reader", "inputs"),
  why_tests_cant="Over 800 names; tests read back a few.",
  anchors=anchors([W + "symbols.rs", W + "tokenize/token_kind.rs", W + "parse/operators.rs"], [("to_symbol / try_from_symbol pairs", W + "parse/operators.rs")], observe_at=["serialised trees"]),
  technique="writer map and reader map extracted from MIR path conditions, compared as inverse relations",
  level_note=TB + "Exhaustive over the enumerations' values."),
 dict(id="P09", title="Operators are read by longest match",
  statement="Every ASCII operator spelling of the language is tokenized as its own token kind, by longest match, consuming exactly its characters, whatever follows it. A dot in front of a digit belongs to a number, not to the operator before it.",
  quantifier=q("every ASCII operator character, every following character (backslash escapes apart) and every amount of remaining input, with issue checking on or off"),
  why_tests_cant="The claim is about each operator prefix against every possible continuation, including the end of input.",
  anchors=anchors([W + "tokenize/tokenizer.rs"], [("operator handlers of Tokenizer_nextToken", W + "tokenize/tokenizer.rs")], observe_at=["token kinds and token text"]),
  technique="trace-partitioned abstract interpretation of MIR over symbolic bytes (interval boxes), compared with a longest-match table",
  level_note=TB + "Runs of % are followed for a bounded number of characters."),
 dict(id="P10", title="Backslash escapes decode to the characters the language defines",
  statement="A backslash followed by a string-escape letter, a linear-syntax character, a hexadecimal or octal escape (\\.xx, \\:xxxx, \\|xxxxxx, \\ooo) or a long name in brackets decodes to exactly the character the language defines, consuming exactly the escape; a backslash before a newline (LF, CR or CR LF) is a line continuation of that kind. A malformed escape (too few digits, value out of range or a surrogate, unknown or unfinished long name) never yields a wrong character: it yields a plain backslash, consuming one character. No escape makes the reader panic.",
  quantifier=q("every second byte after a backslash, every continuation and every amount of remaining input, with issue checking on or off"),
  why_tests_cant="Tests decode some dozens of escapes; the domain is every digit combination and every way an escape can break off.",
  anchors=anchors([W + "read/character_decoder.rs", W + "read/wl_character.rs"], [("escape handlers", W + "read/character_decoder.rs")], observe_at=["token kinds, token text and spans"]),
  technique="trace-partitioned abstract interpretation of MIR over symbolic bytes; digit values decided on the full grid of digit combinations",
  level_note=TB + "Long names are followed for up to six characters; the reading loop starts every iteration in the same abstract state."),
 dict(id="P11", title="Tokens partition the input",
  statement="Every token read from the input starts exactly where the previous one ended, its text is exactly the bytes that were consumed and its span is the span of those bytes; a token is never empty except at the end of the input or as an expected-something error token in tag or file-name position. Skipping a token moves to its end and resetting moves to its start. Tokenizing records every token up to the end of the input once and in order, and nothing is dropped at the start of the input except a #! line when the first-line behaviour asks for that.",
  quantifier=q("every input, every first character, token reading in top-level, tag and file-name position, issue checking on or off, every first-line behaviour"),
  why_tests_cant="Tests compare the tokens of a few inputs; a handler that reads one character too many or drops one shows only on the path where it happens.",
  anchors=anchors([W + "tokenize/tokenizer.rs", W + "tokenize/token.rs", W + "lib.rs", W + "read.rs"], [("token handlers", W + "tokenize/tokenizer.rs"), ("Token::skip / Token::reset", W + "tokenize/token.rs"), ("tokenize_bytes loop", W + "lib.rs"), ("handle_first_line", W + "tokenize/tokenizer.rs")], observe_at=["token texts and spans returned by tokenize and the trees"]),
  technique="abstract interpretation of the token readers' MIR over symbolic characters of symbolic width; extents compared at every exit; event-trace rule for the token loop and the first line",
  level="other",
  level_note=TB + "Tokens of up to four characters (longer tokens repeat the loop bodies covered); escapes are treated as opaque characters (P10)."),
 dict(id="P12", title="Peeking never consumes",
  statement="Looking at the next source character, character or token leaves the reading position as it was (byte offset, source location and end-of-file mark) and answers exactly what reading from that position gives under the policy asked for; inside brackets newlines are internal, outside they end an expression. Peeking again therefore gives the same answer: nothing else that reading a token changes (recorded issues, tracked locations, the encoding flag) is ever consulted in reading tokens.",
  quantifier=q("every reader position and contents, every policy, every depth of open brackets"),
  why_tests_cant="Lookahead happens at every position of every input; a field that is not restored shows only where the lookahead crossed a newline, a tab or the end of the input.",
  anchors=anchors([W + "read.rs", W + "tokenize/tokenizer.rs"], [("Reader::mark / seek / peek_*", W + "read.rs"), ("peek_token_with, Tokenizer_current*", W + "tokenize/tokenizer.rs")], observe_at=["tokens and spans after lookahead"]),
  technique="abstract interpretation of the peeking functions' MIR with consumers replaced by arbitrary moves; effect analysis (fields read and written) over the call graph",
  level_note=TB + "The notes written by reading a token are told apart by field."),
 dict(id="P13", title="Issues are kept once each, in order, and fatal ones are bounded",
  statement="Every issue that is reported is recorded once, in the order of first report, in the list of its class (fatal or not); reporting it again changes nothing; at most ten fatal issues are kept and non-fatal issues are never dropped. Two issues are the same only if tag, message, severity, source, confidence, actions and descriptions all agree. Recorded issues are never removed or altered.",
  quantifier=q("every history of reported issues, every severity"),
  why_tests_cant="The bound and the duplicate test depend on the whole history of reports; tests report a few issues.",
  anchors=anchors([W + "read.rs", W + "issue.rs"], [("Reader::addIssue", W + "read.rs"), ("impl PartialEq for Issue", W + "issue.rs")], observe_at=["fatal_issues and non_fatal_issues of a parse result"]),
  technique="abstract interpretation of addIssue's MIR on every list length up to twelve and every position of a duplicate; who-writes-what effect analysis over all functions",
  level_note=TB + "Non-fatal lists longer than twelve are covered by uniformity of the code."),
 dict(id="P14", title="Checking for issues never changes what is read",
  statement="Turning issue checking or the tracking of embedded newlines, tabs and line continuations on or off changes only which issues and locations are recorded: tokens, their kinds, texts and spans, and the reading position are the same.",
  quantifier=q("every function of the reader and tokenizer, every path through it"),
  why_tests_cant="It is a statement about pairs of runs on every input; tests run with one setting.",
  anchors=anchors([W + "read/byte_decoder.rs", W + "read/character_decoder.rs", W + "tokenize/tokenizer.rs"], [("check_issues and compute_oob guards", W + "tokenize/tokenizer.rs")], observe_at=["tokens with and without issue checking"]),
  technique="interprocedural information-flow analysis on MIR (explicit flows, control dependence by postdominators, liveness; look-ahead brackets recognised)",
  level_note=TB + "Calls through handler tables go to every table entry of matching type."),
 dict(id="P15", title="The parser keeps every token, once and in order",
  statement="Whatever the tokens, every parselet turns what it reads into exactly one node that covers the input from where it started to where it stopped: no token is dropped, duplicated or reordered, trivia included. Contexts and open brackets are balanced again when it returns, operators bind by comparing precedences as the grammar defines, and the top-level loop accounts for every token up to the end of the input. (Groups and tokens that are never closed are afterwards shortened on purpose; that is not part of this statement.)",
  quantifier=q("every parselet and every token kind that can reach it, every sequence of following tokens"),
  why_tests_cant="There are over a hundred parselets and each meets trivia, closers, errors and the end of input at every point; tests sample some of those combinations.",
  anchors=anchors([W + "parse.rs", W + "parse/parselet.rs", W + "parse/parselet/integral_parselet.rs", W + "parse/parselet/semi_semi_parselet.rs", W + "parse/parselet/times_parselet.rs", W + "parse/parselet/under_parselet.rs"], [("parselets", W + "parse/parselet.rs"), ("ParserSession", W + "parse.rs")], observe_at=["concrete syntax trees"]),
  technique="typestate / event-trace analysis of the parselets' MIR against an abstract builder and token stream; recursive parses by contract",
  level="other",
  level_note=TB + "Runs of trivia of length one, loop bodies once around (the loop head is reached in the same abstract state)."),
 dict(id="P22", title="Symbols, strings, comments and numbers are delimited as the language defines",
  statement="Starting at a letter, $ or context mark, the tokenizer reads the longest symbol (letters, digits and $ in segments joined by context marks, each mark followed by a letter); at a double quote, the string up to the matching unescaped quote; at (*, the comment up to the balancing *) with nesting; at a digit or dot-digit, the longest number with optional base, fraction, precision or accuracy and exponent. The token kind (integer, real, rational or the specific error kind) and its length are those of the grammar, and no such input makes the tokenizer panic.",
  quantifier=q("every ASCII input in top-level position, with issue checking on or off, up to the stated number of characters per token family"),
  why_tests_cant="The number grammar alone has hundreds of ways to stop in the middle; tests cover some dozens of literals.",
  anchors=anchors([W + "tokenize/tokenizer.rs"], [("Tokenizer_handleSymbol / handleString / handleComment / handleNumber", W + "tokenize/tokenizer.rs")], observe_at=["token kinds and texts"]),
  technique="trace-partitioned abstract interpretation of MIR over symbolic bytes; every path box compared with a reference lexer",
  level="other",
  level_note=TB + "Bounded by token length: 7 characters for symbols and strings, 8 for comments, 5 to 8 for numbers (one more in the thorough tier); every base from 0 to 99 and some longer spellings."),
 dict(id="P24", title="Each construct builds the node the language defines for it",
  statement="For every token that can start or continue an expression, the parser builds exactly the node the language defines: the right node type and operator (Set or Unset, TagSet, TagSetDelayed or TagUnset, Pattern or Optional, Span, Slot, SlotSequence, Out, Get, Put, PutAppend, MessageName, blanks and named blanks, integrals, calls, groups and so on), operands parsed with the precedence of that construct, implicit Null, One and All inserted exactly where an operand is missing, operator runs continued exactly while the operator stays the same, a bracket ended only by its own closer, and the documented error node where something is missing.",
  quantifier=q("every parselet, every token kind that can reach it and every kind of the tokens that follow"),
  why_tests_cant="Each construct branches on the kind of the next tokens (over 400 kinds); tests exercise a few continuations per construct.",
  anchors=anchors([W + "parse.rs", W + "parse/parselet.rs", W + "parse/parselet/integral_parselet.rs", W + "parse/parselet/semi_semi_parselet.rs", W + "parse/parselet/times_parselet.rs", W + "parse/parselet/under_parselet.rs"], [("parselets", W + "parse/parselet.rs"), ("check_pattern_precedence", W + "parse.rs")], observe_at=["concrete syntax trees"]),
  technique="abstract interpretation of the parselets' MIR against an abstract builder that records node shapes; every shape compared with a table of the language's forms",
  level="other",
  level_note=TB + "Operator runs of up to two further rounds; recursive parses by contract (P15)."),
 dict(id="P16", title="The tree builder keeps every node it is given",
  statement="Reducing a context replaces exactly the nodes pushed since that context began by one node of the requested type, with the requested operator and with those nodes, trivia included, as its children in the order they were pushed; nodes pushed before are untouched. A call node takes its last node as its body and the rest as its head. Leaves and compounds contain exactly the tokens given, in order. A trivia sequence is either added whole and in order or handed back with its first token. Finished expressions and trivia come out in the order they were finished. What may stand to the left of a colon, and whether the last operand is a span, is decided by the last node that is not trivia.",
  quantifier=q("every builder operation with every operator of its enumeration, every token kind as a leaf, with and without surrounding trivia"),
  why_tests_cant="Every syntax tree is made through these operations; a slip for one operator or one amount of trivia shows only where it occurs.",
  anchors=anchors([W + "parse_cst.rs", W + "parse.rs", W + "cst.rs"], [("impl ParseBuilder for ParseCst", W + "parse_cst.rs")], observe_at=["children, order and operators of concrete syntax trees"]),
  technique="abstract interpretation of the builder's MIR on symbolic tokens, method sequences compared with the builder's contract",
  level_note=TB + "Contexts of up to eight nodes; the code treats them uniformly. Reparsing of unterminated groups is treated as an opaque function."),
 dict(id="P17", title="Tree traversals reach every part of a node, once and in order",
  statement="Visiting a syntax tree calls the visitor on a node and then once on each of its parts in source order, for every kind of node, including both the head and the body of calls; mapping a tree rebuilds the same node around the mapped parts; converting a tree to owned text keeps its structure, token kinds and sources; the source of a node runs from the start of its first part to the end of its last part; the span between two spans starts with the first and ends with the second.",
  quantifier=q("every variant of node, call head and call body, with arbitrary parts"),
  why_tests_cant="The claim is about every node type and every position in it; a child skipped in one variant is invisible to tests of the others.",
  anchors=anchors([W + "cst.rs", W + "source.rs", W + "tokenize/token.rs"], [("Cst::visit, visit_mut, map_visit, into_owned_input, get_source", W + "cst.rs"), ("Span::between", W + "source.rs")], observe_at=["visited nodes, node spans"]),
  technique="abstract interpretation of the traversals' MIR on every node variant with symbolic parts; recursive calls by contract",
  level_note=TB + "Sequences of three parts stand for all lengths; the code treats them uniformly."),
 dict(id="P18", title="Aggregation removes exactly the trivia",
  statement="Aggregating a concrete syntax tree removes whitespace, newlines and comments and nothing else: every other node keeps its type, operator, error kind and source, and its children are its aggregated children in the same order.",
  quantifier=q("every token kind, every node type with every operator, every combination of children that are or are not trivia"),
  why_tests_cant="Over 400 token kinds and hundreds of operators; a kind wrongly treated as trivia, or a node type that loses a part, shows only for that kind.",
  anchors=anchors([W + "abstract_cst.rs", W + "cst.rs"], [("aggregate_cst", W + "abstract_cst.rs")], observe_at=["aggregated syntax trees"]),
  technique="abstract interpretation of aggregate_cst's MIR over every node variant, operator and token kind with symbolic children",
  level_note=TB + "Sequences of three children stand for all lengths; recursive calls by contract. A call head has one part besides trivia."),
 dict(id="P20", title="Abstraction builds the expression each construct denotes",
  statement="Abstracting an aggregated syntax tree gives, for every construct of the language, the expression it denotes: the right head, the operands in the right order (reversed for postfix application, Divisible and the like), negation and division turned into Times and Power with nested products flattened, chained inequalities, derivatives, slots, patterns, blanks, infix tilde chains, message names, parenthesised groups, commas and calls (including Part and TypeSpecifier, and calls or groups missing a closer or opener) resolved as documented; each result carries the source span of its construct, invalid constructs become the documented abstract syntax error, quirk settings change only the behaviour they name, and no well-formed tree makes abstraction panic.",
  quantifier=q("every operator of every node type, every token kind, every inequality operator, representative operands of every shape the implementation distinguishes, every token text, source and quirk setting"),
  why_tests_cant="Hundreds of operators times operand shapes times quirk settings; an operator swapped, an operand order reversed or a flattening rule wrong shows only for that combination.",
  anchors=anchors([W + "abstract_cst.rs", W + "abstract_cst/abstract_call_node.rs", W + "ast.rs", W + "quirks.rs"], [("abstract_", W + "abstract_cst.rs"), ("abstract_call_node", W + "abstract_cst/abstract_call_node.rs")], observe_at=["abstract syntax trees (parse_ast)"]),
  technique="abstract interpretation of abstract_'s MIR over every operator with symbolic token texts, sources and quirks; each path's result compared with the expression the construct denotes",
  level_note=TB + "Operands not inspected by the construct are represented by an empty list and by leaves; sequences up to 7 operands stand for all lengths. Box nodes are not covered."),
 dict(id="P19", title="Entry points deliver the whole result",
  statement="Every public entry point parses the caller's input once with the caller's options and gives back what the parser produced: the syntax, the encoding flag, the fatal and non-fatal issues and the tracked locations, unchanged and in order. The abstract-syntax entry points abstract every aggregated top-level expression, in order, with the caller's quirk settings; the single-expression entry points give exactly that one expression and never silently drop others; tokenize, parse_to_token and safe_string read as their mode says and never hide an encoding error; the character and token iterators yield each item as read, one at a time, and end exactly at the end of the input.",
  quantifier=q("every public entry point, every number of top-level expressions, every stringify mode, every result of the stages below"),
  why_tests_cant="Tests compare the syntax of a few inputs; a dropped issue list, a lost encoding flag, options not passed on or an iterator that ends early shows only for inputs that produce them.",
  anchors=anchors([W + "lib.rs", W + "iter.rs", W + "parse_cst.rs", W + "parse.rs"], [("parse_cst_seq / parse_ast_seq / parse_cst / parse_ast", W + "lib.rs"), ("expect_single_item / create_parse_result", W + "lib.rs"), ("parse_to_token / safe_string / tokenize", W + "lib.rs"), ("Iterator::next", W + "iter.rs")], observe_at=["ParseResult fields", "token and character iterators"]),
  technique="abstract interpretation of each entry point's MIR with the stage below replaced by its contract and every result field symbolic",
  level_note=TB + "Sequences of up to three top-level expressions stand for all lengths. The panic of the single-expression entry points on other numbers of expressions is documented behaviour."),
 dict(id="P21", title="Options control what they name, and calls are independent",
  statement="Each option setter changes its own option only; the defaults are the documented ones; integers from outside select the option value they document and others are rejected. A new reader, tokenizer or parser session takes every option from the caller and starts at the beginning of the input with no issues, no encoding flag, no open group and no context. Each quirk answers its own setting, every entry point sets the quirks from its options before anything can read them, and no other state survives from one call to the next.",
  quantifier=q("every option, every quirk, every history of earlier calls, every path from an entry point to a read of shared state"),
  why_tests_cant="Leaking state shows only after a particular sequence of calls with different options on one thread; tests use one set of options per call.",
  anchors=anchors([W + "lib.rs", W + "quirks.rs", W + "read.rs", W + "tokenize/tokenizer.rs", W + "parse.rs"], [("ParseOptions", W + "lib.rs"), ("is_quirk_enabled / set_quirks", W + "quirks.rs"), ("Reader::new", W + "read.rs"), ("Tokenizer::new", W + "tokenize/tokenizer.rs")], observe_at=["results of consecutive calls with different options"]),
  technique="abstract interpretation of setters and constructors; flow analysis over the call graph for reads of statics and thread-locals before their definite assignment",
  level_note=TB + "Shared state means statics, thread-locals, atomics and locks of this crate; the standard library is assumed to keep none that matters."),
 dict(id="P23", title="Source positions and spans relate as positions in the text do",
  statement="Two locations of the same kind compare as their positions in the text (line first, then column; or character index), locations of different kinds are incomparable, and spans and sources compare by their starts. A span contains exactly the locations from its start to its end, both included; two spans overlap exactly when some location lies in both, whichever is asked about the other; the intersection of two character spans is exactly the common part and one contains another exactly when both its ends lie inside. Building a span from two ends keeps both ends and rejects a start after the end, its parts and its kind give those ends back, and stepping to the next or previous location moves one column or one index.",
  quantifier=q("every pair of locations and every pair of well-formed spans, in either source convention"),
  why_tests_cant="Whether an edge case is right depends on which of up to eight numbers are equal, adjacent or ordered; tests sample a dozen combinations out of thousands.",
  anchors=anchors([W + "source.rs", W + "utils.rs"], [("Location / LineColumn / Span / LineColumnSpan / CharacterSpan", W + "source.rs"), ("intersection, is_interval_member", W + "utils.rs")], observe_at=["public source types", "sources of unterminated groups"]),
  technique="abstract interpretation of MIR in an order-type domain: every order type of the lines, columns and indices involved is one abstract input; every result compared with the relation on positions",
  level_note=TB + "Complete for code that compares positions and adds or subtracts small constants; well-formed spans; positions below 2^31."),
 dict(id="P25", title="File names, message tags, slot names and linear-syntax blobs are delimited as the language defines",
  statement="Where a file name, a message tag or a slot name is expected, and at a linear-syntax opener, the tokenizer reads exactly the text the language gives that place. After <<, >> and >>> an unquoted file name is the longest run of letters, digits and the characters $ ` / . \\ ! - _ : * ~ ?, together with bracket pairs enclosing anything but spaces and newlines (an unclosed pair is an unterminated file name; nothing usable is the expected-file error). After :: a tag is a quoted string or a letter or $ followed by the longest run of letters, digits and $, otherwise the expected-tag error. After # a letter, $ or context mark starts a slot name taken as one string token that extends like a symbol, and a quoted string is taken whole; after #, ## and % a digit starts the longest run of digits, taken as an integer. A linear-syntax blob runs from \\( to the balancing \\), with nesting, and is an unterminated blob when the input ends first.",
  quantifier=q("every ASCII input following the construct that expects such a token, with issue checking on or off, up to the stated number of characters"),
  why_tests_cant="The character sets have dozens of members and bracket and blob nesting interleaves with escapes; tests cover a handful of file names and tags.",
  anchors=anchors([W + "tokenize/tokenizer.rs"], [("Tokenizer_handleString_stringifyAsTag / stringifyAsFile / handleFileOpsBrackets / handleLinearSyntaxBlob", W + "tokenize/tokenizer.rs")], observe_at=["token kinds and texts"]),
  technique="trace-partitioned abstract interpretation of MIR over symbolic bytes; every path box compared with a reference lexer",
  level="other",
  level_note=TB + "Bounded by token length: 6 characters for file names, tags and slot names, 5 for slot and output numbers, 8 for blobs (one more in the thorough tier). Context marks in tags are not judged."),
]

NOT_APPLICABLE = []
