#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Inside a proc macro every API forwards to its proc_macro counterpart",
  "When the compiler backend is in use, every public operation on token streams, groups, idents, puncts, literals, spans and iterators has exactly the effect and result of the same-named proc_macro operation applied to the same arguments. In particular delimiters and spacings map to the variant of the same name in both directions, spans/characters/text are carried over unchanged, and no argument is dropped, swapped or altered.",
  ["inputs", "programs", "configurations"],
  "all arguments and all compiler-side values, in every cargo feature configuration that wraps proc_macro",
  "The test suite runs outside a procedural macro, so proc_macro::is_available() is false and no test ever executes the compiler branch of any operation.",
  ["src/wrapper.rs", "src/lib.rs", "src/extra.rs", "src/probe/"],
  [("per-operation dispatch on the backend", "src/wrapper.rs"), ("compiler span extension points", "src/probe/*.rs"), ("DelimSpan::new / join / open / close", "src/extra.rs")],
  ["public API of TokenStream, TokenTree, Group, Ident, Punct, Literal, Span, DelimSpan, IntoIter"])

p("C02", "Compiler-backed and fallback values are never silently mixed",
  "Constructors that take no other token pick the backend that is active now; an operation on an existing token stays in that token's backend. An operation that would need both backends at once panics (Span::join returns None, Span::eq returns false) and never silently converts, drops or ignores one of the two: a fallback token, stream or span given to a compiler-backed stream or token panics. The only permitted mixtures are those that keep both values intact: a compiler-backed token appended to a fallback stream is stored unchanged, idents are ordered by printed text, a Punct carries whichever span it is given, and converting a fallback stream to proc_macro::TokenStream parses its printed text.",
  ["inputs", "programs", "histories"],
  "every pair of backends of the operands of every binary operation, and either state of the active backend",
  "Compiler-backed values cannot be created in a unit test at all.",
  ["src/wrapper.rs"],
  [("mismatch() arms", "src/wrapper.rs"), ("unwrap_nightly / unwrap_stable", "src/wrapper.rs")],
  ["set_span, resolved_at, located_at, join, eq, extend, collect, Group::new, Ident ==, From conversions"])

p("C03", "Tokens appended to a compiler stream are never lost, duplicated or reordered",
  "For a compiler-backed token stream and any sequence of appending single tokens, appending whole streams, cloning, testing for emptiness, printing, iterating and converting to proc_macro::TokenStream, each observation sees exactly the tokens appended so far, once each and in order. Clones are independent, is_empty is true iff nothing has been appended, and observing through a shared reference changes nothing.",
  ["histories", "inputs"],
  "every history of up to four appends interleaved with every kind of observation",
  "Appending is batched only in the compiler backend, which no test can reach.",
  ["src/wrapper.rs"],
  [("DeferredTokenStream {stream, extra}", "src/wrapper.rs"), ("evaluate_now / into_token_stream", "src/wrapper.rs")],
  ["Extend<TokenTree>, Extend<TokenStream>, FromIterator, Display, IntoIterator, From<TokenStream>"],
  [("extra", "tokens not yet handed to the compiler stream", "src/wrapper.rs")])

p("C04", "Parsing under the compiler validates first and never propagates a panic",
  "Inside a procedural macro, parsing a string as a token stream or literal hands it to the compiler only if the fallback lexer accepts that same string; otherwise it returns Err without calling the compiler. A panic or error raised by the compiler's parser is returned as Err and a success is returned as the compiler's own value.",
  ["inputs", "fault_sequences"],
  "every string the fallback lexer rejects or accepts, and every outcome (success, error, panic) of the compiler's parser",
  "The compiler parser cannot be invoked from unit tests, and cannot be made to fail or panic on demand.",
  ["src/fallback.rs", "src/wrapper.rs"],
  [("FromStr2::from_str_checked: valid() then catch_unwind", "src/fallback.rs"), ("LexError::CompilerPanic", "src/wrapper.rs")],
  ["TokenStream::from_str, Literal::from_str, LexError::span"])

p("C05", "Backend selection follows availability, and force/unforce override it",
  "Operations use the compiler backend exactly when the compiler API is available at the time of first use or of the last unforce(), and use the fallback backend always after force() until unforce(). force() followed by unforce() restores detection; the decision is never inverted, never left undecided and never re-evaluated to a different answer between those calls. This holds for every interleaving of threads: operations that run concurrently have the outcome of running them in some order.",
  ["histories", "schedules"],
  "every sequence of up to four of {first use, force, unforce} and every answer of the compiler's availability query",
  "Tests run with availability fixed to false, so an inverted or stale decision looks identical.",
  ["src/detection.rs", "src/fallback.rs"],
  [("tri-state flag with Once initialisation", "src/detection.rs"), ("fallback::force / unforce", "src/fallback.rs")],
  ["fallback::force, fallback::unforce, Span::call_site, TokenStream::new"],
  [("WORKS", "0 undecided, 1 fallback, 2 compiler", "src/detection.rs")])

p("C06", "Token types cannot cross threads, but may cross unwind boundaries",
  "In every feature configuration, each public type that holds tokens or spans (TokenStream, TokenTree, Group, Ident, Punct, Literal, Span, LexError, DelimSpan and the token iterator) is neither Send nor Sync, so no safe program can use one on another thread. Each of them, and the plain enums Delimiter, Spacing and LineColumn, is UnwindSafe and RefUnwindSafe; the plain enums and LineColumn are Send and Sync.",
  ["programs", "configurations", "schedules"],
  "all safe programs; all feature configurations",
  "Tests assert a hand-written list that omits DelimSpan, LineColumn and the iterator, and only for the configuration being built.",
  ["src/marker.rs", "src/lib.rs", "src/extra.rs", "src/rcvec.rs"],
  [("ProcMacroAutoTraits marker field", "src/marker.rs"), ("_marker fields", "src/lib.rs")],
  ["auto traits of the public types"])

p("C07", "Clones and shared substreams are independent values",
  "Mutating, consuming, iterating or dropping one token stream, group or iterator never changes what any clone of it, any group built from it, or any stream obtained from a group shows. Iterating a stream yields exactly its tokens in order whether or not its storage is shared, and no token is leaked, duplicated or dropped twice.",
  ["histories", "programs"],
  "every history of clone, append, collect, group construction, iteration and drop over a small set of streams, with shared and unshared storage",
  "Sharing depends on the history of clones and drops; tests exercise a handful of histories with unshared storage.",
  ["src/rcvec.rs", "src/fallback.rs"],
  [("copy on write via Rc::make_mut / get_mut", "src/rcvec.rs"), ("take_inner with ManuallyDrop and ptr::read", "src/fallback.rs"), ("RcVecIntoIter", "src/rcvec.rs")],
  ["Clone, Extend, FromIterator, IntoIterator, Group::stream, Drop"],
  [("reference count of the token vector", "decides in-place mutation versus copy", "src/rcvec.rs")])

p("C08", "Stack use of parsing and dropping does not grow with nesting depth",
  "In the fallback backend, parsing source text and dropping the resulting token stream use an amount of call stack that does not depend on how deeply delimiters are nested or on how long the input is. No call cycle through the crate's own lexer or destructor code is driven by the nesting of the input.",
  ["inputs"],
  "every nesting depth and every input length",
  "One test uses one fixed depth of one delimiter kind; stack use elsewhere is not measured.",
  ["src/parse.rs", "src/fallback.rs"],
  [("explicit stack in the token loop", "src/parse.rs"), ("iterative Drop for the token stream", "src/fallback.rs"), ("depth counter in block comments", "src/parse.rs")],
  ["TokenStream::from_str, Literal::from_str, drop of TokenStream / Group / TokenTree / IntoIter"])

p("C09", "Lexing is total: every string gives Ok or Err, never a panic or hang",
  "Parsing any UTF-8 string as a token stream, and any string as a literal, terminates and returns Ok or Err. It never panics, never slices text off a character boundary, never overflows arithmetic and never loops without consuming input.",
  ["inputs"],
  "every UTF-8 string (up to the 4 GiB span limit)",
  "Tests try a few dozen inputs; the failing cases are particular characters (multi-byte, CR, end of input) at particular lexer states.",
  ["src/parse.rs", "src/fallback.rs"],
  [("character-boundary discipline of the cursor", "src/parse.rs"), ("Reject instead of panic", "src/parse.rs")],
  ["TokenStream::from_str, Literal::from_str"])

p("C10", "Delimiters must match and groups carry exactly their contents",
  "Source text is accepted only if every closing delimiter matches the most recent unclosed opening delimiter and nothing is left open; each accepted pair becomes one group with that delimiter whose stream is exactly the tokens between, in order. Every mismatch, stray closer or unclosed opener is an error.",
  ["inputs"],
  "all arrangements of the six delimiters and leaf tokens",
  "Tests cover a few arrangements.",
  ["src/parse.rs"],
  [("stack of open delimiters", "src/parse.rs")],
  ["TokenStream::from_str, Group::delimiter, Group::stream"])

p("C11", "Quoted literals are accepted exactly per Rust's lexical grammar",
  "String, raw string, byte string, C string, character and byte literals are accepted exactly when their escapes, raw delimiters, characters and line endings are valid for that kind (for instance: bare CR rejected in string-like literals, \\x above 7F rejected outside bytes, \\u only in str/char/C strings, NUL rejected in C strings, at most 255 #'s with matching count). A character or byte literal holds exactly one character or one escape (a single unescaped quote, tab or newline is tolerated). An accepted literal becomes one literal token whose text is exactly the source text including any suffix.",
  ["inputs"],
  "every character in every position of every kind of quoted literal, bodies of any length",
  "Each literal kind has its own hand-written loop; tests sample a few escapes per loop.",
  ["src/parse.rs"],
  [("cooked/raw string, byte, char, C string scanners", "src/parse.rs"), ("escape scanners", "src/parse.rs")],
  ["TokenStream::from_str, Literal::from_str, Literal::to_string"])

p("C12", "Numeric literals are split from source exactly per Rust's grammar",
  "Integers in bases 2, 8, 10 and 16, floats with dot and/or exponent, underscores and suffixes become one literal token covering exactly the characters rustc would take (so 1..2, 1.foo and 1.2.3 split at the same points), and digits invalid for the base or a missing digit are errors. A leading minus is accepted when parsing a single literal and only immediately before a digit.",
  ["inputs"],
  "digit strings of any length and every following character",
  "Tests sample a handful of numeric spellings.",
  ["src/parse.rs", "src/fallback.rs"],
  [("float / int / digits scanners", "src/parse.rs"), ("Literal::from_str_checked", "src/fallback.rs")],
  ["TokenStream::from_str, Literal::from_str"])

p("C13", "Identifiers: lexer and constructors agree on exactly the valid names",
  "A name is accepted by Ident::new iff it is _ or an XID_Start character followed by XID_Continue characters (with _ allowed first), and by Ident::new_raw iff additionally it is not one of _ super self Self crate; otherwise the constructor panics. The lexer turns exactly the maximal such name (optionally with r#) into one ident token with the same text, and prefixes of unfinished literals such as b\" or r#\" are never lexed as identifiers.",
  ["inputs"],
  "every Unicode character in first and later positions, names of any length",
  "Tests use a few ASCII names; XID classes cover more than 130,000 characters.",
  ["src/fallback.rs", "src/parse.rs"],
  [("validate_ident / validate_ident_raw", "src/fallback.rs"), ("ident scanners", "src/parse.rs")],
  ["Ident::new, Ident::new_raw, TokenStream::from_str, Ident::to_string"])

p("C14", "Punctuation, spacing and lifetimes are tokenised exactly",
  "Exactly the 22 Rust punctuation characters are accepted by the lexer and by Punct::new, and every other character is rejected. A lexed punctuation character is Joint iff the next character is another punctuation character that is not the start of a comment, and an apostrophe begins a lifetime (Joint apostrophe followed by an identifier) iff an identifier follows that is not closed by another apostrophe.",
  ["inputs"],
  "every Unicode character and every pair of adjacent characters",
  "Tests check a few operators.",
  ["src/parse.rs", "src/lib.rs"],
  [("punct / punct_char", "src/parse.rs"), ("Punct::new table", "src/lib.rs")],
  ["Punct::new, Punct::as_char, Punct::spacing, TokenStream::from_str"])

p("C15", "Whitespace and comments vanish; doc comments become attributes",
  "Whitespace (Unicode White_Space plus U+200E/U+200F), line comments and nested block comments produce no tokens and a leading byte order mark is ignored; unterminated block comments are errors. Inner and outer doc comments, and only those, become # [doc = \"text\"] (with ! for inner ones) carrying exactly the comment's text, with a bare carriage return rejected.",
  ["inputs"],
  "every character and comment body of any length, every comment opener and terminator",
  "Tests cover a handful of comment shapes.",
  ["src/parse.rs", "src/fallback.rs"],
  [("skip_whitespace, block_comment", "src/parse.rs"), ("doc_comment", "src/parse.rs"), ("byte order mark strip", "src/fallback.rs")],
  ["TokenStream::from_str"])

p("C16", "Text literal constructors produce literals that denote the given value",
  "Literal::string, character, byte_character, byte_string and c_string produce, for every argument, text that lexes as exactly one literal of that kind and denotes exactly the given characters or bytes. The same holds for doc attribute literals made from comments.",
  ["inputs"],
  "every character or byte, and every pair of adjacent characters or bytes",
  "Tests check a few escapes; the escape tables have per-character branches and a context-sensitive NUL rule.",
  ["src/fallback.rs"],
  [("escape_utf8", "src/fallback.rs"), ("byte escapes", "src/fallback.rs"), ("c_string UTF-8 splitting", "src/fallback.rs")],
  ["Literal::string, character, byte_character, byte_string, c_string, to_string, from_str"])

p("C17", "Numeric literal constructors print the exact value with the right suffix",
  "Each integer constructor yields the decimal form of its argument followed by exactly its type suffix, or by none if unsuffixed. Float constructors reject NaN and infinities by panicking, and otherwise yield the value's decimal form with its suffix, the unsuffixed ones always containing a decimal point.",
  ["inputs"],
  "all 24 integer and 4 float constructors, all values",
  "Tests call a few constructors with a few values and never pass a non-finite float.",
  ["src/lib.rs", "src/fallback.rs", "src/wrapper.rs"],
  [("suffixed / unsuffixed constructor macros", "src/fallback.rs"), ("finite assertions", "src/lib.rs")],
  ["Literal::*_suffixed, Literal::*_unsuffixed"])

p("C18", "Negative literals enter token streams as a minus sign plus a literal",
  "In the fallback backend, adding a literal token whose text starts with - to a stream by From, Extend or FromIterator inserts an Alone - punct followed by the literal without the sign, both with the literal's span. All other tokens, and tokens moved from one stream to another, are inserted unchanged, in order.",
  ["inputs", "histories"],
  "every way of inserting tokens and every kind of token",
  "Tests cover one insertion path.",
  ["src/fallback.rs"],
  [("push_token_from_proc_macro", "src/fallback.rs")],
  ["From<TokenTree>, Extend<*>, FromIterator<*>"])

p("C19", "Printing a stream shows every token, separated and delimited correctly",
  "In the fallback backend, Display of a token stream prints each token's text in order, with one space between tokens except directly after a Joint punct. Groups print their delimiters around their contents, braces as { ... } with inner spaces ({ } when empty) and None-delimited groups as their contents only.",
  ["inputs"],
  "all token kinds in all adjacent pairs and all delimiters",
  "Tests print a few streams.",
  ["src/fallback.rs", "src/lib.rs"],
  [("Display for TokenStream and Group", "src/fallback.rs")],
  ["TokenStream / TokenTree / Group / Punct / Ident / Literal Display"])

p("C20", "Spans of parsed tokens locate exactly the source text of the token",
  "With span locations on, every parsed token's span has the byte range, source text, line and column of exactly that token's characters in the parsed string; a group's span runs from its opening through its closing delimiter, and its open and close spans are those single characters. The span of an error in parsing a token stream points into the parsed input, and positions order by line, then column.",
  ["inputs"],
  "every mix of one- to four-byte characters, newlines and tokens",
  "Tests check a few ASCII positions; offsets mix characters and bytes.",
  ["src/parse.rs", "src/fallback.rs"],
  [("cursor offset in characters", "src/parse.rs"), ("char index to byte offset map", "src/fallback.rs"), ("line table", "src/fallback.rs")],
  ["Span::byte_range, source_text, start, end, Group::span_open, span_close, delim_span, LexError::span"])

p("C21", "Span algebra: join, subspan, resolved_at and located_at are exact",
  "With span locations on, join of two spans of the same parse covers exactly from the smaller start to the larger end and is None across different parses; subspan is Some exactly for in-bounds ranges and then covers exactly those characters. resolved_at keeps the receiver's location, located_at takes the argument's, and a literal's, ident's, punct's or group's span is the one last set.",
  ["inputs"],
  "all pairs of spans and all range bounds, including extreme values",
  "Tests join and subspan a couple of spans.",
  ["src/fallback.rs", "src/wrapper.rs", "src/lib.rs"],
  [("Span::join", "src/fallback.rs"), ("Literal::subspan with checked arithmetic", "src/fallback.rs")],
  ["Span::join, Literal::subspan, Span::resolved_at, Span::located_at, set_span, span"])

p("C22", "Parsed texts occupy disjoint span ranges until invalidated",
  "With span locations on, successive parses on a thread get disjoint ranges of source positions that never include the call site's position, so a span never reports text, position or file name of another parse. Call-site spans report no source text, no file and the empty byte range, and after invalidation later parses behave like the first; inside a procedural macro invalidation panics.",
  ["histories", "inputs"],
  "every history of up to three parses and invalidations",
  "Tests reuse one thread-local map in arbitrary order and check a couple of files.",
  ["src/fallback.rs", "src/extra.rs"],
  [("SourceMap add_file / find", "src/fallback.rs"), ("invalidate_current_thread_spans", "src/fallback.rs")],
  ["Span::file, source_text, byte_range, start, end, extra::invalidate_current_thread_spans"],
  [("source map", "per-thread list of parsed texts with their position ranges", "src/fallback.rs")])

p("C23", "Ident equality, ordering, hashing and string comparison agree",
  "Two identifiers are equal iff their printed forms (including r#) are equal; ordering and hashing are those of the printed form, ignoring spans. Comparing an identifier with a string is true iff the printed form equals the string.",
  ["inputs"],
  "all pairs of raw/plain identifiers and strings, either backend",
  "Tests compare a few identifiers, always in the fallback backend.",
  ["src/lib.rs", "src/fallback.rs", "src/wrapper.rs"],
  [("PartialEq / Ord / Hash impls", "src/lib.rs"), ("raw flag in fallback ident", "src/fallback.rs")],
  ["Ident: PartialEq, PartialEq<T>, Ord, PartialOrd, Hash, Display"])

p("C24", "Value accessors decode literals exactly and reject other kinds",
  "With the semver-exempt API, str_value, cstr_value and byte_str_value return exactly the characters or bytes a cooked or raw literal of their kind denotes (C strings with a trailing NUL), report escape errors and bare carriage returns as FailedToUnescape, and return InvalidLiteralKind for every literal of another kind or with a suffix. They never panic.",
  ["inputs", "configurations"],
  "every escape and every character class in each literal kind",
  "Tests run without the semver-exempt configuration, and sample a few literals when it is on.",
  ["src/lib.rs", "src/rustc_literal_escaper.rs", "src/num.rs"],
  [("unescape functions", "src/rustc_literal_escaper.rs"), ("get_raw", "src/lib.rs")],
  ["Literal::str_value, cstr_value, byte_str_value"])

p("C25", "Panics of ident constructors point at the caller",
  "Every panic raised by Ident::new or Ident::new_raw for an invalid name is attributed to the source location of the call to that constructor, in either backend configuration.",
  ["programs", "configurations"],
  "all call sites and all invalid names",
  "No test inspects panic locations.",
  ["src/lib.rs", "src/fallback.rs", "src/wrapper.rs"],
  [("#[track_caller] chain", "src/lib.rs, src/wrapper.rs, src/fallback.rs")],
  ["Ident::new, Ident::new_raw"])

p("C26", "Printing and re-parsing a parsed stream gives the same tokens",
  "For every string the fallback lexer accepts, printing the resulting stream and parsing the output succeeds and gives the same tree of tokens with the same delimiters, texts, characters and spacings (lone Joint puncts at a boundary excepted).",
  ["inputs"], "every accepted string",
  "Tests round-trip a few sources.",
  ["src/fallback.rs", "src/parse.rs"],
  [("Display for TokenStream", "src/fallback.rs"), ("lexer", "src/parse.rs")],
  ["TokenStream::from_str, TokenStream::to_string"])

p("C27", "Accepted inputs tokenise as rustc would tokenise them",
  "For every string accepted by both, the fallback lexer produces the same token trees as the compiler's own lexer.",
  ["inputs"], "all strings accepted by both lexers",
  "rustc's lexer is not part of this repository, and tests compare nothing against it.",
  ["src/parse.rs"], [("lexer", "src/parse.rs")], ["TokenStream::from_str"])

p("C28", "Debug output identifies the token and its span",
  "Debug output of every token and stream names the token kind and shows its text, delimiter, character and spacing, and shows the span only when it is not the call site in the fallback backend.",
  ["inputs", "configurations"], "all tokens, both backends",
  "Tests compare the Debug text of one fixed stream.",
  ["src/lib.rs", "src/fallback.rs"], [("Debug impls", "src/fallback.rs")], ["Debug of all public types"])

p("C29", "Tokens and streams carry exactly what they were built from",
  "In the fallback backend a token shows exactly the delimiter, stream, character, spacing, text or value it was built from, and a stream exactly the tokens it was built from, in order, whichever constructor, conversion, collection, clone or iterator was used; is_empty is true iff there is no token and an iterator's size hint is exact. Setting a span changes nothing but the token's own span, and span, set_span and Display of a TokenTree are those of the token in it.",
  ["inputs", "histories"], "all tokens and all ways to build streams",
  "Tests look at a few tokens.",
  ["src/lib.rs", "src/fallback.rs", "src/wrapper.rs", "src/rcvec.rs"], [("TokenTree, From and IntoIterator impls", "src/lib.rs"), ("Group, Punct, TokenStream, TokenStreamBuilder", "src/fallback.rs"), ("Fallback arms", "src/wrapper.rs")], ["Group::new, Punct::new, TokenTree::span, TokenTree::set_span, TokenStream::into_iter, TokenStream::is_empty"])

open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
