"""Which obligations decide which property, in which build configurations of /repo."""
NIGHTLY = "--cfg pm2_nightly"                                        # every compiler extension probed by build.rs is on
STABLE = "-Zallow-features=try_trait_v2,pattern"            # as a stable compiler would configure the crate
EXEMPT = "--cfg pm2_nightly --cfg procmacro2_semver_exempt"
TRUSTED = ["rustc's type checker, trait solver and MIR construction", "the models of standard library and proc_macro operations in /verif/analyzer/src/{native,pm,vp}.rs", "the reference functions in /verif/harness/src"]
ASSUME = ["standard library operations behave as modelled in analyzer/src/native.rs", "the proc_macro API is uninterpreted: each operation is a function of its arguments, and a token stream is the sequence of its trees"]
def fb(*obs, **kw): return dict(dict(name="fallback", features="", flags=STABLE, obligations=list(obs)), **kw)
def fbl(*obs, **kw): return dict(dict(name="fallback+spans", features="span-locations", flags=STABLE, obligations=list(obs)), **kw)
def pm(*obs, **kw): return dict(dict(name="compiler", features="proc-macro", flags=STABLE, obligations=list(obs)), **kw)
def pml(*obs, **kw): return dict(dict(name="compiler+spans", features="proc-macro,span-locations", flags=STABLE, obligations=list(obs)), **kw)
def pmn(*obs, **kw): return dict(dict(name="compiler-nightly", features="proc-macro", flags=NIGHTLY, obligations=list(obs)), **kw)
def pmnl(*obs, **kw): return dict(dict(name="compiler-nightly+spans", features="proc-macro,span-locations", flags=NIGHTLY, obligations=list(obs)), **kw)
def pmx(*obs, **kw): return dict(dict(name="compiler-exempt", features="proc-macro,span-locations", flags=EXEMPT, obligations=list(obs)), **kw)
def fbx(*obs, **kw): return dict(dict(name="fallback-exempt", features="span-locations", flags=EXEMPT, obligations=list(obs)), **kw)

def obs(id):
    """The quick obligations of a property."""
    import re, os
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
    src = "".join(open(os.path.join(d, f)).read() for f in (id.lower() + ".rs", "size.rs"))
    return [n for n in re.findall(r"pub fn (ob_c\d\d_\w+)", src) if "_deep_" not in n and n.startswith("ob_" + id.lower())]
PLAN = {}
def prop(id, rule, configs, level="other", technique="abstract interpretation of MIR", **kw):
    PLAN[id] = dict(dict(rule=rule, configs=configs, level=level, technique=technique), **kw)

ALLPM = [pm, pml, pmn, pmnl, pmx]
prop("C01", "The compiler's API is an uninterpreted term algebra (a token stream is the sequence of its trees). Every public operation is interpreted over MIR on arbitrary compiler values, and its result must be the very term that the same-named proc_macro operation gives for the same arguments.",
     [f("ob_c01") for f in ALLPM], technique="abstract interpretation of MIR over an uninterpreted proc_macro API", floor=1)
prop("C02", "Every operation that combines two values is interpreted over MIR for both orders of backends and both active backends: the mixed pairs must end in a panic edge (or None / false where the API says so), the backend of every constructed, derived, cloned or moved value is read off its abstract value, and converting a fallback stream must be the compiler's parse of its printed text.",
     [f("ob_c02") for f in ALLPM], technique="backend typestate by abstract interpretation of MIR", floor=1)
prop("C03", "A compiler stream is abstracted to the sequence of the trees handed to the compiler, with arbitrary sub-streams as symbols. Every history of up to three appends, clones, collections, conversions and observations (13 kinds, 4 starting points), histories without symbols up to four steps with iteration, and long batches are interpreted and compared with the sequence algebra.",
     [f("ob_c03") for f in (pm, pmnl, pmx)], technique="abstract interpretation of MIR over the free monoid of tokens", floor=1)
prop("C04", "The compiler's parser is an uninterpreted function that may succeed, fail or panic. For every text of up to two arbitrary characters (partitioned by character class) and texts of every token form, both verdicts of the fallback lexer and all three of the compiler are followed: a rejected text must reach no compiler parser call, a panic edge must not leave, and the returned value must be the compiler's own term.",
     [f("ob_c04") for f in (pm, pml, pmx)], technique="path-sensitive effect analysis by abstract interpretation of MIR", floor=1)
prop("C05", "All histories of up to six uses, force(), unforce() and changes of availability are interpreted against the two-state specification, with seven kinds of use. For two operations on one thread, an operation of another thread (with its own availability) is interposed before every access to shared state (atomics, Once, is_available); the outcome must be that of one of the two orders.",
     [f("ob_c05") for f in (pm, pmnl)], technique="typestate analysis by abstract interpretation of MIR", floor=1)
prop("C06", "Each public type is asked for Send, Sync, UnwindSafe and RefUnwindSafe through the compiler's trait solver (a constant that selects an inherent item iff the bound holds); the obligation compares the answers with the property, in each configuration.",
     [fb("ob_c06"), fbl("ob_c06"), pm("ob_c06"), pmnl("ob_c06"), pmx("ob_c06")], level="proof", technique="type-level trait queries (auto traits of every public type, per configuration)", floor=200)
prop("C07", "Streams over numbered literals are interpreted against a value model (vectors of vectors): every history of three operations out of 17 (append, clone, take, group, substream, iterate, clone an iterator, collect, swap, drop, ...) from three starting points (empty, built, parsed), observed by printing and by iteration; four operations in the thorough tier. The abstract heap counts allocations: running the same history again must leave the same number, and a use of a freed or moved slot is an error of the interpreter.",
     [fb("ob_c07_h", "ob_c07_f", "ob_c07_dr", "ob_c07_size"), pml("ob_c07_h", "ob_c07_f", "ob_c07_dr", "ob_c07_size"), fb("ob_c07_deep", tier="thorough", seconds_thorough=600)], technique="ownership and aliasing analysis by abstract interpretation of MIR (value model of streams)", floor=1)
prop("C08", "(1) The monomorphic call graph below the fallback parser (calls, closures, function pointers; drop glue excluded) contains no cycle through the crate. (2) The abstract interpreter, which tracks the depth of the MIR call stack, gives the same maximum for nesting depths 3 and 7 of every delimiter pattern (with siblings before, after and around the inner group, in accepted and rejected texts and in comments), for short and long tokens, and for every way of building, sharing and dropping a nested stream, so no cycle is driven by nesting or length.",
     [fb("ob_c08"), fbl("ob_c08"), pm("ob_c08_mixed")], technique="call-graph recursion analysis plus call-depth abstract interpretation of MIR", floor=800)
prop("C16", "For strings of up to three arbitrary characters (and bytes, and C strings), partitioned by the character classes the code tests, the constructed literal's text is decoded by an independent decoder of Rust's literal grammar (analyzer/src/decode.rs): it must give the characters back, and the text must be accepted by the lexer as one literal.",
     [fb("ob_c16"), pml("ob_c16")], technique="abstract interpretation of MIR over class-partitioned characters, with an independent decoder", floor=1)
prop("C17", "The constructors are interpreted on an arbitrary value of each type; the printed text must be the term Display(value), with the type's name for the suffixed ones and '.0' where the text has no point; a non-finite float must end in a panic edge.",
     [fb("ob_c17"), pml("ob_c17")], technique="abstract interpretation of MIR over uninterpreted number texts", floor=1)
prop("C18", "Negative and other literals enter a stream through every public route (From, Extend of trees and streams, FromIterator, shared and unshared); the trees that come out are compared with the specification, for the position, spacing, span and text, and for every i32 by its sign.",
     [fb("ob_c18"), pml("ob_c18")], technique="abstract interpretation of MIR over every route into a stream", floor=1)
prop("C19", "Sequences and nests of tokens over all kinds, spacings and delimiters (with arbitrary punctuation characters) are interpreted through Display and compared with a reference printer.",
     [fb(*obs("C19")), pml(*obs("C19")), fb("ob_c19_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR against a reference printer", floor=1)
prop("C23", "Eq, Ord, Hash, Display of idents and comparison with strings are interpreted over pairs of names, raw flags and spans, over long names, arbitrary one-character names and arbitrary strings of up to five characters, and compared with those of the printed forms.",
     [fb("ob_c23"), pml("ob_c23")], technique="abstract interpretation of MIR over class-partitioned characters", floor=1)
prop("C24", "The value accessors are interpreted on parsed or unchecked literals whose body is arbitrary text of up to two characters (thorough: three), arbitrary escapes, every shape of hex and unicode escape at the boundaries, string continuations, raw literals, every other kind of literal, and constructed literals; each result is compared with what the body denotes by the language reference.",
     [fbx(*obs("C24")), pmx(*obs("C24")), fbx("ob_c24_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR over class-partitioned characters", floor=1)
prop("C26", "Every text of up to two arbitrary characters (partitioned by character class; thorough: three), all pairs and triples of token forms with and without space, arbitrary literal bodies, numbers, doc comments and delimiter sequences is parsed, printed and parsed again in the abstract, and the two trees are compared token by token.",
     [fb(*obs("C26")), pml(*obs("C26")), fb("ob_c26_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR over class-partitioned characters", floor=1)
prop("C25", "Every panic edge reachable in the ident constructors, for every name of up to three arbitrary characters (partitioned by character class) and the reserved names, is attributed with rustc's track_caller rule; the attributed frame must be the constructor's caller.",
     [fb("ob_c25"), fbl("ob_c25"), pm("ob_c25")], level="proof", technique="caller-location propagation over MIR panic paths", floor=1200)
prop("C09", "The parsers are interpreted on arbitrary strings of up to two characters (literals: three), on every kind of opening followed by up to two arbitrary characters (so the text ends at every point of every form), on long runs and on raw strings at the limit of the # counter; characters are partitioned by the classes the code tests. Every panic edge (slicing, arithmetic, unwrap) that stays feasible is a violation, and so is a path of 3 million MIR steps (the clean tree needs a tenth of that). Three characters in the thorough tier.",
     [fb(*obs("C09")), pml(*obs("C09")), fb("ob_c09_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR: panic-edge reachability over class-partitioned characters", floor=1)
prop("C10", "Every arrangement of up to four of the six delimiters and two leaf tokens, of six delimiters, a pair of any two delimiters inside up to nine matching pairs, deep nests with one closer missing, doubled or of another kind, delimiters hidden in literals and comments, and long contents are interpreted through the parser and compared with the reference lexer in harness/src/reflex.rs (an independent, position-based statement of the grammar): verdict, delimiters, nesting and contents.",
     [fb(*obs("C10")), pml(*obs("C10")), fb("ob_c10_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR against a reference lexer", floor=1)
prop("C11", "Bodies of arbitrary characters (partitioned by the classes the code tests) in twelve kinds of quotes, every escape with arbitrary characters, Unicode escapes with an arbitrary digit in every position, line endings and continuations, raw delimiters up to 257 #'s, suffixes and long bodies are interpreted through TokenStream::from_str and Literal::from_str and compared with the reference lexer in harness/src/reflex.rs (an independent, position-based statement of the grammar).",
     [fb(*obs("C11")), pml(*obs("C11")), fb("ob_c11_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR against a reference lexer", floor=1)
prop("C12", "Digits followed by arbitrary characters, all sequences of three over the 16 pieces numbers are made of, after every base, exponent and dot prefix, signs and long digit strings are interpreted through both parsers and compared with the reference lexer in harness/src/reflex.rs (an independent, position-based statement of the grammar).",
     [fb(*obs("C12")), pml(*obs("C12")), fb("ob_c12_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR against a reference lexer", floor=1)
prop("C13", "Ident::new, Ident::new_raw and the lexer are interpreted on names of arbitrary characters (partitioned by XID_Start and XID_Continue), on reserved and literal-like names and on long ones; acceptance, panics, texts and token boundaries are compared with the specification and the reference lexer in harness/src/reflex.rs (an independent, position-based statement of the grammar).",
     [fb(*obs("C13")), pml(*obs("C13")), fb("ob_c13_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR against a reference lexer", floor=1)
prop("C14", "Punct::new is interpreted on an arbitrary character; the lexer on arbitrary characters alone, after an arbitrary punctuation character, on slashes and stars, and on apostrophes followed by arbitrary characters; characters and spacings are compared with the reference lexer in harness/src/reflex.rs (an independent, position-based statement of the grammar).",
     [fb(*obs("C14")), pml(*obs("C14")), fb("ob_c14_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR against a reference lexer", floor=1)
prop("C15", "An arbitrary character between tokens, byte order marks, every comment opener followed by arbitrary characters and terminators, nesting, carriage returns and long bodies are interpreted through the parser; tokens and the decoded text of doc attributes are compared with the reference lexer in harness/src/reflex.rs (an independent, position-based statement of the grammar).",
     [fb(*obs("C15")), pml(*obs("C15")), fb("ob_c15_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR against a reference lexer", floor=1)
prop("C20", "For arbitrary strings of up to two characters, sequences over 24 tokens, separators and comments with one- to four-byte characters, nested groups, deep nests, long texts of many lines and an arbitrary character in between, every span's byte range, source text, start and end (asked in three orders, to cover the offset cache) are compared with the positions of the reference lexer in harness/src/reflex.rs (an independent, position-based statement of the grammar); error spans must lie in the text.",
     [fbl(*obs("C20")), pml(*obs("C20")), fbl("ob_c20_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR against a reference lexer", floor=1)
prop("C21", "join is interpreted on every pair of spans (tokens, contents, delimiters, at every depth) of several texts, on joined spans again, and across texts; subspan on arbitrary usize bounds of every kind, compared with exact integer arithmetic; resolved_at, located_at and set_span on every token kind.",
     [fbl(*obs("C21")), pml(*obs("C21"))], technique="abstract interpretation of MIR (arbitrary integer bounds)", floor=1)
prop("C22", "Every history of up to three parses (seven stream texts, four literals, including rejected ones) and invalidations, and longer runs, are interpreted; after each step every live span must report its own text and position, join with no other parse, and the call site must report nothing.",
     [fbl(*obs("C22")), pml(*obs("C22"), "ob_c22_compiler"), fbl("ob_c22_deep", tier="thorough", seconds_thorough=300)], technique="abstract interpretation of MIR over histories of parses", floor=1)
prop("C28", "Debug of every kind of token, of streams of up to three tokens inside and outside groups, of every punctuation character and of parsed tokens with and without their span is interpreted (the core::fmt builders are replaced by plain models, in both the plain and the pretty form) and searched for the kind, text, delimiter, character, spacing, tokens in order, and the span.",
     [fb("ob_c28"), pml("ob_c28"), pmnl("ob_c28_compiler")], technique="abstract interpretation of MIR", floor=1)
prop("C29", "Every kind of token, every punctuation character and spacing, every delimiter around three contents, and streams of up to three tokens built by seven routes, cloned, shared and iterated step by step, are interpreted; what accessors, Display, is_empty and size_hint show must be what was given, before and after set_span.",
     [fb("ob_c29"), fbl("ob_c29"), pml("ob_c29")], technique="abstract interpretation of MIR against a value model", floor=1)
NA = {
 "C27": "quantifies over the behaviour of rustc's own lexer, which is not in this repository; C10-C15 instead decide the grammar this lexer implements against an explicit reference",
}
