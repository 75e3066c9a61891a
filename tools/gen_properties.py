#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
ALL = ["src/lib.rs","src/macros.rs","src/whitespace.rs","src/common.rs","src/term.rs","src/types.rs","src/literal.rs",
       "src/argument.rs","src/attribute.rs","src/dictionary.rs","src/interface.rs","src/mixin.rs","src/namespace.rs"]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Every valid document is accepted whole",
  "For every document derivable from the documented WebIDL grammar, whatever its length, the number of items in its lists or the depth of its nesting (as far as the call stack reaches), parsing the document succeeds and returns exactly one entry per definition, in source order. A document with no definitions (empty, or only whitespace and comments, including a last comment line without a newline) is valid and returns no entries.",
  ["inputs"],"all documents of the documented grammar, all sizes and nesting depths",
  "The tests parse six fixed files and about eighty fixed snippets; the grammar is infinite and its productions interact through ordered choice, so an untested combination, size or nesting can stop being accepted without any test noticing.",
  ALL,[("whole-document parser","src/lib.rs parse / Definitions"),("ordered choice over definition kinds","src/lib.rs enum Definition via __ast_enum @build_parse"),("repetition","src/common.rs Vec<T>, Punctuated, PunctuatedNonEmpty")],
  ["weedle::parse result","<Definitions as Parse>::parse result"])

p("C02","Definitions and members are reported as what was written",
  "For every valid document, each definition and each interface, mixin, namespace, dictionary and enum member appears in the result under the kind it was written as, with its own name, inheritance, values, member list and order, and with exactly the modifiers written on it (partial, mixin, callback, readonly, static, stringifier, inherit, required, async, and the special-operation keyword). Optional parts that were not written are reported as absent.",
  ["inputs"],"all valid documents; all definition and member forms and all combinations of their optional parts",
  "Tests check the kind and one or two fields of a single example per production; ordered alternatives that overlap on some prefix (operation/attribute, interface/mixin, callback/callback interface, single/double iterable) can be confused on combinations no test holds.",
  ["src/lib.rs","src/interface.rs","src/mixin.rs","src/namespace.rs","src/dictionary.rs","src/macros.rs"],
  [("field-by-field sequence parsers","src/macros.rs __ast_struct @build_parser"),("ordered choice with From::from","src/macros.rs __ast_enum @build_parse")],
  ["public fields and variants of the returned definitions"])

p("C03","Types are reported with exactly the structure written",
  "For every type expression in every position where a type may be written, the reported type has the kind, signedness, restriction, nullability, generic parameters, union members (in order), attributes and nesting that was written. A word that merely starts with or resembles a built-in type name is reported as an identifier type.",
  ["inputs"],"all type expressions of the documented grammar, arbitrarily nested, in every position",
  "Tests check only the outermost variant of one text per built-in type; nesting, nullability at inner levels, unions inside generics, record keys and multi-word integer types under arbitrary spacing are not sampled.",
  ["src/types.rs","src/term.rs","src/common.rs"],
  [("ordered choice over types","src/types.rs NonAnyType, Type, UnionMemberType, ConstType, ReturnType, RecordKeyType"),("nullable suffix","src/types.rs MayBeNull"),("word boundary","src/term.rs ident_tag!")],
  ["public type fields and variants of the result"])

p("C04","Literals keep their kind and their exact text",
  "For every constant value and default value, the reported literal has the kind that was written (decimal, hexadecimal or octal integer, floating point, infinity of either sign, NaN, boolean, null, string, empty list, empty dictionary) and carries exactly the characters written, strings without their quotes and otherwise unchanged. Numeric text is always taken to its longest match under the documented token patterns, so a text that is not one whole literal (bare 0x, 08, 1e, a lone point or sign, an unterminated string) is never taken for one.",
  ["inputs"],"all literal spellings, all positions where a literal may stand, all strings over Unicode",
  "A couple of dozen spellings are tested; the patterns accept infinitely many and overlap on prefixes (integer/float/octal/hex), and strings may hold any character.",
  ["src/literal.rs","src/interface.rs","src/common.rs"],
  [("token patterns","src/literal.rs DecLit, HexLit, OctLit, FloatValueLit, StringLit"),("ordered choice float-before-integer","src/literal.rs DefaultValue, ConstValue")],
  ["literal fields of the result","standalone literal parsers"])

p("C05","Extended attributes are reported where and as written",
  "Wherever the grammar allows an extended attribute list (on a definition, member, argument, type or union member), the list is attached to exactly that element with all its attributes in order, each in the form written: plain, = identifier, = string, = *, = (identifier list), (arguments), or = name(arguments). An element written without a list reports none.",
  ["inputs"],"all positions, all attribute forms, all list lengths and nestings",
  "Tests check each form once, standalone, and one attribute on one constructor; attachment to the right element and the separation of overlapping forms in all positions is not sampled.",
  ["src/attribute.rs","src/argument.rs","src/types.rs","src/lib.rs","src/interface.rs","src/mixin.rs","src/namespace.rs","src/dictionary.rs"],
  [("ordered choice over attribute forms","src/attribute.rs ExtendedAttribute"),("optional list first in every production","attributes: Option<ExtendedAttributeList>")],
  ["attributes fields of the result"])

p("C06","Argument lists are reported argument by argument",
  "For every argument list of a callback, operation, constructor, async iterable or attribute, the result lists every argument in order with its type, name, optional marker, default value and variadic marker exactly as written; names may be any word, including keywords usable as argument names. A default value is taken only for an argument marked optional.",
  ["inputs"],"all argument lists, all lengths and argument forms",
  "Tests hold single arguments of four shapes and lists of length one and two.",
  ["src/argument.rs","src/common.rs","src/literal.rs"],
  [("single versus variadic choice","src/argument.rs Argument"),("conditional default","src/argument.rs SingleArgument.default cond!"),("separated list","src/common.rs Punctuated")],
  ["argument fields of the result"])

p("C07","Accepted text is neither dropped, invented nor reordered",
  "For every text that any of the parsers accepts, valid or not, writing the result back out token by token gives exactly the sequence of tokens in the accepted text: comments and whitespace aside, only the leading underscore of an escaped name and a trailing comma of an enum list are not represented. In particular no token of the text is skipped and none is taken twice.",
  ["inputs"],"every accepted text over every public parser",
  "Tests compare selected fields of selected snippets; whether anything was silently swallowed is never checked on any input.",
  ALL,[("every token is a field of the result","src/macros.rs __ast_struct, src/term.rs"),("separators are implied by list length","src/common.rs Punctuated")],
  ["(input, result) pairs at every public parser"])

p("C08","Text outside the grammar is rejected with an error",
  "For every text that is not derivable from the documented grammar, even when every keyword is allowed as a name, parsing the document returns an error value: never a result, never a partial result and never a panic. The error carries the part of the caller's text that was not parsed, starting at the first definition that could not be parsed.",
  ["inputs"],"all texts outside the grammar, in particular every small edit of valid documents",
  "There is one negative test in the whole suite (an empty list); over-acceptance and misreported error positions are invisible to the rest.",
  ALL,[("end-of-input check","src/lib.rs parse"),("mandatory terminals","src/macros.rs __ast_struct @build_parser"),("separated lists reject stray separators","src/common.rs Punctuated, PunctuatedNonEmpty")],
  ["weedle::parse error value"])

p("C09","No input makes any parser panic, crash or misbehave",
  "For every sequence of Unicode characters handed to any public parser, the parser returns normally with a result or an ordinary recoverable error: it never panics, never exhibits undefined behaviour or reads outside the text, and never reports the complete text it was given as incomplete.",
  ["inputs"],"all Unicode texts, all public parsers",
  "Tests feed well-formed ASCII only; hostile, truncated and multi-byte inputs are unbounded.",
  ALL,[("complete (non-streaming) combinators","src/macros.rs tag!, take_while!, take_until!, one_of!, char!"),("no unsafe code, str slicing on char boundaries","src/term.rs ident_tag!, src/common.rs, src/literal.rs")],
  ["return of every public parser","ASan / Miri reports"])

p("C10","Whitespace and comments never change the result",
  "Between any two tokens, before the first and after the last, any run of spaces, tabs, carriage returns, newlines, line comments and block comments with any content (including none at all where the tokens do not run together) may be inserted, removed or replaced without changing whether a text is accepted or the result. Comment openers inside string literals are part of the string, and an unterminated block comment is never skipped.",
  ["inputs"],"all documents, all token gaps, all comment contents",
  "A handful of tests put spaces or one comment before a snippet; comments inside productions, adjacent comments, hostile comment contents and zero-space forms are not sampled.",
  ["src/whitespace.rs","src/term.rs","src/common.rs","src/literal.rs","src/lib.rs"],
  [("trivia skipper","src/whitespace.rs sp"),("trivia around every token","src/whitespace.rs ws!")],
  ["results of two renderings of the same token sequence"])

p("C11","Words are split at token boundaries, keywords never inside names",
  "Every keyword and punctuation terminal is recognised exactly where its own text stands: a keyword only as a whole word (never as the beginning of a longer word continued by a letter, digit, underscore or hyphen), in exact case. A name is the longest run matching an optional underscore, a letter, then letters, digits, underscores and hyphens; exactly one leading underscore is removed, so an escaped keyword is an ordinary name in every position.",
  ["inputs"],"all terminals, all neighbouring characters, all names",
  "Each terminal is tested alone, followed by spaces or end of input; what follows or precedes it directly, near-miss words and escaped keywords are not.",
  ["src/term.rs","src/common.rs"],
  [("word boundary check","src/term.rs ident_tag!"),("name pattern","src/common.rs Identifier"),("terminal table and term! macro","src/term.rs generate_terms, generate_terms_for_names, term!")],
  ["each terminal parser, identifier parser, term! values"])

p("C12","Every grammar element parses alone as it does in a document",
  "For every public grammar element, parsing a text that starts with a complete instance of it returns that instance and, as rest, exactly the caller's text after it with leading whitespace and comments removed; the instance is the same one a surrounding document would contain. What follows a complete instance never changes it unless it can continue it, and when an element is refused the error position lies inside the caller's text.",
  ["inputs"],"all public elements, all instances, all following texts",
  "Tests check the rest for trivial followers on a few elements; agreement between standalone and embedded parsing is never checked.",
  ALL,[("Parse trait contract","src/lib.rs trait Parse"),("generic wrappers","src/common.rs Option, Box, Vec, tuples, Parenthesized, Bracketed, Braced, Generics, Punctuated")],
  ["(rest, value) of every public Parse implementation"])

p("C13","Parsing composes: documents can be joined, split and reordered",
  "For any two accepted documents, the document formed by writing one after the other (on separate lines) is accepted and its result is the first result followed by the second; likewise for members inside a body. Hence the result for a definition or member does not depend on its neighbours or its position, and renaming a name consistently changes only that name in the result.",
  ["inputs"],"all pairs and sequences of accepted documents and members",
  "A metamorphic relation over pairs of inputs; the tests look at single inputs.",
  ["src/lib.rs","src/common.rs","src/interface.rs","src/dictionary.rs","src/namespace.rs","src/mixin.rs"],
  [("definition loop","src/common.rs Vec<T> many0"),("no state across elements","src/macros.rs")],
  ["results of parts versus result of the whole"])

p("C14","Parsing is a pure function of the text",
  "Parsing the same text gives the same outcome every time: in any thread, concurrently with any other parses, after any history of successful and failed parses in the process, and wherever the text lies in memory. Concurrent parses never race, and results can be sent to and shared between threads.",
  ["schedules","histories","inputs"],"all call histories, all thread interleavings, all buffers",
  "Each test parses once in a fresh state and checks its own result; repeated and concurrent use is not exercised as such.",
  ALL,[("no global or thread-local state","whole crate"),("plain owned/borrowed data in results","src/macros.rs derive lists")],
  ["outcome digests across threads and histories","ThreadSanitizer reports"])

p("C15","Work, memory and stack stay proportional to the text",
  "As a text grows by repeating or nesting constructs, accepted or not, the work done and the memory allocated by parsing it grow in proportion to its length, never quadratically or exponentially. Call-stack use depends on nesting only, so a flat document of any length parses on a small stack.",
  ["inputs"],"all ways of growing a text by repetition or nesting",
  "Tests never measure work, and their inputs are too small and shallow for backtracking blow-up or per-item recursion to show.",
  ALL,[("alternatives fail fast on their first token","src/macros.rs alt! in @build_parse"),("loops, not recursion, for repetition","src/common.rs many0!, separated_list!")],
  ["executed basic-block edges, instructions, bytes allocated, stack depth per parse"])

p("C16","Reported texts are the caller's own text, in order",
  "Every name, number and string content in a result is a slice of the caller's text at the very place where it was written: within the text, on character boundaries, in source order and without overlap. The unparsed rest and error positions are likewise suffixes of the caller's text.",
  ["inputs"],"all accepted texts, all buffers",
  "Tests compare contents, never positions; equal words at several places make contents insufficient to tell which occurrence was reported.",
  ["src/common.rs","src/literal.rs","src/macros.rs","src/lib.rs"],
  [("borrowed results","&'a str fields of Identifier, StringLit, number literals"),("recognize!","src/common.rs, src/literal.rs")],
  ["addresses of slices in results relative to the input buffer"])

p("C17","Results compare, order, hash, clone and print as values",
  "Two results are equal exactly when they have the same structure and texts, whatever the whitespace or memory they came from; ordering is a total order consistent with equality, equal results hash alike, a clone equals its original, and unequal results print differently in debug form. Converting a node into the sum type above it yields the variant for that node's kind with the node unchanged.",
  ["inputs"],"all pairs and triples of results",
  "The suite uses equality as a tool on a few values and never tests inequality, ordering, hashing or conversion laws.",
  ["src/macros.rs","src/term.rs","src/common.rs"],
  [("derived trait implementations","src/macros.rs __ast_struct, __ast_tuple_struct, __ast_enum; src/term.rs"),("From conversions","src/macros.rs __ast_enum @build_conversions")],
  ["==, cmp, hash, clone, Debug and From on results"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
