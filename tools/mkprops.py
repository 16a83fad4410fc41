#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the records stay well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["return value of the public parse call"], hook_needed=None)))

prop("C01", "A document is parsed completely or reported as an error where it stops",
 "Parsing a whole document succeeds only if every byte of the input belongs to a returned definition or to whitespace and comments; nothing before, between or after definitions is ever silently skipped. In every other case the call returns an error (it does not panic) located exactly at the first non-trivia byte that could not be parsed as part of a definition, i.e. right after the longest run of complete definitions from the start. A document without definitions (empty, or only whitespace and comments) is accepted as an empty list.",
 ["inputs"], "for every input string, valid or not, at every position where garbage, a truncated definition or a stray token may appear",
 "The suite calls parse() on six valid files and checks the number of definitions; no test passes an invalid document, a truncated one or one with trailing data.",
 ["src/lib.rs", "src/whitespace.rs", "src/common.rs"],
 [("parse(): end-of-input check on the remainder", "src/lib.rs parse"), ("greedy list of definitions", "src/common.rs Parse for Vec")],
 observe=["Result of weedle::parse", "position carried by the error"])
prop("C02", "The syntax tree is a faithful, lossless image of the consumed text",
 "Whenever a parse succeeds, reading the resulting tree from first to last field yields exactly the token sequence of the consumed input, in source order: every keyword and punctuation mark, every identifier, number and string, none dropped, invented, duplicated or moved. Every text in the tree is the slice of the caller's input at the place where that token stands. The only differences allowed are the leading underscore of an identifier, one trailing comma of an enumeration, and whitespace and comments.",
 ["inputs", "programs"], "for every input and every public node type on which parsing succeeds",
 "Tests look at one or two fields of small samples and at list lengths; they never compare the whole tree with the text.",
 ["src/macros.rs", "src/common.rs", "src/types.rs", "src/interface.rs", "src/lib.rs", "src/literal.rs"],
 [("each struct field parsed in declaration order and stored", "src/macros.rs __ast_struct"), ("identifier and literal slices", "src/common.rs Identifier, src/literal.rs")],
 observe=["public fields of the returned tree", "address of returned string slices"])
prop("C03", "Every sentence of the documented grammar is accepted with its structure",
 "Every document derivable from the documented grammar (any combination and nesting of definitions, members, types, arguments, extended attributes, defaults and literals) is accepted, and the tree returned is the one of its derivation: the right variant at every choice, every optional part present exactly when written, lists with the right items in order.",
 ["inputs", "programs"], "for every derivation of the grammar, every combination of optional parts and every nesting",
 "The fixture files and samples exercise one path through each rule; combinations of optional parts, and which variant is chosen when alternatives share a prefix, are not covered.",
 ["src/lib.rs", "src/interface.rs", "src/mixin.rs", "src/namespace.rs", "src/dictionary.rs", "src/types.rs", "src/argument.rs", "src/attribute.rs", "src/literal.rs", "src/macros.rs"],
 [("ordered alternatives of each enum", "src/macros.rs __ast_enum @build_parse"), ("field sequences of each struct", "src/macros.rs __ast_struct @build_parser")])
prop("C04", "Text outside the documented grammar is rejected",
 "A parse call succeeds only on text that the documented grammar of that construct allows: deleting, duplicating, inserting, swapping or replacing any token of a valid text so that it leaves the grammar makes the call fail, or (for a single construct) stop exactly before the offending token when a shorter valid construct precedes it.",
 ["inputs"], "for every input that is not a sentence of the grammar, in particular all one-token edits of valid sentences",
 "There is a single negative test in the suite (an empty list); nothing checks that malformed definitions are refused.",
 ["src/lib.rs", "src/interface.rs", "src/mixin.rs", "src/namespace.rs", "src/dictionary.rs", "src/types.rs", "src/argument.rs", "src/attribute.rs", "src/term.rs"],
 [("mandatory terminals in every production", "src/macros.rs __ast_struct @build_parser"), ("token matching", "src/term.rs")])
prop("C05", "Whitespace and comments between tokens never change the result",
 "Blanks (space, tab, carriage return, newline), line comments (ended by a newline or by the end of input) and closed block comments, in any number, order and content, may be added, removed or exchanged between any two tokens and at both ends of the text without changing the tree, as long as the tokens stay separated. What is not trivia (an unclosed block comment, any other character, comment markers inside a string) is never skipped, and a block comment ends at its first terminator.",
 ["inputs"], "for every gap between tokens of every construct and every trivia text",
 "Tests place comments in one position and use plain spaces elsewhere; comment contents, nesting look-alikes, end of input and every other gap are untested.",
 ["src/whitespace.rs", "src/term.rs", "src/common.rs", "src/literal.rs"],
 [("trivia skipping before and after each token", "src/whitespace.rs sp, ws!")])
prop("C06", "Each terminal matches exactly its own spelling, as a whole word",
 "Each terminal symbol is recognised exactly on its own spelling (case-sensitive, complete), and a word terminal only when the next character cannot continue an identifier, so that a name that merely begins with a keyword is never split. Recognising a terminal consumes it and the trivia around it, nothing else; every terminal's notation in the public term macro denotes that same terminal.",
 ["inputs"], "for every terminal, every following and preceding character, and every near-miss spelling",
 "Tests parse each terminal followed by spaces or nothing; only one look-alike (DOMStringMap) is tested.",
 ["src/term.rs", "src/whitespace.rs"],
 [("tag plus boundary test", "src/term.rs ident_tag!, generate_terms!, generate_terms_for_names!"), ("term! macro table", "src/term.rs term!")])
prop("C07", "Numeric literals are recognised, classified and sliced exactly",
 "A number is recognised exactly when it has the documented decimal, hexadecimal, octal or floating-point form (with optional minus sign), takes the longest text of that form, and is reported in the class of its form with its exact text including sign, prefix and exponent; the special values (infinities and not-a-number) and booleans likewise. Integers are never reported as floats or conversely.",
 ["inputs"], "for every character sequence, in every place that takes a literal",
 "About fifteen sample numbers are tested; boundary forms (bare prefix, empty fraction, signs, exponent without digits, leading zeros) are not.",
 ["src/literal.rs"], [("literal scanners and their order", "src/literal.rs IntegerLit, FloatLit, ConstValue, DefaultValue")])
prop("C08", "String literals keep their content verbatim",
 "A string literal extends from a double quote to the next double quote and its content is returned byte for byte: blanks, newlines, comment markers, backslashes, keywords and non-ASCII text are preserved and never interpreted; an unterminated literal is not a string. What follows the closing quote is parsed normally.",
 ["inputs"], "for every content and length, in every place that takes a string",
 "Six short ASCII samples; no newline, backslash, empty, long or non-ASCII content, and no unterminated string.",
 ["src/literal.rs", "src/attribute.rs", "src/lib.rs"], [("string scanner", "src/literal.rs StringLit")])
prop("C09", "Identifiers follow the documented lexical rule and keep their name",
 "An identifier is an optional single leading underscore, a letter, then the longest run of letters, digits, underscores and hyphens (ASCII); the name reported is that text without the leading underscore, whatever its length or resemblance to a keyword, and an underscore-escaped name is never taken as a keyword. Anything else is not an identifier.",
 ["inputs"], "for every character sequence and length, in every place that takes a name",
 "Six sample identifiers; character-class borders, double underscores, hyphens, long names and keyword look-alikes are not covered.",
 ["src/common.rs"], [("identifier scanner", "src/common.rs Identifier")])
prop("C10", "Every parse call returns normally, with success or a recoverable error",
 "For every string (valid or not, any Unicode text) every public parse call returns: it never panics, never overflows an index or splits a character, never loops, and never asks for more input. A failure is always the recoverable kind of error, positioned inside the caller's input, so that the caller (or an enclosing rule) can try something else at the same place.",
 ["inputs"], "for every input string up to a bounded nesting depth (recursion uses the thread's stack), for every public type",
 "Only one failing input is tested and it is ASCII and empty.",
 ["src/lib.rs", "src/macros.rs", "src/whitespace.rs", "src/term.rs", "src/literal.rs", "src/common.rs"],
 [("error propagation of every combinator", "src/macros.rs"), ("no assertion on input data", "src/lib.rs parse")])
prop("C11", "Definitions and members are independent; concatenation is compositional",
 "If two documents are accepted separately, their concatenation (separated by trivia) is accepted and yields the definitions of the first followed by those of the second; conversely removing or reordering whole definitions removes or reorders exactly those results. No definition's result depends on its neighbours or on how many there are, and the same holds for the members of an interface, mixin, namespace or dictionary.",
 ["inputs", "histories"], "for all lists of valid definitions or members, of any length and order",
 "Tests check only the count on six fixed files.",
 ["src/common.rs", "src/lib.rs"], [("greedy list", "src/common.rs Parse for Vec"), ("definition alternatives", "src/lib.rs Definition")])
prop("C12", "Types are parsed to the documented type structure",
 "Every type expression is parsed into the matching built-in type, generic type, union or named type with its nullability mark exactly where it is written: the longest integer type wins, modifiers (unsigned, unrestricted) stay with their type, generics and unions nest arbitrarily with members in order and their own attributes, and a name that is not a built-in type is a named type. The contexts keep their own rules: constant types, return types, record keys, promise results and union members accept exactly what is documented for them.",
 ["inputs", "programs"], "for every type expression, nullable or not, at every nesting depth and in every context",
 "Each type keyword is tested once without nullability or nesting, and tests only look at the variant.",
 ["src/types.rs"], [("type alternatives and order", "src/types.rs NonAnyType, IntegerType, Type, UnionMemberType, ConstType, ReturnType, RecordKeyType")])
prop("C13", "Argument lists keep order, optionality, variadics and defaults",
 "An argument list is parsed into its arguments in order, each with its attributes, its optional mark, its type, its name, and its default value or ellipsis exactly as written. A default value is accepted only on an argument marked optional, an ellipsis only on one without that mark, and every documented default value form is reported in its own class.",
 ["inputs"], "for every argument list, every combination of markers, types and default values",
 "Four single-argument samples; lists, attributes, ellipsis/optional interplay, and six of the seven default forms are not covered.",
 ["src/argument.rs", "src/common.rs", "src/literal.rs"], [("conditional default", "src/argument.rs SingleArgument"), ("variadic alternative", "src/argument.rs VariadicArgument"), ("default value alternatives", "src/literal.rs DefaultValue")])
prop("C14", "Extended attributes are classified and attached where they are written",
 "Each extended attribute is reported in the form it is written in (plain, with arguments, named arguments, identifier list, identifier or string value, wildcard) with all its parts, in order. An attribute list is attached to the construct it precedes: definition, member, argument, type or union member; where two constructs could start at the same place the outermost one gets the first list.",
 ["inputs"], "for every attribute form, every list, and every place an attribute list may stand",
 "One sample per form in isolation (no wildcard, no string value); attachment is tested at one place.",
 ["src/attribute.rs", "src/types.rs", "src/argument.rs", "src/lib.rs", "src/interface.rs"],
 [("attribute alternatives and order", "src/attribute.rs ExtendedAttribute"), ("optional attribute list field of each construct", "src/*.rs attributes")])
prop("C15", "Interface members are classified and keep all their parts",
 "Every interface member (constant, attribute, constructor, operation, iterable, async iterable, maplike, setlike, stringifier) is reported as that kind with its modifiers, qualifiers, types, names, arguments and values exactly as written, whatever other kinds share its leading tokens, in regular, partial and callback interfaces alike.",
 ["inputs"], "for every member, every combination of its optional parts, and every mix of members in one body",
 "One sample per kind parsed in isolation by its own type, so choosing among kinds is untested, as are most modifier combinations.",
 ["src/interface.rs"], [("member alternatives and order", "src/interface.rs InterfaceMember")])
prop("C16", "Mixin, namespace and dictionary members follow the rules of their container",
 "Members of mixins, namespaces and dictionaries are reported as the kind they are with all their parts, and each container accepts exactly its own member forms: namespace attributes must be read-only, mixins and namespaces take no iterable, maplike or setlike declarations and no static or inherited attributes, dictionaries take only typed fields with optional required mark and default.",
 ["inputs"], "for every member text in each of the three containers",
 "Five positive samples, no default/required combinations and no rejected member.",
 ["src/mixin.rs", "src/namespace.rs", "src/dictionary.rs"], [("member alternatives", "src/mixin.rs MixinMember, src/namespace.rs NamespaceMember, src/dictionary.rs DictionaryMember")])
prop("C17", "Definitions are classified by their own form and keep all their parts",
 "Every top-level definition is reported as exactly the kind it is written as (callback, callback interface, interface, mixin, namespace, dictionary, each partial form, enum, typedef, includes, implements) with attributes, name, inheritance and body as written. Kinds that share leading keywords are never confused, inheritance is accepted only where documented, and the terminating semicolon is mandatory.",
 ["inputs"], "for every definition form with every combination of optional parts, including names equal to keywords",
 "Each kind is parsed once through its own type; the choice among kinds is only exercised indirectly by counts on the fixture files.",
 ["src/lib.rs"], [("definition alternatives and order", "src/lib.rs Definition")])
prop("C18", "The generic combinators obey their laws for every element type and length",
 "An optional element is present exactly when the element parses there and otherwise consumes nothing; a repetition takes as many elements as parse, in order, from zero to any number; brackets require both delimiters around their body; sequences parse left to right. Separated lists keep all items in order, accept a separator only between items, and the non-empty list alone requires one item and tolerates one trailing separator.",
 ["inputs", "programs"], "for every instantiation of the combinators, every length and every position of a separator",
 "A handful of samples with three items; empty, single, trailing, doubled, leading separators and long lists are not covered.",
 ["src/common.rs", "src/macros.rs"], [("Option, Box, Vec, tuple instances", "src/common.rs"), ("Punctuated, PunctuatedNonEmpty, Parenthesized, Bracketed, Braced, Generics", "src/common.rs")])
prop("C19", "The unparsed remainder is exactly what follows the construct",
 "A successful parse of a single construct returns as remainder the exact tail of the caller's input that starts at the first token after the construct and its surrounding trivia; parsing the next construct on that remainder gives the same result as parsing both in sequence, and the result for a construct does not depend on what follows beyond the characters needed to delimit it.",
 ["inputs", "histories"], "for every construct, every continuation and every sequence of chained calls",
 "Remainders are asserted for a few samples, all with an identifier or nothing following.",
 ["src/whitespace.rs", "src/macros.rs", "src/common.rs"], [("ws! on both sides of each token", "src/whitespace.rs"), ("threading of the remaining input", "src/macros.rs")])
prop("C20", "Results depend only on the text, not on call history or threads",
 "Parsing is a pure function of the input text: repeating a call, interleaving it with any other successful or failing calls, or running it concurrently on several threads gives the same result as running it alone in a fresh process. Earlier failures or deeply nested inputs never affect later calls.",
 ["histories", "schedules"], "for every history of calls and every interleaving of threads",
 "Each test makes one call on one thread and never repeats it.",
 ["src/macros.rs", "src/lib.rs", "src/common.rs"], [("no state outside the call", "all of src")])
prop("C21", "Equality, ordering, hashing and conversions reflect the content of the tree",
 "Two parsed trees of the same type are equal exactly when they have the same structure and the same texts (whatever trivia or positions they came from); equal trees have equal hashes and compare as equal, ordering is a total order consistent with equality, and a clone equals its original. Converting a node into an enclosing variant gives the same value as parsing it as that variant.",
 ["inputs"], "for all pairs and triples of parsed trees",
 "Equality is used in a few assertions on positive samples; inequality, hashing, ordering and conversions are untested.",
 ["src/macros.rs", "src/term.rs"], [("derived traits", "src/macros.rs ast_types!"), ("From conversions", "src/macros.rs __ast_enum @build_conversions")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
