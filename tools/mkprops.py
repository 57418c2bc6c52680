#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long JSON lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":w} for n,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
              "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PI="parser/src/internal/parsers_impl/"
CORE=["parser/src/internal/parsers_impl.rs","parser/src/core/parse_result.rs","parser/src/core/parse_state.rs"]
p("C01","Sequencing runs parts back to back and reports the total consumption",
  "When two parsers are sequenced (pairing, keeping only the left or right value, surrounding, or choosing the next parser from the first value), the second one runs exactly once, starting exactly where the first one stopped, and only if the first one succeeded. A successful sequence reports as consumed length the sum of its parts and yields the value(s) the operation documents, in order.",
  ["inputs","programs"],"all component parsers, all inputs and start offsets",
  "Tests use a handful of literal parsers at offset 0; an offset or length error only shows when a later part follows at a non-zero offset or both parts consume.",
  [PI+"operator_parsers_impl.rs",PI+"skip_parser_impl.rs"]+CORE,
  [("and_then",PI+"operator_parsers_impl.rs"),("skip_left/skip_right/surround",PI+"skip_parser_impl.rs"),("flat_map","parser/src/internal/parsers_impl.rs"),("advance_by","parser/src/core/parse_state.rs")])
p("C02","Ordered choice backtracks only on uncommitted failure",
  "A choice tries its second alternative if and only if the first one failed without committing, and then at the same start position; a success or a committed failure of the first alternative is returned unchanged. Attempting a parser turns a committed failure into an uncommitted one and changes nothing else, and an optional parser yields the inner value with its length, or nothing with length zero whenever the inner parser fails, committed or not.",
  ["inputs","programs"],"all pairs of alternatives, all outcomes of each (success, uncommitted failure, committed failure)",
  "The tests exercise a few literal alternatives; which alternative runs depends on the commit status produced by arbitrary inner parsers.",
  [PI+"operator_parsers_impl.rs","parser/src/core/committed_status.rs","parser/src/core/parse_result.rs"],
  [("or/attempt",PI+"operator_parsers_impl.rs"),("opt","parser/src/extension/parsers/operator_parsers.rs"),("with_uncommitted/add_commit","parser/src/core/parse_result.rs")])
p("C03","Failures keep their error and commit status on the way out",
  "Mapping, pairing, left/right skipping and the other single-parser wrappers return the error and the commit status of the part that failed, unchanged (naming and expecting may wrap the error but keep the status). A failure after a monadic bind is committed exactly if it was already committed or the first part consumed at least one element; rejections by filters and conversions are uncommitted.",
  ["inputs","programs"],"all component parsers, all failure outcomes",
  "Commit status is invisible to most tests, which only look at success values; it matters only when an enclosing choice decides whether to backtrack.",
  CORE+[PI+"operator_parsers_impl.rs",PI+"skip_parser_impl.rs",PI+"conversion_parsers_impl.rs",PI+"logging_parsers_impl.rs","parser/src/core/committed_status.rs"],
  [("flat_map/map/filter","parser/src/internal/parsers_impl.rs"),("map_res/map_opt",PI+"conversion_parsers_impl.rs"),("name/expect",PI+"logging_parsers_impl.rs")])
p("C04","Wrappers preserve consumption and lookahead consumes nothing",
  "Mapping, filtering, converting, discarding, collecting, offset capture, logging, naming, expecting and lazily built parsers report exactly the length the inner parser consumed and derive their value only from its result (collecting yields exactly the consumed slice). Peeking, existence tests and negation report length zero, negation and existence reflecting exactly whether the inner parser succeeds.",
  ["inputs","programs"],"all inner parsers, inputs and start offsets",
  "Each wrapper is tested at offset 0 on one or two inputs; a wrong length only shows through what a following parser sees.",
  [PI+"collect_parsers_impl.rs",PI+"discard_parsers_impl.rs",PI+"offset_parsers_impl.rs",PI+"peek_parsers_impl.rs",PI+"logging_parsers_impl.rs",PI+"lazy_parsers_impl.rs",PI+"conversion_parsers_impl.rs"]+CORE,
  [("collect",PI+"collect_parsers_impl.rs"),("peek",PI+"peek_parsers_impl.rs"),("not/exists",PI+"operator_parsers_impl.rs"),("lazy",PI+"lazy_parsers_impl.rs")])
p("C05","Repetition honours its bounds, order and separators",
  "A repetition parses elements one after another, each starting where the previous element (or the separator after it) stopped, returns the values in parse order and reports the sum of everything it consumed. It yields at least the minimum (otherwise it fails) and never more than the maximum its range allows, also when the maximum is zero or one, and stops early only because an element or separator failed; separators are parsed only between elements.",
  ["inputs","programs"],"all element and separator parsers, all range forms (exact, half-open, inclusive, unbounded) and bounds",
  "Tests use four or five ranges on short fixed strings; the bound handling depends on the range form and on the count reached, which is unbounded.",
  [PI+"repeat_parsers_impl.rs","parser/src/internal/parser_impl/repeat_parser_impl.rs","parser/src/utils/range.rs"],
  [("repeat_sep",PI+"repeat_parsers_impl.rs"),("RangeArgument","parser/src/utils/range.rs"),("of_many*/of_count*","parser/src/internal/parser_impl/repeat_parser_impl.rs")])
p("C06","Caching is transparent",
  "A cached parser returns, for every sequence of uses, exactly the result the parser it wraps would return for the same input text at the same position; results computed for another position or another input are never served. It never fails because it is re-entered recursively.",
  ["histories","inputs"],"all sequences of uses of one cached parser over any number of inputs and positions, including recursive use",
  "A stale hit needs two different uses whose keys collide (same address and clamped offset); tests use the cached parser once or twice on one state.",
  [PI+"cache_parsers_impl.rs","parser/src/core/parse_state.rs"],
  [("cache",PI+"cache_parsers_impl.rs")],[("caches","memo table shared by every run of the cached parser")])
p("C07","Element classes match their documented ASCII sets for bytes and characters",
  "Each element class (space, multi-space, alphabetic, digit, non-zero digit, alphanumeric, hexadecimal, octal, upper, lower, punctuation, graphic, control, ASCII) contains exactly its documented set of elements, and the same set for bytes and for characters. Each element parser accepts exactly one element of its class, yields that element and consumes one; otherwise it fails uncommitted.",
  ["inputs"],"all 256 bytes and all Unicode scalar values, every class and every parser spelling",
  "Doc examples try one member of each class; nothing samples the boundaries, the non-members or the byte/char agreement.",
  ["parser/src/core/element.rs",PI+"element_parsers_impl.rs","parser/src/extension/parsers/element_parsers.rs","parser/src/lib.rs"],
  [("Element for u8/char","parser/src/core/element.rs"),("elm_*",PI+"element_parsers_impl.rs")])
p("C08","Set and range membership follow the bounds of their form",
  "Membership of an element in a set given as a range is decided by comparing with both bounds according to the range form: inclusive ends are members, exclusive ends are not, missing ends do not constrain. Repetition counts given as ranges expose the same start and end with the same inclusiveness, and one-of / none-of / in-range parsers consult exactly that membership for the element at the current position.",
  ["inputs","configurations"],"all range forms, bounds and elements",
  "Tests try one or two members; off-by-one ends need the boundary element itself.",
  ["parser/src/utils/set.rs","parser/src/utils/range.rs",PI+"element_parsers_impl.rs"],
  [("Set","parser/src/utils/set.rs"),("RangeArgument","parser/src/utils/range.rs"),("elm_ref_of/elm_ref_in/elm_ref_from_until/none_ref_of",PI+"element_parsers_impl.rs")])
p("C09","Literal matchers match exactly their text at the current position",
  "A literal (element sequence, text tag, case-insensitive tag) succeeds if and only if the input at the current position starts with it, consuming exactly its number of elements; at the first differing element it fails, committed if and only if at least one element had matched, and at end of input it fails uncommitted. A regular-expression parser matches only at the current position, and the consumed length equals the number of input elements of the text it returns, for non-ASCII text too.",
  ["inputs"],"all literals, inputs and start offsets, including multi-byte characters",
  "Tests use short ASCII literals and patterns at offset 0.",
  [PI+"elements_parsers_impl.rs"],[("seq/tag/tag_no_case/regex",PI+"elements_parsers_impl.rs")])
p("C10","Taking and skipping return and consume the right slice of the input",
  "Taking n elements yields exactly the next n elements and skipping n consumes them; both fail without consuming when fewer remain. Taking while a predicate holds yields one contiguous run of matching elements which ends at the first non-matching element after it began, honouring the minimum and maximum of its variant; taking until a predicate holds yields everything up to and including the first match (the variant that allows no match yields the whole rest).",
  ["inputs"],"all predicates, inputs and start offsets",
  "Tests look at one prefix-shaped input each; a second run after a gap, an offset other than zero and end-of-input are never tried.",
  [PI+"taken_parsers_impl.rs",PI+"skip_parser_impl.rs","parser/src/core/parse_state.rs"],
  [("take*/take_while*/take_till*",PI+"taken_parsers_impl.rs"),("skip",PI+"skip_parser_impl.rs"),("slice_with_len","parser/src/core/parse_state.rs")])
p("C11","Method, operator and function spellings are the same parser",
  "Every method on a parser, every overloaded operator (+ | * - !) and every free function exported for users denotes the same combinator with the same operands in the same order as the underlying combinator library. No spelling changes bounds, argument order, which value is kept, or the parser it applies to.",
  ["programs"],"all public spellings and argument parsers",
  "Most spellings have no test at all, and a delegation to a neighbouring combinator of the same type compiles.",
  ["parser/src/internal/parser_impl/","parser/src/lib.rs","parser/src/extension/parser/","parser/src/extension/parsers/"],
  [("Parser methods","parser/src/internal/parser_impl/"),("prelude functions","parser/src/lib.rs")])
p("C12","Operator chains fold with their declared associativity",
  "A left chain of operands and operators folds to the left and a right chain folds to the right, over every operand and operator of the longest parsable chain, combining with the operator parsed between the operands. An operator that is not followed by an operand makes the chain fail (committed if the operator consumed input); the zero-operand variants yield the default value only if no first operand could be parsed uncommitted.",
  ["inputs","programs"],"all operand/operator parsers and chain lengths",
  "Tests use at most two or three operands with one associative operator, which cannot tell left from right folding.",
  [PI+"operator_parsers_impl.rs","parser/src/extension/parsers/operator_parsers.rs","parser/src/internal/parser_impl/operator_parser_impl.rs"],
  [("chain_left1/rest_left1/chain_right1/rest_right1",PI+"operator_parsers_impl.rs")])
p("C13","Parsing and error inspection never panic inside the combinator library",
  "Running any combinator on any input from any offset inside it, and inspecting or displaying the error it returns, never panics as long as the user's own callbacks do not. In particular the offending input recorded in an error can always be retrieved, also at the end of the input and after a non-zero offset.",
  ["inputs","programs"],"all combinators, inputs, offsets and error values built by the library",
  "Tests display errors of a few failures near offset 0; slicing errors need particular offset/length combinations.",
  ["parser/src/core/parse_error.rs","parser/src/core/parse_state.rs",PI],
  [("ParseError::input","parser/src/core/parse_error.rs"),("slicing and indexing",PI)])
exec(open(os.path.join(os.path.dirname(__file__),'props_apps.py')).read())
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,s)
    print("ok",len(P))
except ImportError: print(len(P))
