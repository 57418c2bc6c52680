import json,sys
sys.path.insert(0,'/verif/engine')
import registry
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
cost=dict(U01=30,U02=5,U03=5,U05=38,H03=125,H02=20,U04=55,H04=14,H07=25,C11=6,C13=3,C05=2,D02=3,D03=4,D04=2,D05=5,T02=7,T04=7,G01=6,H01=2,H05=2)
extra={
'C01':'Oracle: reference outcome trees (spec.py) of and/skip_left/skip_right/surround/flat_map and their operator forms: order and number of child runs, offset of each run, value, total length. Bounds: none on inputs; recursion none.',
'C02':'Oracle: outcome trees of or/attempt/opt and the `|` operator, over all four child outcomes (success, committed and uncommitted failure, at any offset).',
'C03':'Oracle: each failing path must carry the child\'s own error term and the specified commit flag; ParseResult\'s own helpers (map, fold, with_committed_fallback, ...) are decided as functions.',
'C04':'Oracle: value and length terms of map/filter/convert/collect/discard/offset/logging/naming/lazy/peek/exists/not.',
'C05':'Oracle: repeat/many/count/many_sep for every range form with symbolic bounds; item runs unrolled (4 rounds quick, 5 thorough) — the loop body is the same each round. A trailing separator without a following item may be consumed or not (both documented readings are admitted).',
'C06':'Two consecutive runs of one cached parser on two symbolic (input, offset) pairs: map keys are terms, so "same key" is equality of input identity and offset. The RefCell borrow is tracked across the wrapped call, so re-entrance is a panic obligation.',
'C07':'Class predicates for u8 and char are evaluated as interval sets over all 256 / 1 114 112 values and compared with the documented sets; the element parsers are compared as combinators. (The octal class admits 8: pinned by a doctest of the repository, see limits.)',
'C08':'Set::contains for every range form with symbolic bounds and element; RangeArgument start/end; elm_of / none_of / elm_in forms must consult it for the element at the offset.',
'C09':'seq/tag/tag_no_case on symbolic literals up to the unrolling bound; regex: anchoring and length in elements, regex crate as uninterpreted match with modelled offsets.',
'C10':'take/skip/take_while{0,1,n_m}/take_till{0,1}: predicate uninterpreted, slice bounds affine; runs unrolled to the bound.',
'C11':'Each public spelling (prelude function, method, operator, alias) is interpreted down to the implementation it reaches with symbolic operands and compared with the reference of the combinator it names.',
'C12':'chain_left*/right*, rest_*, scan_right*: fold term over uninterpreted operators, up to the unrolling bound of operands.',
'C13':'All panic obligations met while interpreting every combinator and every ParseError accessor/Display.',
'U01':'Oracle: RFC 3986 (appendix A) as a regular expression, scheme optional, port <= 65535. Unbounded. For a difference, component languages localise the function.',
'U02':'149 templates: every combination of scheme/user info/host kind/port/path/query/fragment shapes; every accessor compared.',
'U03':'Display of parsed templates and of values built by the public constructors from opaque strings, in all combinations of present/absent components.',
'U05':'Octets of every width (value = decimal of symbolic digits), IPv6 groups of every width at every position, every position and width of the double colon, IPv4 tails.',
'D01':'Oracle: the documented five-field language as a regular expression; unbounded (lists of any length).',
'D02':'Every field shape in every field; numbers symbolic digits; lists up to four members.',
'D03':'is_satisfied_by on every field shape (and pairs of fields), numbers and calendar symbolic; oracle is the meaning in the statement, with remainder terms for steps.',
'D04':'Construction through the public API, three calls of next, five search rounds each; start, end, predicate symbolic.',
'D05':'Panic obligations of the D03 and D04 interpretations, with numbers 0..255 and all representable years.',
'H01':'File system as facts (missing / open but unreadable / contents template); nested includes; every error kind; malformed texts of many kinds must be errors, every layout in the statement must load.',
'H02':'Symbolic quoted and unquoted strings at every place a string can stand (property, array element, nested object), every escape, \\u escapes incl. surrogate pairs, fixed non-ASCII characters, comment and reserved characters inside quotes.',
'H03':'Up to three statements over a small key universe (scalars, objects, dotted keys, arrays, mandatory/optional references, environment variables) in several layouts; a reference evaluator gives each queried path\'s value and each object\'s key set.',
'H04':'Sign x integer digits x fraction digits x exponent shapes with symbolic digits, every unit spelling with and without blanks.',
'H05':'Durations from parsed templates and from public constructors with symbolic numbers; time spans as nanosecond terms; round trip of time spans.',
'H06':'Every call in the MIR of the four library crates; sinks: _print, _eprint, stdout, stderr, dbg. Complete for own code.',
'H07':'Every accessor x every value kind, existing/missing/too deep paths, has_path against lookup, ConfigurationValue-typed accessors, up to four levels.',
'H08':'Eleven small configurations (objects, arrays, references, dotted and quoted keys, numbers and strings followed by keys that look like units): at every token boundary blanks, line ends, one to eleven lines of comments, comments holding any character, every bracket or quote too many, every bracket missing, every cut inside a bracket; outcome and the whole configuration tree are compared with the plain text.',
'T01':'Every operator alone and in pairs/triples with and without parentheses, numbers symbolic; result terms compared per path.',
'T02':'Programs with assignments, shadowing, globals, nested and recursive calls, labelled arguments; definitions in different orders.',
'T03':'Every kind of literal/expression in every place; string escapes; identifiers of awkward spelling; panics and rejections are violations.',
'T04':'Branches, loops (at most ten rounds), blocks, counted loops with symbolic bounds; printed lines in order.',
'T05':'Eighteen small programs covering every construct (thorough: generated programs as well): at every token boundary a blank, any character of thirteen foreign ranges, every needed token removed, every cut inside a block; whole-text acceptance and expression trees.',
'G01':'All parameterless grammar functions of the four crates. Complete for the extracted grammars.',
'U04':'Valid texts with any one position replaced by any ASCII character, all texts of up to two characters, numbers of up to forty digits everywhere.',
}
out=[open('/verif/tools/design/head.md').read()]
for p in props:
    i=p['id']; c=registry.CHECKS[i]
    t=c.get('technique') or 'path-sensitive abstract interpretation of MIR against a reference definition'
    out.append('### %s %s\n'%(i,p['title']))
    out.append('Method: %s. Cost: %s s.\n'%(t,cost.get(i,'1')))
    out.append('Rule: %s.\n'%c['rule'])
    out.append(extra[i]+'\n')
    if c.get('assume'): out.append('Assumes: '+'; '.join(c['assume'])+'.\n')
    out.append('')
out.append(open('/verif/tools/design/tail.md').read())
import glob
s='\n'.join(out)
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(f.split('/')[-2],m['property'],m['what_it_breaks'].split(', so ')[0].replace('|','\\|')[:140],CATCH.get(f.split('/')[-2],m['property']) if 'CATCH' in globals() else m['property']))
s=s.replace('@@TABLE@@','\n'.join(rows))
open('/verif/DESIGN.md','w').write(s)
