"""which analyses decide which property"""
import mir as M
import core_checks as K
import custom
import apps
import values
import cron
import general
import hocon
import panics
import toys

COMMON_ASSUMPTIONS = [
    'rustc lowers the source to MIR correctly; the analysis reads the MIR of the current tree',
    'the standard library behaves as the transfer functions in engine/natives.py and the models in models/models.rs state',
    'child parsers and callbacks passed in are deterministic functions of their arguments and do not touch the analysed state',
    'usize additions do not wrap',
]

FLOW = ('Path-sensitive abstract interpretation of the MIR of every listed function (callees, closures and trait impls followed), with opaque '
        'child parsers/callbacks; each abstract outcome (value, consumed length, error, commit status, order of child runs) is compared as a term '
        'with the reference definition of the combinator under the path facts.')


def core(pid):
    def run(P, res, tier):
        for ob in K.obligations():
            if pid in ob.properties():
                ob.unroll += 4 if tier == 'thorough' else 2
                ob.rec += tier == 'thorough'
                K.run_ob(P, ob, res, pid)
    return run


GRAM = ('The parser an entry point runs is extracted from the MIR of the functions that build it (combinators kept as constructors, their meaning being the subject of C01-C13); its '
        'ordered-choice semantics with commit is compiled into a deterministic automaton over decision diagrams on element classes and compared for language equality with a regular reference; '
        'a difference is reported with a shortest separating text and the component function it lies in.')
GT = 'grammar extraction by abstract interpretation of MIR, then language-equality decision (automata over element classes)'
GN = ('Static and complete for the extracted grammar: every text of every length is covered. Trusts that the combinators mean what C01-C13 check, rustc\'s MIR and the standard-library models. '
      'Constructs outside the modelled fragment are reported as undecided and raise no alarm.')

TEMPL = ('The grammar the entry point runs is extracted from MIR and evaluated abstractly on text templates: a template fixes the shape of a text and leaves its characters symbolic within '
         'character classes, so one template stands for all texts of that shape. Every semantic action (map, map_res, filter closures), constructor and accessor is interpreted on its MIR; '
         'the resulting term over the symbolic characters is compared with the term the specification assigns, and a difference is reported with a concrete text.')
VT = 'abstract evaluation of the extracted grammar and its semantic actions (MIR) on symbolic text templates against expected terms'
VN = ('Static: the templates enumerate every combination of the grammar\'s shapes up to the listed sizes (evidence: templates), the characters inside them are symbolic. Longer repetitions than listed are '
      'not enumerated. Trusts that the combinators mean what C01-C13 check, rustc\'s MIR and the standard-library models. Constructs outside the modelled fragment are undecided and raise no alarm.')

TOYS = ('Templates are whole programs whose numbers and strings are symbolic. The grammar parsers::program denotes is extracted from MIR and evaluated abstractly on the program text; Interpreter::new and '
        'Interpreter::call_main are then interpreted on their MIR, path-sensitively, on the resulting tree. On every path the result, the number of printed lines and each line are compared as terms with a '
        'reference evaluation of the same program; a panic on a feasible path or a rejected program is a violation, reported with a concrete program.')
TT = 'abstract evaluation of the extracted grammar and of the interpreter (MIR) on symbolic program templates against a reference evaluation'
TN = ('Static: the program shapes are enumerated (evidence: templates) in up to three layouts, numbers and strings inside them are symbolic; loops in templates run at most ten rounds. Ill-typed programs, undefined '
      'names, missing arguments and integer overflow abort by design and are no part of the property. Constructs outside the modelled fragment are undecided and raise no alarm.')

CHECKS = {
    'C01': dict(crates=['parser'], run=[core('C01')], explain=FLOW,
                rule='and-then, +, -, *, surround, flat_map: parts run left to right at adjacent offsets, lengths add up, values combine as documented'),
    'C02': dict(crates=['parser'], run=[core('C02')], explain=FLOW,
                rule='or / | run the second part only after an uncommitted failure of the first, at the same offset; attempt clears the commit; opt succeeds with nothing on any failure'),
    'C03': dict(crates=['parser'], run=[core('C03'), custom.check_results], explain=FLOW,
                rule='every failing outcome of a combinator carries the failing part\'s error and the documented commit status'),
    'C04': dict(crates=['parser'], run=[core('C04')], explain=FLOW,
                rule='mapping, filtering, conversion, logging, naming, lazy keep the length of the wrapped parser; peek/not/exists consume 0'),
    'C05': dict(crates=['parser'], run=[core('C05')], explain=FLOW,
                rule='repetition collects items in order, runs the item parser only below the upper bound, needs the lower bound, places separators between items'),
    'C06': dict(crates=['parser'], run=[custom.check_cache], explain='Abstract interpretation of two consecutive runs of one cached parser from an empty map on '
                'two symbolic (input, offset) pairs; key equality is the only way the second run may reuse the first result, and the borrow of the map is tracked across the wrapped call.',
                rule='each run returns what the wrapped parser returns at its own input and offset; no borrow of the cache is held while the wrapped parser runs',
                assume=['two runs from an empty cache represent every history: entries are independent per key', 'inputs with the parser\'s lifetime stay allocated']),
    'C07': dict(crates=['parser'], run=[core('C07'), custom.check_classes], explain=FLOW, rule='element parsers accept exactly the elements of their documented class'),
    'C08': dict(crates=['parser'], run=[core('C08'), custom.check_membership], explain=FLOW, rule='element-set parsers accept exactly the members of the set or range'),
    'C09': dict(crates=['parser'], run=[core('C09')], explain=FLOW, rule='seq/tag/tag_no_case/regex accept exactly their text at the offset and report its length in elements'),
    'C10': dict(crates=['parser'], run=[core('C10')], explain=FLOW, rule='take/skip/take_while*/take_till* return the contiguous slice their predicate selects and consume it'),
    'C11': dict(crates=['parser'], run=[custom.check_spellings], explain=FLOW + ' Prelude functions, methods, operators and trait defaults are each interpreted down to the MIR they reach and compared with the definition of the combinator they name.',
                rule='every spelling (prelude function, method, operator, alias) denotes the combinator it names; parse starts at offset 0 and to_result keeps value and error'),
    'C13': dict(crates=['parser'], run=[custom.check_panics], explain='Path-sensitive abstract interpretation of the MIR of every combinator and error accessor: every assert, slice bound, unwrap/expect, '
                'RefCell borrow and explicit panic on a feasible path is an obligation discharged by the path constraints.',
                rule='no feasible path of a combinator or of ParseError\'s accessors reaches a panic (child parsers and callbacks assumed not to panic)'),
    'C12': dict(crates=['parser'], run=[core('C12')], explain=FLOW, rule='chain_left*/rest_left* fold left-associatively, chain_right*/rest_right* right-associatively, committed failures escape'),
    'U01': dict(crates=['parser', 'uri'], run=[apps.check_uri_language], explain=GRAM, technique=GT, note=GN,
                rule='the language accepted by the grammar Uri::parse runs equals the RFC 3986 language with optional scheme and a non-empty port up to 65535'),
    'U02': dict(crates=['parser', 'uri'], run=[values.check_uri_values], explain=TEMPL, technique=VT, note=VN,
                rule='every accessor of the parsed URI returns the text the template assigns to its component; query parameters keep order, multiplicity and absence of a value'),
    'U03': dict(crates=['parser', 'uri'], run=[values.check_uri_display], explain=TEMPL + ' Values built by the public constructors from opaque strings, in every combination of present and absent '
                'components, are displayed and compared as well.', technique=VT, note=VN,
                rule='the displayed text is the concatenation of the present components with their delimiters; a parsed URI displays as its text'),
    'U05': dict(crates=['parser', 'uri'], run=[values.check_ip_values], explain=TEMPL, technique=VT, note=VN,
                rule='octets and 16-bit groups equal the numbers written, for every octet width and every position of the double colon, with and without an IPv4 tail'),
    'D02': dict(crates=['parser', 'crond'], run=[values.check_cron_values], explain=TEMPL, technique=VT, note=VN,
                rule='the schedule term built for a template has the written numbers, operands and list order in the field of the same name'),
    'D03': dict(crates=['parser', 'crond'], run=[cron.check_cron_match], explain='CronSpecification::is_satisfied_by is interpreted on its MIR for every shape of a field (and pairs of fields) with symbolic numbers and a symbolic '
                'date and time (local views of the instant; UTC views are different symbols). Every path\'s answer is compared with the meaning of the schedule under the path facts; a difference is reported with a '
                'schedule and a calendar-consistent date.', technique='path-sensitive abstract interpretation of MIR against the defined meaning (affine and remainder terms)',
                rule='a schedule matches exactly if minute, hour, day, month and weekday (Sunday 1) each match their own field',
                note='Static: numbers, date and time are symbolic. Lists are enumerated up to three members; a step of zero has no specified meaning. chrono calls are modelled by the Gregorian calendar.',
                assume=['chrono accessors return the local components of the instant', 'schedules are the shapes the parser builds, with at most three list members']),
    'D04': dict(crates=['parser', 'crond'], run=[cron.check_cron_iteration], explain='The public construction (CronInterval::new/iter, CronSchedule::cron_interval/upcoming) and up to three consecutive calls of next are interpreted '
                'on MIR; dates are symbolic milliseconds, satisfaction is an unknown predicate, the end is absent or symbolic. Each outcome is compared with the definition: the next minute, counted from the start, that '
                'satisfies the schedule and does not exceed the end.', technique='path-sensitive abstract interpretation of MIR (affine time terms, uninterpreted predicate) against the defined sequence',
                rule='next yields the earliest satisfying minute after the previous one, none once the end is passed; the predicate asked is the schedule\'s',
                note='Static: start, end and the predicate are symbolic; the search loop is unrolled five rounds per call, three calls; the state between calls and rounds is the pair (curr, next), so later rounds repeat these.',
                assume=['chrono and intervals-rs behave as modelled (milliseconds; closed intervals; start <= end)', 'the interval has a start']),
    'D05': dict(crates=['parser', 'crond'], run=[cron.check_cron_panics], explain='Same interpretation as for matching and iteration; every assert, unwrap, out-of-range date, time overflow and zero step on a path is an '
                'obligation discharged by the path facts, and reported with a schedule and a date otherwise.', technique='path-sensitive abstract interpretation of MIR, panic obligations',
                rule='no feasible path of evaluating a schedule or of iterating it reaches a panic',
                note='Static: numbers 0..255 in every field shape, all representable years.', assume=['intervals have a start not after their end', 'chrono panics only where modelled: invalid or out-of-range dates, time overflow']),
    'D01': dict(crates=['parser', 'crond'], run=[apps.check_cron_language], explain=GRAM, technique=GT, note=GN,
                rule='the language accepted by the grammar CronParser::parse runs equals the documented five-field language'),
    'H02': dict(crates=['parser', 'hocon'], run=[hocon.check_strings], explain=TEMPL, technique=VT, note=VN,
                rule='a string value is the text between its quotes with every escape replaced by the character it names; an unquoted string is the text up to a reserved character, comment or end of line without trailing blanks'),
    'H03': dict(crates=['parser', 'hocon'], run=[hocon.check_merging], explain=TEMPL + ' Templates are configurations of up to three statements (scalars, objects, dotted keys, arrays, mandatory and optional references) in several layouts; '
                'a reference evaluator gives the value, key set and presence at every queried path, for each case of the environment.', technique=VT, note=VN,
                rule='every key written is kept, objects merge recursively, otherwise the later value wins; references denote the final value of their path, optional ones fall back to the previous value or none'),
    'H04': dict(crates=['parser', 'hocon'], run=[hocon.check_literals], explain=TEMPL + ' rust_decimal is modelled as mantissa and scale.', technique=VT, note=VN,
                rule='a number literal is the decimal written (sign, fraction, exponent) and a duration literal that number with the unit named, for every spelling'),
    'H05': dict(crates=['parser', 'hocon'], run=[hocon.check_durations], explain=TEMPL + ' Durations constructed by the public constructors from symbolic numbers are converted as well; time spans are terms in nanoseconds.',
                technique=VT, note=VN, rule='converting a duration multiplies by the length of its unit, exactly; printing names the unit; a time span converts to a duration and back unchanged'),
    'H01': dict(crates=['parser', 'hocon'], run=[hocon.check_loading], explain=TEMPL + ' Files are modelled: a file name is missing, present but unreadable, or has the template\'s contents; every case of these facts is a path.',
                technique=VT, note=VN + ' Every failure of File::open or of reading is one of the listed facts; partial reads are the standard library\'s business.',
                rule='a missing or unreadable file, malformed text and an unresolvable reference, in the file itself or in an included one, give an error of the corresponding kind; everything else loads'),
    'H07': dict(crates=['parser', 'hocon'], run=[hocon.check_access], explain=TEMPL + ' Every accessor is called with every shape of value and with present, missing and too deep paths.', technique=VT, note=VN,
                rule='a path lookup returns the value one object level per segment below, has_path agrees with it, and a typed accessor answers exactly for its own type with the value stored'),
    'H08': dict(crates=['parser', 'hocon'], run=[hocon.check_layout], explain=TEMPL + ' At every token boundary of eleven small configurations blanks, line ends, remarks (also with any character), extra and missing brackets and quotes and cuts are put; acceptance and the whole configuration read are compared with the plain text.', technique=VT, note=VN,
                rule='blanks, blank lines, line ends and remarks change neither acceptance nor the configuration; unbalanced brackets and quotes are rejected; a value ends with its line'),
    'U04': dict(crates=['parser', 'uri', 'crond', 'hocon'], run=[panics.check_parsing_panics], explain='The parsing entry points are evaluated abstractly on templates: valid texts in which any one position holds any ASCII character, all texts of up to two characters, '
                'and numbers of up to forty digits in every numeric position. Every assert, unwrap, expect, slice bound and explicit panic on a path of the semantic actions, of merging and of resolving references is an obligation, '
                'discharged when the path facts are contradictory and reported with a concrete text otherwise.', technique='abstract evaluation of the extracted grammar and its semantic actions (MIR) on symbolic text templates, panic obligations', note=VN,
                rule='no feasible path of parsing a URI, a cron expression or a configuration reaches a panic',
                assume=['the combinators themselves do not panic (C13)', 'third-party calls panic only where modelled', 'nesting is not so deep that the stack is exhausted']),
    'H06': dict(crates=['parser', 'uri', 'crond', 'hocon'], run=[general.check_prints], technique='call-graph reachability over MIR (effect analysis)',
                explain='Every call in the MIR of the library crates is inspected for the sinks behind print!/println!/eprint!/eprintln!/dbg! and for handles of the standard streams; a sink is '
                'reported if it lies in a function that public functions or trait implementations reach in the name-based (over-approximated) call graph.',
                rule='no call to std::io::_print/_eprint/stdout/stderr is reachable from the public interface of the library crates',
                note='Static and complete for the crates\' own code; third-party crates (log, regex, chrono, ...) are trusted not to print.',
                assume=['third-party crates do not write to the standard streams', 'panic messages are the runtime\'s, not the library\'s (see U04, D05, C13)']),
    'T01': dict(crates=['parser', 'toys'], run=[toys.check_operators], explain=TOYS, technique=TT, note=TN,
                rule='every operator, alone and in every pair (and triples) of neighbours, groups by level and to the left and computes its operation with the left operand on the left'),
    'T02': dict(crates=['parser', 'toys'], run=[toys.check_bindings], explain=TOYS, technique=TT, note=TN,
                rule='every read of a variable, parameter or global yields the value last bound in the innermost call that binds it; a call leaves the caller\'s bindings as they were'),
    'T03': dict(crates=['parser', 'toys'], run=[toys.check_coverage], explain=TOYS, technique=TT, note=TN,
                rule='every kind of expression in every place has the value written; no feasible path of parsing or running such a program reaches a panic'),
    'T04': dict(crates=['parser', 'toys'], run=[toys.check_control], explain=TOYS, technique=TT, note=TN,
                rule='the lines printed and the value returned are those of the branches and rounds the conditions denote, in order'),
    'T05': dict(crates=['parser', 'toys'], run=[toys.check_layout], technique='abstract interpretation of MIR over text templates (partial evaluation of the extracted grammar)',
                explain='Program texts with one place varied (a blank, a character of no token, a missing token, a cut) are parsed by the grammar extracted from the MIR of the program parser, semantic actions '
                'interpreted from their MIR; acceptance and the expression tree are compared with those of the well-formed text.',
                rule='a blank next to any token changes nothing; a foreign character, a missing bracket, separator or keyword, a cut inside a block and anything after the last definition reject the text', note=TN),
    'G01': dict(crates=['parser', 'uri', 'crond', 'hocon', 'toys'], run=[general.check_termination], technique='grammar extraction from MIR; nullability and left-recursion fixpoint over rules',
                explain='The grammar every parameterless parser-building function denotes is extracted from MIR; nullability is the least fixpoint over its rules; every unbounded repetition and chain needs a '
                'round that consumes, and the same-position call graph of the rules must be acyclic.',
                rule='no unbounded repetition of a round that can succeed empty; no rule reaches itself at its own starting position',
                note='Static: complete for the extracted grammars, for every input. Input length is finite, so acyclic same-position rule calls plus consuming rounds imply termination; recursion depth (stack) is bounded only '
                'by nesting depth of the input. Configuration includes are file-system recursion and not covered (a file that includes itself).'),
}


def run(pid, tier):
    spec = CHECKS[pid]
    P = M.Program(spec['crates'])
    res = K.Result()
    for r in spec['run']:
        try:
            r(P, res, tier)
        except Exception as e:      # an analysis that stops decides nothing; the evidence says so
            import traceback
            traceback.print_exc()
            res.undecided.append(('%s part %s' % (pid, getattr(r, '__name__', r)), 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:200])))
    return res, P

NOT_APPLICABLE = {}
