# exec'd by mkprops.py
U="uri/src/"
p("U01","URI acceptance follows RFC 3986",
  "A text is accepted as a URI exactly if the whole of it matches the RFC 3986 URI syntax with the scheme name optional, a port being a decimal number up to 65535; everything else is rejected. This holds for each component: scheme, user info, registered name, IPv4 and IPv6 literal, port, path, query and fragment.",
  ["inputs"],"all texts",
  "The property-based tests generate members of narrow sub-languages and never compare acceptance with the RFC for near-misses or for combinations of components.",
  [U+"parsers/uri_parsers.rs",U+"parsers/host_parsers.rs",U+"parsers/ip_v6_address_parsers.rs",U+"parsers/path_parsers.rs",U+"parsers/query_parsers.rs",U+"models/uri.rs"],
  [("uri grammar",U+"parsers/"),("Uri::parse",U+"models/uri.rs")])
p("U02","Parsed URI components are the text's components",
  "Each accessor of a parsed URI returns the component the grammar assigns to it: scheme, user name, password, host, port, path, query and fragment come from their own part of the text and no part is dropped, duplicated or exchanged. Query parameters keep their order, multiplicity and the difference between an absent and a present value.",
  ["inputs"],"all accepted texts",
  "Tests assert single components of a few texts; two components of the same type can be exchanged unnoticed.",
  [U+"parsers/",U+"models/"],[("AST construction",U+"parsers/"),("accessors",U+"models/")])
p("U03","Displaying a URI re-emits every component with its delimiter",
  "Displaying a URI, authority, host, user info, path or query writes every present component exactly once, in grammar order, with its own delimiter, and writes nothing for absent ones. So a parsed URI displays as the text it was parsed from whenever its host and port were written in canonical form.",
  ["inputs"],"all model values, in particular every combination of present and absent components",
  "The tests display one or two fully populated values.",
  [U+"models/"],[("Display impls",U+"models/")])
p("U05","IP addresses have the numeric value their text denotes",
  "Each octet of an IPv4 address equals the decimal number written for it, in order. Each 16-bit group of an IPv6 address equals the hexadecimal number written for it at its position, with zeros inserted exactly where the double colon stands and an embedded IPv4 tail contributing the last 32 bits.",
  ["inputs"],"all accepted IP literals",
  "Generated tests cover random full forms; each compressed form is a separate code path with its own index arithmetic.",
  [U+"parsers/ip_v4_address_parsers.rs",U+"parsers/ip_v6_address_parsers.rs"],[("ip_v4_address",U+"parsers/ip_v4_address_parsers.rs"),("ip_v6_address1..9",U+"parsers/ip_v6_address_parsers.rs")])
D="crond/src/"
p("D01","Cron expressions are accepted exactly within the documented field ranges",
  "A cron expression is accepted exactly if it is five fields separated by one blank, each field being a star, a stepped star, a value, a range, a stepped range or a comma list of those, with every value inside its field's range: minutes 0-59, hours 0-23, days 1-31, months 1-12, weekdays 1-7 or names, plus the last-value marker where documented. Trailing or missing text is rejected.",
  ["inputs"],"all texts",
  "Tests enumerate in-range values and a few out-of-range ones; lists, ranges, steps and the end of the text are barely sampled.",
  [D+"cron_parser.rs"],[("instruction and field grammars",D+"cron_parser.rs")])
p("D02","Parsed cron values equal the written values in their own field",
  "Every number in a cron expression is parsed to exactly the value written, weekday names to their documented numbers, and ranges, steps and lists keep their operands in written order. Each of the five fields ends up in the component of the schedule with its own name.",
  ["inputs"],"all accepted expressions",
  "Tests compare a few sample trees; exchanging two fields with overlapping ranges or from/to operands passes.",
  [D+"cron_parser.rs",D+"cron_expr.rs"],[("field maps",D+"cron_parser.rs")])
p("D03","A schedule matches a time exactly if all five fields match",
  "A schedule matches a point in time exactly if minute, hour, day of month, month and weekday (Sunday being 1) of that time each match their own field: a star always, a value if equal, a list if any member does, a range if the value lies between both ends inclusive and on its step counted from the lower end, a stepped star on multiples counted from zero, and the last-value marker on the field's greatest value for that date.",
  ["inputs"],"all schedules and all times",
  "Tests evaluate a few expressions at a few times; a wrong time component or bound goes unseen unless the sample separates them.",
  [D+"cron_evaluator.rs",D+"cron_specification.rs",D+"cron_expr.rs"],[("eval/visit",D+"cron_evaluator.rs")])
p("D04","Upcoming schedule times are increasing, matching and inside the interval",
  "Iterating a schedule over an interval with a start yields only times that satisfy the schedule, in strictly increasing order, at whole minutes from the interval's start, and never beyond the interval's end (the end itself included), whether there is an end or not. It never skips a matching minute inside the interval.",
  ["inputs","histories"],"all schedules, intervals and iteration lengths",
  "One test takes a few steps of one schedule far from the interval's end.",
  [D+"cron_interval_iterator.rs",D+"cron_interval.rs",D+"cron_schedule.rs"],[("next/proceed_next/end_value",D+"cron_interval_iterator.rs")])
p("D05","No accepted cron expression makes evaluation panic",
  "Evaluating any schedule that the parser accepts, or iterating it over an interval with a start, never panics, in particular not for a step of zero and not for any date including leap days, year ends and the last representable times.",
  ["inputs"],"all accepted expressions, all dates",
  "No test evaluates degenerate steps or special dates.",
  [D+"cron_evaluator.rs",D+"cron_parser.rs"],[("step evaluation and date arithmetic",D+"cron_evaluator.rs")])
H="hocon/src/"
p("H01","Configuration loading reports I/O and syntax errors as errors",
  "Loading a configuration from a file or text returns an error when the file cannot be opened or read or when the text does not parse; it never turns such a failure into an empty or partial configuration. This holds for included files as well and for references that cannot be resolved. Text made of properties, of an object or of includes, with blanks, blank lines and comments around them, loads.",
  ["fault_sequences","inputs"],"all I/O failures and all malformed texts",
  "The tests load existing, well-formed files only.",
  [H+"model.rs"],[("ConfigFactory",H+"model.rs")])
p("H02","String values are the text written",
  "A quoted string (single or double quotes) denotes exactly the characters between its quotes, blanks, reserved characters and comment signs included, with every escape replaced by the character it names (a pair of \\u escapes may name one character). An unquoted string denotes the text up to the next reserved character, comment (# anywhere, // after a blank) or end of line, without trailing blanks, also inside objects and arrays and also when it begins like a number, a duration, true, false or null.",
  ["inputs"],"all string literals, in every place a value can stand",
  "Tests read a few strings; each pair of neighbouring characters and each surrounding is a separate case.",
  [H+"parsers.rs"],[("string grammar",H+"parsers.rs")])
p("H03","Merging keeps every key and lets later values win",
  "Merging two objects keeps the keys of both: a key present in only one keeps its value, two objects under the same key merge recursively, and otherwise the later value wins. A substitution denotes the final value of the path it names (or the environment variable of that name); an optional one without a value leaves the value assigned before it, or no value. Resolving substitutions keeps every other key.",
  ["inputs","histories"],"all object values and merge sequences",
  "Tests merge two small objects; a lost or reversed key in other shapes goes unseen.",
  [H+"model/config_object_value.rs",H+"model/config_value.rs",H+"model.rs"],[("merge_with",H+"model/config_object_value.rs"),("resolve",H+"model/config_value.rs")])
p("H04","Number and duration literals denote the written quantity",
  "A number literal, with optional sign, fraction and exponent, yields exactly the decimal value written, and a duration literal yields that value with exactly the unit named; every documented unit spelling, short or long, singular or plural, is recognised in full.",
  ["inputs"],"all number and duration literals",
  "Tests cover a few values and units; a unit that is a prefix of a longer spelling hides it.",
  [H+"parsers.rs",H+"model/config_number_value.rs",H+"model/config_duration_value.rs"],[("number/duration grammar",H+"parsers.rs")])
p("H05","Duration conversions use the right factor for every unit",
  "Converting a configured duration to a time span multiplies its value by the length of its own unit: nanoseconds, microseconds, milliseconds, seconds, minutes (60 s), hours (3600 s), days (86400 s) and longer units where supported; printing a unit names that unit.",
  ["inputs"],"all units and values",
  "Each unit is a separate arm; tests cover few.",
  [H+"model/config_duration_value.rs",H+"model/time_unit.rs"],[("conversion arms",H+"model/config_duration_value.rs")])
p("H06","Library crates never write to standard output",
  "Parsing, evaluating or loading through the library crates never writes to the process's standard output or error streams.",
  ["inputs","programs"],"all uses of the library crates",
  "Tests do not observe the standard streams.",
  ["parser/src","uri/src","crond/src","hocon/src"],[("print macros","all library sources")])
p("H07","Typed configuration access returns the addressed value or nothing",
  "Looking up a dotted path descends one object level per path segment and returns the value stored there, or nothing if a segment is missing; presence tests agree with lookups. Typed accessors return a value exactly when the stored value has that type, and the value returned is the one stored.",
  ["inputs","configurations"],"all configurations and paths",
  "Tests read a few existing keys.",
  [H+"model/config_value.rs",H+"model.rs"],[("get_value/has_path/to_*",H+"model/config_value.rs")])
p("H08","Blanks, line ends and comments do not change a configuration, and brackets and quotes balance",
  "Blanks between tokens, and blank lines and comments (# or //, to the end of the line, any number of them) where a line may end, change neither acceptance nor the configuration that is read; the next line never continues a value that was complete. A text with an unbalanced bracket or quote, or cut inside a bracket, is rejected.",
  ["inputs"],"all configurations and all places for blanks, line ends and comments",
  "Tests use a few fixed layouts; a comment swallowed into a value or a value that reaches into the next line shows only in particular neighbours.",
  [H+"parsers.rs"],[("space/comment, value ends",H+"parsers.rs")])
T="toys/src/"
p("T01","Operators build and compute the operation they are written as",
  "Each operator of the toy language builds the expression of its own operation with the left operand on the left, binds at its own level (* and / tightest, then %, then + and -, then the comparison and logical operators, which share one level) and associates to the left, parentheses overriding this, and evaluating that expression computes that operation on the values of its operands.",
  ["programs"],"all expressions",
  "Tests evaluate a few expressions with one or two operators.",
  [T+"parsers.rs",T+"expr.rs",T+"interpreter.rs"],[("operator tables",T+"parsers.rs"),("interpret arms",T+"interpreter.rs")])
p("T02","Assignments and definitions take effect in the current scope",
  "Assigning a variable, defining a global or binding call arguments makes the new value visible to every later evaluation step in that scope and in the calls it makes (an assignment in a function binds in that function's call), arguments are evaluated in the caller's scope and bound to parameters in order (or by label), and the caller's bindings are in force again after a call returns. A program's definitions are all in force, whatever their order relative to main; of two functions of one name the last counts.",
  ["programs","histories"],"all programs",
  "Tests run a factorial and a loop only; bindings written to a discarded copy are never read back.",
  [T+"interpreter.rs",T+"environment.rs"],[("environment updates",T+"interpreter.rs")])
p("T03","Every expression the grammar can produce has an evaluation rule",
  "Every kind of expression the parser can produce (literals with their escapes, arrays, symbols of any admitted spelling, parentheses, operators, calls, statements) is handled by the interpreter with a rule of its own and has the value written, in every place an expression can stand; none ends in the interpreter's fallback abort. An empty block, a missing else branch and a loop that never runs evaluate without aborting.",
  ["programs"],"all syntactically valid programs",
  "Tests run three sample programs.",
  [T+"interpreter.rs",T+"expr.rs",T+"parsers.rs"],[("interpret match",T+"interpreter.rs")])
p("T04","Control flow runs the branch and iterations the program denotes",
  "A conditional evaluates exactly the branch selected by its condition, a while loop re-evaluates its condition before each iteration and stops at the first false one, a block evaluates its expressions in order and yields the last value, and a counted loop runs its body once for each value from its lower bound up to but excluding its upper bound.",
  ["programs"],"all programs",
  "Tests run one loop and one conditional.",
  [T+"interpreter.rs",T+"parsers.rs",T+"expr.rs"],[("interpret control arms",T+"interpreter.rs")])
p("T05","A program's text is accepted only if all of it is well formed, and blanks do not matter",
  "A text is accepted as a toy program only if the whole of it is a sequence of well-formed definitions: a text with a missing bracket, semicolon, separator, equals sign or keyword, a text cut short inside a block, a text followed by anything that is no definition, and a text with a character outside string literals that belongs to no token are all rejected. Blanks (spaces, tabs, line ends) before or after a token change neither whether a text is accepted nor the expressions it denotes.",
  ["programs"],"all texts",
  "Tests parse a handful of well-formed programs in one layout each and reject none.",
  [T+"parsers.rs"],[("program",T+"parsers.rs"),("token parsers",T+"parsers.rs")])
p("G01","The shipped grammars terminate on every input",
  "The URI, cron, configuration and toy-language grammars terminate on every input: no rule can call itself again at the same position, and no repetition repeats an element that can succeed without consuming input.",
  ["inputs"],"all texts, for every shipped grammar",
  "A non-terminating loop needs the particular nullable element to be reached; tests never time out today only because they do not try it.",
  [U+"parsers/",D+"cron_parser.rs",H+"parsers.rs",T+"parsers.rs"],[("grammars","all parser modules")])
p("U04","URI, cron and configuration parsing never panics",
  "Parsing any text as a URI, a cron expression or a configuration returns a value or an error and never panics.",
  ["inputs"],"all texts",
  "Panics sit behind conversions and indexing that only particular texts reach.",
  [U+"parsers/",D+"cron_parser.rs",H+"parsers.rs",H+"model.rs"],[("unwrap/expect/index/panic sites","all parser modules")])
