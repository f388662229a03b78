#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when the list changes)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONV, INIT, STYLES, UTIL = 'sqlparams/_converting.py', 'sqlparams/__init__.py', 'sqlparams/_styles.py', 'sqlparams/_util.py'
M_REPL = {'name': 'per-pair regex replacement callbacks which write the out-placeholder and record how to fill the out-parameters', 'where': CONV}
M_CONV = {'name': 'convert_params steps of the nine converters', 'where': CONV}
M_MANY = {'name': 'convert_many and convert_many_params of the nine converters', 'where': CONV}
M_RE = {'name': 'in-style regular expressions, assembled per instance', 'where': STYLES + ', ' + INIT}
M_FMT = {'name': 'format() and formatmany() of SQLParams', 'where': INIT}
M_INIT = {'name': 'constructor and properties of SQLParams', 'where': INIT}
FM = ['SQLParams.format', 'SQLParams.formatmany']

P = []
def add(id, title, statement, over, text, why, files, mech, observe=FM, tech='', note=''):
	P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
		anchors={'files': files, 'mechanism': mech, 'observe_at': observe, 'hook_needed': None}), tech, note))

add('C01', 'A converted query binds every placeholder to its original value',
	'For every pair of the nine styles, reading the converted query as a driver of the out-style would (looking up each out-placeholder in the returned out-parameters) gives the original text with exactly the original value at every placeholder, in order. '
	'The out-parameters have the container of the out-style (dict for named styles, list for the others), hold an entry for every out-placeholder, and hold no entry that the query does not use. '
	'Tuples count as their expansion "(v1,v2,...)", or "(NULL)" when empty, where expansion is on.',
	['inputs', 'configurations'], 'all 81 style pairs, all options, all queries whose placeholders are not glued to word characters and whose literal text holds no marker, all parameter values and containers',
	'The tests check one or two hand-written queries per style pair; the guarantee ranges over arbitrary queries, repetition, order and shapes of parameters in all 81 pairs.',
	[CONV, STYLES, INIT], [M_REPL, M_CONV, M_RE],
	tech='property-based testing: differential against an independent scanner and interpreter of converted queries',
	note='Random search over structured queries with an independent interpreter of the result as the oracle; trusts that interpreter.')
add('C02', 'Exactly the documented placeholder syntax is recognised',
	'A placeholder is the lead character of the in-style followed by its documented form (a name of ASCII letter or underscore then word characters; a decimal number; "s"; "(name)s"; for named_oracle optionally a name in matching double quotes; "?" alone not next to another "?"), and a lead directly after another lead is text unless that one ended an escape sequence of the default escape. '
	'All other text is copied unchanged, except that an enabled escape sequence becomes the lead character and literal percent signs are doubled when going from a style without "%" to one with it. '
	'The converted query and parameters are therefore a function of this syntax alone, for any text whatever.',
	['inputs', 'configurations'], 'every string over a marker-heavy alphabet up to a length bound, and arbitrary strings, for all 81 pairs and for no, default and custom escape strings',
	'Tests use a few well-formed queries; wrong recognition needs particular adjacent characters (casts, doubled leads, times, quotes, escapes beside placeholders).',
	[STYLES, INIT, CONV], [M_RE, M_REPL],
	tech='bounded-exhaustive enumeration plus property-based testing against a hand-written scanner',
	note='Exhaustive over short strings of a per-style alphabet, random beyond; the oracle is an independent scanner without regular expressions.')
add('C03', 'Values travel beside the query untouched; SQL depends on shapes only',
	'The converted query depends on the in-query and on the shape of the parameters (which are tuples to expand, and their lengths), never on the values: no part of a value is ever written into the query. '
	'Every value, or element of an expanded tuple, comes out as the very same object; conversion does not inspect, copy, compare or convert it.',
	['inputs', 'configurations'], 'all values, including objects which raise on any inspection and strings that look like SQL or placeholders, in all style pairs, str and bytes queries',
	'Tests use ordinary ints and strings, and compare by equality, so that a copy, coercion or rendering of a value is invisible to them.',
	[CONV, INIT], [M_REPL, M_CONV],
	tech='property-based testing: metamorphic (same shape, other values), with values that raise on inspection',
	note='Compares the queries for hostile, opaque and random values of one shape, and object identity of everything returned.')
add('C04', 'Tuples, and only tuples, expand to parenthesised lists',
	'With tuple expansion on, each placeholder whose value is a tuple (or instance of a subclass of tuple) of n elements becomes "(p1,...,pn)" with the elements bound in order, one level deep, and "(NULL)" when it is empty; every other value, including lists, sets, ranges, strings and falsy values, is one parameter. '
	'With expansion off every value is one parameter; by default it is on for numeric and ordinal out-styles and off for named ones.',
	['inputs', 'configurations'], 'all tuples (length 0 to thousands, nested, subclasses) and look-alikes, in all style pairs, expansion unset, on and off, format and formatmany',
	'Tests expand one short tuple per pair; lengths such as 0, 1, 10+, mixed tuple and scalar positions, repeated tuple parameters and look-alike types are not covered.',
	[CONV, INIT], [M_REPL, M_CONV, M_INIT],
	tech='property-based testing against a reference model of expansion',
	note='Values biased to tuples and look-alikes; the interpreter of C01 is the oracle.')
add('C05', 'Numeric out-parameters are numbered once each, in order of first use',
	'Into numeric styles, out-parameters are numbered 1, 2, 3 and so on without gaps in order of first appearance, each named or numbered in-parameter (and each element of an expanded tuple) has one number and one list entry however often it is used, and distinct in-parameters never share a number even if their values are equal. '
	'Into ordinal styles the list has one entry per placeholder in order of appearance, repeated when a parameter is repeated. '
	'A query without out-parameters gives an empty list.',
	['inputs'], 'all sequences of placeholders over few parameters with every shape (exhaustive to a bound), random ones up to 100 parameters, for every in-style and the four numeric and ordinal out-styles',
	'Tests use each parameter once or twice in one fixed order; numbering errors need repetition, tuples before and after scalars, equal values, or more than nine parameters.',
	[CONV], [M_REPL, M_CONV],
	tech='bounded-exhaustive enumeration plus property-based testing against a numbering model',
	note='Exhaustive up to 4 (thorough 5) placeholders over 3 parameters with 4 shapes.')
add('C06', 'Named out-parameters: one name per source, never shared, names kept',
	'Into named styles, every out-placeholder is named by a key of the returned dict bound to the right value, every use of one in-parameter (spelled alike; or one element of an expanded tuple) has the same name, and different ones never share a name. '
	'A scalar parameter from a named style keeps its name (for named_oracle its canonical name). '
	'Parameters whose own name ends like the generated names "__<n>_sqlp" are excepted while tuples are expanded.',
	['inputs', 'configurations'], 'all queries from all nine in-styles into the five named styles, with and without expansion, up to 100 parameters and tuples up to 23 elements',
	'A collision of generated names needs particular combinations of numbers, positions and tuple lengths (1 and 10, _1 and _1_0); tests use one or two parameters.',
	[CONV], [M_REPL, M_CONV],
	tech='property-based testing: injectivity and completeness invariants over generated names',
	note='The naming scheme itself is not fixed here, only that it is injective and complete. One known finding (see known_findings.jsonl).')
add('C07', 'formatmany() equals format() applied to each parameter set',
	'For rows of the same shape, formatmany() returns the query that format() returns for any of the rows, and a list with, for every row in order, the parameters which format() returns for that row. '
	'This holds for any iterable of rows, which is iterated only once, for rows in containers of different kinds, and for str and bytes queries.',
	['inputs', 'configurations'], 'all style pairs and options, 1 to 6 rows, all kinds of iterables and of row containers; for named_oracle all rows spell their keys alike',
	'formatmany has its own copy of the conversion in each of the nine converters; tests run it with two or three uniform rows in a list.',
	[CONV, INIT], [M_MANY, M_FMT],
	tech='property-based testing: differential between formatmany and format',
	note='Differential of two public entry points; catches disagreement, not an error common to both (C01, C04, C05, C06 do).')
add('C08', 'formatmany() refuses a row which does not fit the query',
	'When tuples are expanded and the first row has a tuple for a parameter, a later row with a non-tuple there is refused with TypeError, and one with a tuple of another length (including a non-empty one after an empty one) with ValueError. '
	'A row at any position which lacks a parameter of the query is refused with LookupError, and one which is no container of the right kind with TypeError. '
	'No parameter sets are returned for such input.',
	['inputs'], 'any valid call broken in one row, at any position, for any referenced parameter, in all style pairs',
	'Tests break one fixed row of one query; the checks exist in eighteen copies and at each position of a row.',
	[CONV], [M_MANY],
	tech='property-based fault injection: one broken row per otherwise valid call',
	note='Checks the kind of the exception, not its message.')
add('C09', 'Escape sequences stand for one literal lead character and nothing else',
	'With escape_char set, each escape sequence (the doubled lead by default, or the escape string followed by the lead) stands for one literal lead character, also directly beside other escape sequences, and with the default escape directly beside placeholders; no other text is affected by it. '
	'Escaping all leads of any text and converting it gives the text back with no parameters. '
	'Without escape_char, doubled leads are left as they are and are no placeholders.',
	['inputs', 'configurations'], 'all texts and positions of escape sequences, default and custom escape strings of one to three characters including regular expression specials, percent signs and leads, all style pairs',
	'Tests have one escape sequence per style; errors need adjacency, several sequences, long or special escape strings.',
	[STYLES, INIT, CONV], [M_RE, {'name': 'escape branch of the replacement callbacks (_escape_start)', 'where': CONV}],
	tech='property-based testing: metamorphic (substitution) and round-trip relations',
	note='A custom escape string is assumed to occur only in escape sequences.')
add('C10', 'Percent signs survive conversion into percent styles',
	'Converting from a style without "%" to format or pyformat doubles every literal percent sign, so that interpolating the result with Python\'s % operator gives the original text with the values in place, also when percent signs stand directly beside placeholders, and converting back with escape_char=True restores it. '
	'Between styles without "%" percent signs stay as they are.',
	['inputs', 'configurations'], 'all texts with percent signs in any position and number, from seven in-styles to all out-styles, format and formatmany',
	'Tests have single percent signs in a LIKE clause; what matters is every adjacency and the nine copies of the code.',
	[CONV, INIT], [{'name': 'out_percent alternative of the in-regex and its branch in the callbacks', 'where': INIT + ', ' + CONV}],
	tech='property-based testing with Python\'s % operator as the oracle, and round trips',
	note='The oracle is the interpolation that PEP 249 drivers do.')
add('C11', 'Comment stripping removes exactly the comments that begin a line',
	'With strip_comments, every comment whose start is the first non-blank text of a line is removed together with its indentation and its line end (LF or CRLF): a single line comment to the end of the line, a multiline comment to its first ending string, whatever they contain, placeholders included. '
	'Everything else, trailing comments and unterminated multiline comments included, is converted as if stripping were off. '
	'With strip_comments unset, False or empty nothing is removed.',
	['inputs', 'configurations'], 'all texts made of code lines, comment lines and multiline comments, default and custom comment styles (with regular expression specials), str and bytes, format and formatmany',
	'Tests strip a few fixed comments in fixed queries.',
	[INIT], [{'name': 'comment regular expressions and their application', 'where': INIT}],
	tech='property-based testing: comments removed by construction are the oracle',
	note='Texts are built from parts so that the right answer is known; a comment exposed by removing another one in the same line is left open.')
add('C12', 'A bytes query is converted exactly like its Latin-1 text',
	'Converting a bytes query gives bytes which decode (Latin-1) to what converting the decoded text gives, with identical parameters, for format and formatmany; every byte value passes through unchanged (Oracle names whose upper case is not Latin-1 are excepted). '
	'A str query gives str. '
	'Where one is refused, so is the other, with the same kind of error.',
	['inputs', 'configurations'], 'all byte strings, structured and random, all style pairs and options',
	'Tests use ASCII bytes, where every encoding agrees.',
	[INIT], [{'name': 'Latin-1 decoding and encoding around the conversion', 'where': INIT}],
	tech='property-based testing: differential between bytes and str',
	note='All 256 byte values; Oracle names restricted to ASCII, since upper-casing can leave Latin-1.')
add('C13', 'Oracle names: unquoted fold case, quoted do not; output quoting',
	'For named_oracle an unquoted spelling, of a placeholder or of a parameter key, means the upper-case name and a quoted spelling means exactly the quoted name; a placeholder binds to the key that means the same name and is refused with LookupError when there is none. '
	'Into named_oracle with allow_out_quotes every placeholder and every key of the out-parameters is written in double quotes, otherwise none; a quoted result converts to itself.',
	['inputs', 'configurations'], 'all combinations of spellings of placeholders and keys over a small set of names (exhaustive), and random mixed queries, into all out-styles, format and formatmany',
	'Tests cover a handful of spellings; the rule is a relation over pairs of spellings, and is implemented once per converter.',
	[CONV, STYLES], [{'name': 'Oracle quoting helpers and the search through the parameters', 'where': CONV}],
	tech='bounded-exhaustive enumeration plus property-based testing against a model of the naming rule',
	note='Names of ASCII letters and of letters with a single-letter upper case; keys of one parameter set are assumed to mean different parameters.')
add('C14', 'Conversions are independent: no state survives or leaks between calls',
	'The result of a conversion depends only on the configuration of the instance and the arguments: not on earlier calls, successful or failed, on the same or other instances, on conversions running inside this one (a parameter mapping that converts another query when read), or on the number of queries converted before. '
	'Results returned earlier never change.',
	['histories'], 'histories of operations over several instances of like and unlike configuration, with repeated queries of other shapes, failing calls, nested calls, changed results and hundreds of distinct queries',
	'Every test makes a fresh instance and one call; a cache or leaked counter shows only in histories.',
	[INIT, CONV], [{'name': 'all state of a conversion is local to the call', 'where': CONV}],
	tech='stateful property-based testing against a stateless reference model',
	note='The exact model of the generated names is that of the tests of the repository.')
add('C15', 'The container of the parameters makes no difference',
	'A named style accepts any Mapping, and numeric and ordinal styles accept any Sequence or any Mapping keyed by int or by decimal string or bytes (numeric from 1, ordinal from 0), in any key order, with unrelated other keys and with gaps where the query does not refer; the same values give the same result whatever the container. '
	'This holds for format and for each row of formatmany.',
	['inputs', 'configurations'], 'all style pairs, seven kinds of mapping, seven of sequence, int, str and mixed keys, noise keys of many types',
	'Tests use dict, list and tuple.',
	[CONV, UTIL], [{'name': 'mapping-as-sequence normalisation, is_sequence', 'where': CONV + ', ' + UTIL}],
	tech='property-based testing: metamorphic (same values, other container)',
	note='Both results come from the library; C01 ties one of them to the model.')
add('C16', 'Missing parameters and unusable arguments are refused',
	'A conversion whose query refers to a parameter that was not given (a name, a number out of range including 0, or more placeholders than values) raises LookupError and never binds anything else in its place. '
	'Parameters in the wrong kind of container, a query which is neither str nor bytes, rows which are not iterable or are a string, and option values or style names of the wrong type raise TypeError; an unknown style name raises LookupError. '
	'A refused call has no effect on later ones.',
	['inputs', 'configurations'], 'every valid conversion broken in one way, in all style pairs, in format and formatmany',
	'Tests break a few fixed calls; silent misbinding (for example through negative indices) needs particular combinations of style, container and number.',
	[INIT, CONV, UTIL], [M_INIT, M_CONV, {'name': 'type checks of the nine converters', 'where': CONV}],
	tech='property-based fault injection on otherwise valid calls',
	note='Checks the kind of the exception, not its message.')
add('C17', 'Conversions compose and lead back',
	'Converting from A to B and the result from B to C means the same as converting from A to C directly, for chains of any length, with tuples expanded in any one of the steps. '
	'Converting a named or ordinal style (except named_oracle) to itself without expansion returns the query unchanged with the parameters it uses.',
	['inputs', 'configurations'], 'all chains of 2 to 6 styles over random structured queries; percent signs leave percent styles with escape_char=True',
	'No test feeds a result back in; 729 chains of length two exist.',
	[CONV, STYLES, INIT], [M_REPL, M_CONV, M_RE],
	tech='property-based testing: metamorphic over chains of conversions',
	note='The end of a chain is compared with the reference meaning of its start.')
add('C18', 'Only the referenced parameters and their own text matter',
	'Adding, removing or replacing parameters which the query does not refer to changes nothing in the result. '
	'For ordinal out-styles, and from named to named styles, converting two texts apart and joining the results equals converting the joined text. '
	'Changing literal text around placeholders changes no parameter, and literal text appears in the result where it stood.',
	['inputs'], 'random structured queries in all style pairs, with unrelated parameters of any name, value and position, and cuts at any literal',
	'Tests give exactly the parameters a query needs.',
	[CONV], [M_REPL, M_CONV],
	tech='property-based testing: metamorphic (unrelated parameters, concatenation, text replacement)',
	note='All relations are between results of the library; C01 ties them to the model.')
add('C19', 'SQLite executes the converted query as the original was meant',
	'A query converted from any in-style to a style which SQLite supports, executed with the returned parameters, selects exactly the rows that satisfy the condition as written with the values in place (in three-valued logic, an empty tuple in IN being NULL), whatever text the values hold. '
	'Rows inserted through formatmany() and executemany() are stored unchanged.',
	['inputs', 'configurations'], 'random nested conditions with comparisons, BETWEEN and IN over tables with NULLs and hostile strings, from nine in-styles to six out-styles',
	'The tests never execute a query.',
	[CONV, INIT, STYLES], [M_REPL, M_CONV, M_MANY],
	observe=FM + ['sqlite3'],
	tech='property-based testing: end-to-end differential of SQLite against a three-valued evaluator',
	note='Trusts SQLite and the evaluator in Python; numeric styles are bound by name.')
add('C20', 'Instances report the configuration they use and can be rebuilt from it',
	'in_style, out_style, escape_char, expand_tuples and strip_comments are read-only and report the effective configuration with the documented defaults (True standing for the default escape or comment styles, False and unset for none; expansion by out-style). '
	'An instance rebuilt from the reported values, with the same allow_out_quotes, converts every query identically, options work alike by position and keyword, and the repr names both styles and evaluates to an instance of them.',
	['configurations', 'inputs'], 'all style pairs and option values, with probing queries',
	'Tests do not look at the properties together, nor rebuild an instance.',
	[INIT], [M_INIT], observe=['SQLParams properties', 'repr', 'SQLParams.format'],
	tech='property-based testing: configuration round trip and model of the defaults',
	note='Differential between the instance and its rebuilt copy.')
add('C21', 'An instance can be shared between threads',
	'When several threads convert queries at once on one shared instance, each gets the result it would get alone.',
	['schedules', 'inputs'], 'interleavings of two or three threads at line granularity, for random configurations and queries',
	'Every test is single-threaded.',
	[INIT, CONV], [{'name': 'all state of a conversion is local to the call', 'where': CONV}],
	tech='property-based testing of generated thread schedules (deterministic scheduler), against the reference model',
	note='Switches at traced lines of the library only.')
add('C22', 'prebuild derives the README files from their sources, exactly',
	'Running prebuild.py turns README.rst.in into README.rst by replacing exactly the known documentation roles and appending the three link targets, and writes README-dist.rst as README.rst, two newlines and CHANGES.rst; all other text is kept, in UTF-8 whatever the locale. '
	'The sources are not changed, and running it again changes nothing.',
	['inputs', 'configurations'], 'random source texts with roles, near misses, Unicode and stale outputs, in process and as a separate process under other locales',
	'There is no test of prebuild.py.',
	['prebuild.py'], [{'name': 'generate_readme, generate_readme_dist', 'where': 'prebuild.py'}], observe=['README.rst', 'README-dist.rst'],
	tech='property-based testing against a left-to-right rewriting model, in scratch directories',
	note='Runs only inside scratch directories; texts without carriage returns.')
add('C23', 'The caller\'s objects are only read; results are fresh containers',
	'format() and formatmany() never modify the query, the parameters, the rows or their containers, whether they succeed or fail. '
	'Every returned parameter set is a new container of its own, not the container of the caller (even when nothing has to be changed) and not shared with another row or result, so that changing one changes nothing else.',
	['inputs', 'histories'], 'all style pairs, equal in- and out-styles included, all containers, rows that are the same object, and failing calls',
	'Tests throw inputs and results away after comparing them.',
	[CONV, INIT], [M_CONV, M_MANY],
	tech='property-based testing: aliasing and immutability invariants',
	note='Compares keys, order and object identity before and after.')

add('C24', 'The caller\'s own errors pass through unchanged',
	'An exception which the caller\'s objects raise while a conversion reads them (a mapping or sequence of parameters, an expanded tuple, or an iterable of rows, at any position) leaves format() or formatmany() as the very same exception object, errors with which Python\'s own protocols report missing items and the end of iteration aside. '
	'Nothing is returned for such a call, and it has no effect on later conversions, of the same objects or others.',
	['fault_sequences', 'inputs', 'configurations'], 'all style pairs, 12 kinds of error, at each point at which a container, a tuple or an iterable of rows can fail, with up to 5000 rows',
	'No test passes an object that fails.',
	[CONV, INIT], [M_REPL, M_CONV, M_MANY],
	tech='property-based testing with injected faults',
	note='The faults are in caller-supplied containers; whether the library reads a given item is its own choice, and only faults that were reached count.')

add('C25', 'Conversions depend on their arguments only, and touch nothing else',
	'The same options, query and parameters give the same result, or the same kind of error, in every process: whatever the hash seed, -O and -OO, warnings turned into errors, the locale, environment variables, garbage collection, thread, event loop or tracing, and whatever was converted before. '
	'A conversion opens no file or connection, starts no process or thread, prints and warns of nothing, and changes no process-wide state (environment, warning filters, random state, locale, contexts, hooks).',
	['configurations', 'inputs', 'histories'], 'all style pairs, valid and failing calls, in 24 environments of a fresh process',
	'The tests run in one environment, and look at nothing but the result.',
	[CONV, INIT, STYLES], [M_REPL, M_CONV, M_INIT], observe=FM + ['audit events', 'stdout', 'stderr', 'process-wide state'],
	tech='property-based testing: differential between processes, and an audit hook',
	note='One version of Python. Files opened by a late import do not count.')
add('C26', 'Nothing of a conversion is kept',
	'When format() or formatmany() has returned or failed, the library holds on to none of its parameters: the containers, rows and iterables of the caller can be freed while the result lives, and the values once the result is gone as well, however many calls the instance has served.',
	['histories', 'inputs', 'configurations'], 'all style pairs, containers and kinds of calls, repeated on long-lived instances',
	'The tests create an instance for each conversion and never look at lifetimes.',
	[CONV, INIT], [M_REPL, M_CONV, M_MANY], observe=['weak references to values, containers, rows and iterables'],
	tech='property-based testing: an invariant over lifetimes',
	note='Garbage collection counts as freeing. Queries (texts) may be cached.')
add('C27', 'Conversion time stays moderate for every input',
	'format() and formatmany() end promptly, in a result or in the LookupError of a missing parameter, however long or repetitive the query, its names, comments, quotes and escape sequences are, and however many placeholders, parameters, tuple elements and rows there are. '
	'Time grows about quadratically at worst, and there is no length or depth at which they fail.',
	['inputs', 'configurations'], 'repetitions of one to four pieces of text for every in-style and twelve configurations; up to 20000 parameters, elements and rows',
	'The tests use short queries.',
	[INIT, CONV, STYLES], [{'name': 'regular expressions of styles and comments', 'where': STYLES}, M_INIT],
	tech='property-based testing with generated repetitions, under a limit of processor time',
	note='The limit of 10 s of processor time is about 20 times what the slowest case takes; it tells high-degree growth, not a constant factor.')

def enumerated(id, tech):
	with open(os.path.join(HERE, 'pbt', 'props', id.lower() + '.py')) as fh:
		grid = 'def enumerate_cases' in fh.read()
	return 'bounded-exhaustive enumeration plus ' + tech if grid and 'bounded-exhaustive' not in tech else tech


with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
	for p, _, _ in P:
		fh.write(json.dumps(p, ensure_ascii=False) + '\n')
manifest = {
	'version': 1,
	'setup_cmd': './check.sh --selftest',
	'checks': [{
		'property': p['id'], 'quick_cmd': './check.sh %s' % p['id'], 'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
		'evidence_file': 'evidence/%s.json' % p['id'], 'technique': enumerated(p['id'], t), 'level': 'exploration', 'level_note': n,
	} for p, t, n in P],
	'not_applicable': [],
	'notes': 'No hooks in /repo. Pure Python: the checks import the working tree of /repo directly, with byte-code caches off. known_findings.jsonl lists repaired defects and one recorded finding.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
	json.dump(manifest, fh, indent=1)
	fh.write('\n')
