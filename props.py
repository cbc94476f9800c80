#!/usr/bin/env python3
"""The properties: text, harness jobs and bounds.  `props.py gen` writes properties.jsonl and MANIFEST.json."""
PROPS = {}
NA = {}
# reach ids every run must hit, by harness (default: [1])
REACH = {'css_accept': [1, 2], 'css_needless': [1, 2], 'json_enc': [1, 2], 'css_write': [1, 2], 'js_write': [1, 2], 'json_write': [1, 2], 'js_agg': [1, 2], 'js_decl': [1, 2], 'js_replace': [1, 2, 3], 'js_kinds': [1, 2, 3, 4, 5, 6, 7], 'js_array': [1, 2], 'html_content': [1, 2], 'html_comments': [1, 2], 'cli_run': [1, 2, 3]}
TECH = 'symbolic execution of the compiled LLVM IR of the real code with z3 (own executor, /verif/symx)'


def prop(id, title, statement, over, qtext, why, files, mech, quick, bounds, thorough=None, outside='', note='', assumptions=()):
    assert len(title) <= 80, title
    PROPS[id] = dict(
        title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
        quick=quick.split(), thorough=(thorough or quick).split(), bounds=bounds, outside=outside, note=note, assumptions=list(assumptions))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason)


SZ = 'lengths 0-1030 around powers of two (511, 512, 1000, 1023, 1024, 1030 included)'
# ------------------------------------------------------------------ JSON
J = ['src/json/mod.rs', 'src/json/json_minifier.rs', 'src/json/string.rs']
JR = J + ['src/json/read/json_read.rs', 'src/json/read/internal_reader.rs', 'src/json/read/internal_buffer.rs', 'src/json/read/byte_to_char.rs']
prop('J01', 'JSON minification removes exactly the whitespace between tokens',
     'For every valid JSON text, the minified text is the same text with the whitespace outside strings removed and nothing else added, dropped, changed or reordered. '
     'Strings are byte-for-byte what they were, whatever escapes, quotes, control-like or non-ASCII characters they hold, and numbers and literals keep their spelling.',
     ['inputs'], 'every valid JSON text (RFC 8259)',
     'The unit tests check a handful of documents; which characters of a string survive depends on every escape history before them.',
     J, [('string-state tracking', 'src/json/json_minifier.rs'), ('byte filter over the text', 'src/json/string.rs')],
     'json_preserve:0-7,100-104,120-124,140-143,160-164,200-203,300,400-425,500-525,600-614,700-715,800-810',
     'all valid JSON texts of up to 7 bytes; strings of up to 4 arbitrary bytes in 4 document templates; every three neighbouring gaps of a nested document with up to three whitespace characters each; all pairs of 27 scalars with free gaps; long strings, gaps, escape runs, nesting to 259 and string lists (' + SZ + ') with two free bytes',
     'json_preserve:0-9,100-106,120-126,140-144,160-166,200-203,300,400-425,500-525,600-614,700-715,800-810')
prop('J02', 'Minified JSON stays valid, never grows, and re-minifies to itself',
     'Minifying a valid JSON text gives a valid JSON text that is no longer than the original, and minifying the result again changes nothing.',
     ['inputs'], 'every valid JSON text', 'Tests compare a few outputs with expected strings; none feeds an output back or validates it.',
     J, [('string-state tracking', 'src/json/json_minifier.rs')],
     'json_idem:0-7,100-104,120-124,140-143,160-164,200-203,300,400-425,500-525,600-614,700-715,800-810',
     'as J01, the validity judged by an independent RFC 8259 recogniser',
     'json_idem:0-9,100-106,120-126,140-144,160-166,200-203,300,400-425,500-525,600-614,700-715,800-810')
prop('J03', 'Streaming JSON minification equals in-memory minification',
     'Reading valid UTF-8 text through the streaming minifier delivers, once the reader reports its end, exactly the bytes of minifying the same text in memory. '
     'This holds for every way the source splits its data into reads and for every sequence of buffer sizes the consumer passes, including sizes smaller than one character.',
     ['inputs', 'schedules'], 'every text, every chunking by the source and every sequence of consumer buffer sizes',
     'The tests read from in-memory slices with one buffer size, so no character or escape ever straddles a read boundary.',
     JR, [('refilled internal buffer', 'src/json/read/internal_buffer.rs'), ('byte to character reassembly', 'src/json/read/byte_to_char.rs'), ('partial character hand-out', 'src/json/read/json_read.rs')],
     'json_stream:0-5,10-19,20-35,40,41,63,110-119,120-145,210-219,221,230,240-245',
     'free texts to 5 bytes and 10 fixed multi-byte texts with free chunk sizes 1-4 for the first four reads and free consumer sizes 1-4 for the first three; long texts (' + SZ + ') with every pair of chunk and buffer size from {1,2,3,4,5,7,8,32,64,1024}; first buffer of another size than the rest',
     'json_stream:0-7,10-19,20-45,60-64,110-119,120-145,210-245')
prop('J04', 'Streaming JSON reports source failures and never invents or loses bytes',
     'When the source fails, the streaming minifier reports an error of the source\'s kind, and what it delivered before is a prefix of the right output; it never reports a normal end instead. '
     'Interrupted reads do not fail or alter the stream, and input that is not UTF-8 is reported as invalid data rather than passed on or accepted.',
     ['fault_sequences', 'inputs', 'schedules'], 'every position and kind of source error, every byte sequence, every chunking',
     'The tests use sources that never fail and are always UTF-8.',
     JR, [('error propagation', 'src/json/read/internal_reader.rs'), ('UTF-8 decoding', 'src/json/read/byte_to_char.rs')],
     'json_fault:0-3,10-19,61,62,100-103,110-119,161,162 json_fault_seen:10-19,22,25 json_enc:0-4,11-14',
     'error at any of the first 7 reads, 9 error kinds, two free chunk sizes, 5 consumer sizes, 1-2 interruptions; arbitrary byte strings of up to 4 bytes alone and inside a string',
     'json_fault:0-5,10-19,61-63,100-104,110-119,161-163 json_fault_seen:10-19,20-30 json_enc:0-6,11-16')
prop('J05', 'JSON minification never panics or hangs',
     'Minifying any text as JSON, valid or not, and streaming any byte sequence, valid UTF-8 or not, ends without a panic, an arithmetic overflow or an endless loop.',
     ['inputs'], 'every string, and every byte sequence through the reader', 'The tests run a few well-formed documents.',
     JR, [('string-state tracking', 'src/json/json_minifier.rs'), ('UTF-8 decoding', 'src/json/read/byte_to_char.rs')],
     'json_free:0-8 json_enc:0-4,11-14', 'all texts of up to 8 bytes; all byte sequences of up to 4 bytes with 3 chunkings and 3 buffer sizes',
     'json_free:0-10 json_enc:0-6,11-16')

# ------------------------------------------------------------------ CSS
C = ['src/css/token.rs', 'src/css/mod.rs']
CTXS = range(40)


def css(h, free3, seq2, free4=(0, 1, 3), seq3=(1, 3)):
    """quick and thorough jobs of a CSS harness: contexts with 3 (4) free bytes, with 2 (3) lexemes and free gaps"""
    f = lambda cs, lo, n: ','.join(f'{c * 10 + lo}-{c * 10 + n}' if lo != n else str(c * 10 + n) for c in cs)
    q = [f(CTXS, 0, 2), ','.join(str(1001 + c * 10) for c in CTXS), '2008-2010,2106-2109,2206-2209,2306-2309,2405-2408,2506-2508,2603-2606,2706-2707,2805-2807,4000-4019',
         f(free3, 3, 3), ','.join(str(1002 + c * 10) for c in seq2)]
    rest3 = [c for c in CTXS if c not in free3]
    rest2 = [c for c in CTXS if c not in seq2]
    t = q + ['2000-2025,2100-2125,2200-2225,2300-2325,2400-2425,2500-2520,2600-2620,2700-2710,2800-2820', f(rest3, 3, 3), ','.join(str(1002 + c * 10) for c in rest2),
             f(free4, 4, 4), ','.join(str(1003 + c * 10) for c in seq3)]
    b = (f'40 contexts (top level, rule prelude and body, declaration names and values, custom properties, functions, url(), math functions, attribute selectors, :not(), media and supports conditions, nested rules, @import, @font-face, @page, strings, '
         f'ordinary and licence comments) each with up to 2 arbitrary UTF-8 bytes, {len(free3)} of them with 3; one lexeme of 32 in each context with a free gap (none, space, comment, newline-comment-space) on each side, two lexemes with three free gaps in {len(seq2)} contexts; '
         f'one of 86 words (at-rules, functions, pseudo-classes, units, numbers, names) in 20 other contexts with three gaps; long identifiers, strings, comments, gaps, rule lists, selector lists and nestings with two arbitrary bytes inside (thorough: 3 bytes and two lexemes in every context, 4 bytes in {len(free4)}, three lexemes in {len(seq3)})')
    return f'{h}:' + ','.join(q), b, f'{h}:' + ','.join(t)


prop('C01', 'CSS minification touches nothing but whitespace and comments',
     'When a stylesheet minifies, every character outside whitespace and ordinary comments appears in the output, unchanged and in the same order, and nothing but whitespace is added. '
     'Quoted strings keep every byte, and licence comments keep their text.',
     ['inputs'], 'every text the CSS minifier accepts',
     'A test settles one stylesheet; which characters are kept depends on the tokens around them.',
     C, [('tokenizer', 'src/css/token.rs'), ('whitespace and comment removal', 'src/css/token.rs')],
     *css('css_content', (0, 1, 3, 4, 7, 8, 9, 15, 16, 19, 21), (1, 3, 5, 7, 8, 11, 12, 15, 21)))
prop('C02', 'CSS minification keeps the sequence of CSS tokens',
     'By the tokenisation rules of the CSS standard, the minified stylesheet has the same tokens as the original, in the same order: no identifier, number, hash, function, at-keyword, url or operator is joined with its neighbour, split or turned into another kind. '
     'The one rewriting allowed is that in selectors the sign of an An+B expression may join its number. No lexically complete stylesheet is refused.',
     ['inputs'], 'every CSS text without tokenisation errors',
     'Two tokens merge only for particular pairs of neighbours, contexts and gaps; the tests show a few of the thousands of pairs.',
     C, [('whitespace and comment removal', 'src/css/token.rs'), ('tokenizer', 'src/css/token.rs')],
     *css('css_tokens', (0, 1, 3, 4, 7, 9, 22), (0, 1, 3, 5, 7, 8, 14, 20)))
prop('C03', 'CSS minification keeps descendant combinators, and adds none',
     'In the selectors of every style rule, at any nesting, whitespace that separates two compound selectors survives as exactly that, and no whitespace appears where there was none. '
     'So each selector matches the elements it matched before.',
     ['inputs'], 'every CSS text without tokenisation errors; a comment alone counts as a separator only where the text would otherwise be no selector',
     'Whether whitespace is a combinator depends on the kinds of both neighbours and on where the text stands; tests show a few combinations.',
     C, [('descendant combinators', 'src/css/token.rs')],
     *css('css_selectors', (0, 1, 7, 10, 11, 29), (0, 1, 6, 7, 10, 12, 20, 21, 27), (0, 1, 10), (1, 6)))
prop('C04', 'CSS math expressions keep the whitespace around + and -',
     'Where a value holds a plus or minus with whitespace on both sides, between two operands, the minified value has whitespace on both sides of it too. '
     'This holds in calc(), every other math function and any nesting of parentheses.',
     ['inputs'], 'every CSS text without tokenisation errors',
     'The tests have a few calc() values; the operands, the nesting, comments and the function vary.',
     C, [('spaces in math functions', 'src/css/token.rs')],
     *css('css_math', (3, 4, 22, 23, 24, 28), (3, 4, 5, 14, 22, 23, 24, 28), (3, 4, 23), (4, 24)))
prop('C05', 'CSS licence comments are kept and ordinary comments are removed',
     'The minified stylesheet contains every licence comment of the input, with its text and in order, and contains no ordinary comment. '
     'Text that looks like a comment inside a string or an unquoted url is no comment.',
     ['inputs'], 'every CSS text without tokenisation errors',
     'Tests place a few comments between rules; comments may stand between any two characters.',
     C, [('comment scanner', 'src/css/token.rs')],
     *css('css_comments', (0, 1, 3, 8, 12, 17, 18, 19), (1, 3, 8, 11, 12, 21)))
prop('C06', 'CSS minification succeeds exactly on lexically complete input',
     'Minification fails if and only if a string or comment is unclosed, a closing brace has no opening one, or square brackets nest or close without opening; escaped characters do not count. '
     'Everything else is accepted.',
     ['inputs'], 'every text', 'Tests try three bad inputs.',
     C, [('tokenizer errors', 'src/css/token.rs')],
     *css('css_accept', (0, 1, 3, 7, 8, 11, 17, 19, 27), (1, 3, 7, 8, 11, 20)))
prop('C07', 'Minifying minified CSS changes nothing',
     'Minifying the minified form of a stylesheet gives the same text again, without an error.',
     ['inputs'], 'every text the CSS minifier accepts', 'No test feeds an output back.',
     C, [('whitespace and comment removal', 'src/css/token.rs')],
     *css('css_idem', (0, 1, 3, 4, 7, 14, 21), (1, 3, 4, 7, 11, 15, 20, 23)))
prop('C08', 'CSS minification never panics, overflows or hangs',
     'Minifying any text as CSS, well-formed or not, and displaying the result ends without a panic, an arithmetic overflow or an endless loop.',
     ['inputs'], 'every string', 'The tests run a few dozen stylesheets.',
     C, [('tokenizer', 'src/css/token.rs'), ('whitespace and comment removal', 'src/css/token.rs')],
     'css_free:0-4 css_content:2008-2010,2106-2109,2206-2209,2306-2309,2405-2408,2506-2508,2603-2606,2706-2709,2805-2807,1001,1012,1031,1042,1051,1071,1081,1111,1121,1151,1171,1191,1211',
     'all texts of up to 4 bytes (thorough: 5), and the lexeme and long-input families of C01 in part',
     'css_free:0-5 css_content:2000-2025,2100-2125,2200-2225,2300-2325,2400-2425,2500-2520,2600-2620,2700-2710,2800-2820')
prop('C09', 'Minified CSS is no longer than the original',
     'The minified stylesheet is never longer than the text it was made from, except that one space may be added after an at-keyword and one newline after a licence comment.',
     ['inputs'], 'every text the CSS minifier accepts', 'Tests compare a few outputs with expected strings.',
     C, [('whitespace and comment removal', 'src/css/token.rs')],
     *css('css_size', (0, 1, 3, 21), (1, 3, 7)))
prop('C10', 'Minified CSS has no needless whitespace',
     'In the minified stylesheet, whitespace between tokens is always a single character. There is none at the start, after `{`, `}`, `;`, `,`, `>`, `:` or an opening parenthesis, before a brace or a semicolon, or before `,` or `>` in selectors. '
     'Exempt are the space after an at-keyword, the newline after a licence comment, and what follows a closing square bracket.',
     ['inputs'], 'every CSS text without tokenisation errors whose at-keywords are followed by whitespace, punctuation or a block; form feeds aside',
     'Tests compare a few outputs with expected strings; whether a gap goes depends on both neighbours and on what other gaps and comments are next to it.',
     C, [('whitespace and comment removal', 'src/css/token.rs')],
     *css('css_needless', (0, 1, 3, 4, 7, 21), (1, 3, 4, 7, 11, 20)))
# ------------------------------------------------------------------ JavaScript
JT = ['src/js/token.rs', 'src/js/utils.rs', 'src/js/tools.rs']
JSOUT = ('programs whose lexical structure depends on their grammar (a slash after `}`, `^` or `~` or after words such as yield), or that rely on automatic semicolons at line ends (the minifier documents that it removes line ends); '
         'slashes and backslashes inside `${}` of templates; whitespace other than space, tab and line ends')
LIT = (7, 8, 9, 10, 11, 12, 28, 30, 31, 33, 34)
QL = '2000-2001,2009-2010,2100-2101,2107-2110,2200-2201,2207-2208,2300-2301,2308-2310,2405-2410,2506-2508,2602-2603,2608,2706-2708,2803-2806'


def js(h, ctxs, free3, seq2, free4=(0, 1), seq3=(1, 5), large=QL):
    f = lambda cs, lo, n: ','.join(f'{c * 10 + lo}-{c * 10 + n}' if lo != n else str(c * 10 + n) for c in cs)
    g = lambda cs, n: ','.join(str(1000 + n + c * 10) for c in cs)
    j = lambda *xs: h + ':' + ','.join(x for x in xs if x)
    q = [f(ctxs, 0, 2), g(ctxs, 1), large, f(free3, 3, 3), g(seq2, 2), '4000-4015,4101,4105']
    t = q + ['4100-4115', '2000-2025,2100-2125,2200-2225,2300-2325,2400-2425,2500-2525,2600-2612,2700-2720,2800-2815', f([c for c in ctxs if c not in free3], 3, 3), g([c for c in ctxs if c not in seq2], 2), f(free4, 4, 4), g(seq3, 3)]
    b = (f'{len(ctxs)} contexts (statement, assignment, after return and case, arguments, operators, numbers, strings, templates and their interpolations, regular expressions and their classes, comments, licences, object and array literals, declarations, blocks) '
         f'each with up to 2 arbitrary UTF-8 bytes, {len(free3)} of them with 3; one lexeme of 52 in each context with a free gap (none, space, comment, line comment) on each side, two lexemes with three free gaps in {len(seq2)} contexts; '
         f'one of 84 words (reserved, contextual, names, numbers) in 16 other contexts, two of them in 2 of these (thorough: 16); long names, numbers, strings, templates, comments, licences, gaps, programs, regular expressions and template nestings with two arbitrary bytes inside (thorough: 3 bytes and two lexemes in every context, 4 bytes in {len(free4)}, three lexemes in {len(seq3)})')
    return j(*q), b, j(*t)


prop('S01', 'JavaScript minification keeps the sequence of JavaScript tokens',
     'By the lexical grammar of ECMAScript, the minified program has the same tokens as the original, in the same order, except that semicolons at its very start are dropped and the flags of a regular expression may be reordered: '
     'no name, number, operator or literal is joined with its neighbour, split, dropped or turned into another kind of token.',
     ['inputs'], 'every program that ends its statements with semicolons and whose lexical structure can be told without parsing it',
     'Two tokens merge only for particular neighbours and gaps, and whether a slash starts a regular expression depends on all that is before it; the tests show a few dozen lines.',
     JT, [('tokenizer', 'src/js/token.rs'), ('whitespace and comment removal', 'src/js/utils.rs'), ('token writer', 'src/js/token.rs')],
     *js('js_tokens', range(40), (0, 1, 3, 5, 6, 18, 25), (1, 2, 5, 18, 35)), outside=JSOUT)
prop('S02', 'JavaScript literals keep every character',
     'Strings, templates with their interpolations, regular expressions and numbers of the original appear in the minified program with every character unchanged: '
     'whitespace, quotes, escapes, comment-like text and non-ASCII characters inside them included, however long or deeply nested they are.',
     ['inputs'], 'every program as in S01',
     'Tests have a dozen literals; what ends a literal depends on escapes, classes, nesting and what came before.',
     JT, [('string, template and regex scanners', 'src/js/token.rs'), ('saved and peeked characters', 'src/js/token.rs')],
     *js('js_tokens', LIT, LIT, (7, 12, 28), (8, 9, 11), (7,), '2100-2110,2200-2210,2700-2710,2801-2808'), outside=JSOUT)
prop('S03', 'JavaScript licences are kept and ordinary comments are removed',
     'The minified program contains every licence comment (`/*!`) of the original, with its text and in order, and no other comment; '
     'text that looks like a comment inside a string, template or regular expression is no comment.',
     ['inputs'], 'every program as in S01', 'Tests place a few comments between statements; comments may stand between any two characters.',
     JT, [('comment scanners', 'src/js/token.rs'), ('whitespace and comment removal', 'src/js/utils.rs')],
     *js('js_comments', range(40), (0, 5, 13, 15, 16), (1, 5, 13, 15, 34)), outside=JSOUT)
prop('S04', 'Minifying minified JavaScript changes nothing',
     'Minifying the minified form of a program gives the same text again, without an error.',
     ['inputs'], 'every program as in S01', 'No test feeds an output back, except one of a single line.',
     JT, [('whitespace and comment removal', 'src/js/utils.rs'), ('token writer', 'src/js/token.rs')],
     *js('js_idem', range(40), (0, 1, 5, 25), (1, 4, 5)), outside=JSOUT)
prop('S05', 'JavaScript minification never panics, overflows or hangs',
     'Minifying any text as JavaScript, well-formed or not, and displaying the result ends without a panic, an arithmetic overflow or an endless loop.',
     ['inputs'], 'every string', 'The tests run a few dozen programs.',
     JT, [('tokenizer', 'src/js/token.rs')],
     'js_free:0-4 js_size:' + QL + ',1001,1041,1051,1071,1081,1091,1111,1131,1151,1251,1281', 'all texts of up to 4 bytes (thorough: 5), and the lexeme and long-input families of S01 in part',
     'js_free:0-5 js_size:2000-2025,2100-2125,2200-2225,2300-2325,2400-2425,2500-2525,2600-2612,2700-2720,2800-2815')
prop('S06', 'Minified JavaScript never grows and keeps no needless whitespace',
     'The minified program is never longer than the text it was made from. Outside literals and licences it holds no whitespace except single characters between words or numbers, and between tokens that would be read as others without it.',
     ['inputs'], 'every program as in S01', 'Tests compare a few outputs with expected strings.',
     JT, [('token writer', 'src/js/token.rs'), ('whitespace and comment removal', 'src/js/utils.rs')],
     *js('js_size', range(40), (0, 1, 5), (1, 4, 5)), outside=JSOUT)
AG = ['src/js/token.rs', 'src/js/utils.rs', 'src/js/mod.rs']
AGOUT = ('scopes: programs which bind the name of the variable or array a second time as a parameter or in an inner scope; with, eval and other dynamic uses of names; strings in the `${}` of templates')
prop('S07', 'Aggregating repeated JS strings keeps the meaning and makes it no longer',
     'Moving repeated strings into variables (aggregate_strings, with or without a separator) changes nothing but this: some strings become the name of a variable which holds exactly that string, there and ever after. '
     'New variables have names the program does not use, and are declared once, after the directives and before all else. '
     'Strings which have to stay literals (directives, property keys, module names, method names) stay, and the tokens grow by no more than the `var ` the declaration may need.',
     ['inputs'], 'every program as in S01 with strings at any position, cleaned before, after or not at all',
     'The tests aggregate a dozen strings in programs with no directive, no module, no name in use and no variable assigned twice.',
     AG, [('string aggregation', 'src/js/utils.rs'), ('variable names', 'src/js/utils.rs')],
     'js_agg:1,2,101,102,201,202,301,302,10-12,20-29,31-33,111,112,120-122,53,61-65,71-75,162,262',
     'all programs of two statements out of 35, each with one string of 5 (2 in three of the modes), in 4 modes (cleaned before, after, not, with a separator); three statements of 31 with 2 strings; declared names of up to 5 arbitrary characters; four strings with 2 arbitrary bytes in them; up to 162 strings in 81 values with up to 81 generated names in use; '
     'strings of 0-15 characters repeated up to 7 times, declared already or not (where it pays)',
     'js_agg:1,2,101,102,201,202,301,302,10-13,20-29,31-33,111,112,120-129,153,253,353,53,61-69,71-79,162-164,262-264,202,211,220', outside=AGOUT)
prop('S08', 'Moving JS strings into an array keeps the meaning of the program',
     'Moving strings into an array (aggregate_strings_into_array and its variants) changes nothing but this: some strings become an element of the array which is exactly that string. '
     'The array is new, or one of strings the program declares once, at top level, under that name and extended at its end; a program that uses the name otherwise stays as it is. '
     'Strings the filter refuses and strings which have to stay literals stay, and the tokens grow by less than `var R=[];`.',
     ['inputs'], 'every program as in S01 with strings at any position, the array absent or declared anywhere',
     'The tests move strings of a few lines; the array name is never in use and the order of declaration and use never matters.',
     AG, [('string array', 'src/js/utils.rs')],
     'js_array:401,402,501,502,601,602,701,702,801,802,901,902,410-412,420-429,431-433,440,453,461-465,471-475',
     'all programs of two statements out of 52, each with one string of 5 (2 in four of the modes), in 6 modes (cleaned before, after, not, with a separator, with a filter, with both); three statements with 2 strings; declared names of up to 5 arbitrary characters; free bytes, many strings and short strings as in S07',
     'js_array:401,402,501,502,601,602,701,702,801,802,901,902,410-413,420-429,431-433,440,453,553,653,753,853,953,461-469,471-479,511,512,520-529,531-533',
     outside=AGOUT + '; object keys (a known finding: an existing test demands they are replaced)')

def xq(deep=False):
    """jobs of js_except: 8 predicates, each with the contexts of `js`"""
    o = []
    for m in range(8):
        q = [f'{c * 10}-{c * 10 + (2 if deep or c in (0, 1, 5, 36, 37, 38, 39) else 1)},{1001 + c * 10}' for c in range(40)] + [QL, '4000-4015']
        if m in (0, 1, 2, 5):
            q.append('1012')
        if deep:
            q += ['1012', '1052', '1002', '3'] + (['1382', '1362'] if m < 3 else [])
        for a in ','.join(q).split(','):
            o.append('-'.join(str(m * 10000 + int(x)) for x in a.split('-')))
    return 'js_except:' + ','.join(dict.fromkeys(o))


prop('S09', 'Selective JS cleaning keeps what the predicate asks to keep',
     'Cleaning with clean_tokens_except keeps the sequence of JavaScript tokens and drops only what the predicate lets it drop. '
     'Comments the predicate keeps appear with their text and in order, and kept line ends stay between the tokens they separated; comments it does not keep are gone, and semicolons go only where they are not needed. '
     'A program that is only tokenised and displayed, or cleaned with everything kept, is the text it was.',
     ['inputs'], 'every program as in S01, with eight predicates over line ends, comments, spaces and semicolons',
     'The tests clean two lines with one predicate.',
     AG, [('cleaning with a predicate', 'src/js/utils.rs'), ('token writer', 'src/js/token.rs')],
     xq(), '40 contexts with 1 arbitrary UTF-8 byte, 7 of them with 2, one lexeme of 52 in each with a free gap (none, space, comment, line comment) on each side, each with 8 predicates; two lexemes with three free gaps after a statement with 4 predicates; long inputs and words as in S01', xq(True), outside=JSOUT)
def tq(deep=False):
    c = range(40) if deep else (0, 1, 2, 3, 5, 13, 17, 22, 23, 24, 26, 32, 36)
    d = 'js_decl:' + ','.join(f'{x * 10}-{x * 10 + 2},{1001 + x * 10}' for x in c) + ',3,223,1002,1052,1222,1012,4000-4015,4111,4105' + (',33,13,1032,1262,1322,3222' if deep else '')
    c = (0, 1, 5, 7, 9, 15, 24, 36, 39) if deep else (0, 5, 7, 24, 36, 39)
    r = 'js_replace:' + ','.join(f'{m * 10000 + x * 10}-{m * 10000 + x * 10 + 2},{m * 10000 + 1001 + x * 10}' for m in range(6) for x in c) + ',3,1002' + (',10003,11002,30003,41002,51002' if deep else '')
    return d.replace(',3222', '') + ' ' + r


prop('S10', 'The JavaScript token tools find and replace exactly what they are asked to',
     'replace_tokens_with and replace_token_with put the callback\'s token in place of each token it gives one for, and touch no other. '
     'get_variable_name_and_value_positions gives, for `var`, `let` and for a name after one of them or after a comma, where the declared name is and, if `=` and a name, number, string or regular expression follow, where that value is; '
     'comments, licences and whitespace between them do not matter, and for every other token there is nothing. '
     'clean_token refuses exactly comments, whitespace and semicolons before a closing brace; clean_token_except refuses those of them which the predicate lets go.',
     ['inputs'], 'every token list that simple_minify gives, every position in it and beyond its end',
     'The tests look at a few positions of a few declarations, without comments or licences at most of them.',
     ['src/js/utils.rs', 'src/js/token.rs'], [('declared names and values', 'src/js/utils.rs'), ('replacing tokens', 'src/js/utils.rs'), ('useful tokens', 'src/js/utils.rs')],
     tq(), '13 contexts with up to 2 arbitrary UTF-8 bytes (2 with 3) and one lexeme of 52 with free gaps, two lexemes with three free gaps in 4 of them, all positions; 6 callbacks and 6 predicates over 6 contexts with 2 bytes or one lexeme', tq(True))


prop('S11', 'Each JavaScript token is of the kind that its text is',
     'In the token list of a program every string and template, regular expression, licence, reserved word, decimal integer, and every operator, assignment and comparison the library has a kind for is one token of that kind with exactly that text, and no other token is of these kinds. '
     'All questions a token answers about itself (what it is, its text, character, word or operator) agree with its kind.',
     ['inputs'], 'every program as in S01',
     'The tests compare a few token lists; most kinds and operators appear in none.',
     ['src/js/token.rs'], [('tokenizer', 'src/js/token.rs'), ('kinds of tokens', 'src/js/token.rs')],
     'js_kinds:' + ','.join(f'{x * 10}-{x * 10 + 2},{1001 + x * 10}' for x in range(40)) + ',3,1002,4000-4015,4101,4103,' + QL,
     '40 contexts with up to 2 arbitrary UTF-8 bytes (1 with 3), one lexeme of 52 in each with a free gap on each side; two lexemes with three free gaps; long inputs and words as in S01',
     'js_kinds:' + ','.join(f'{x * 10}-{x * 10 + (3 if x in (0, 1, 5, 22, 24, 32) else 2)},{1001 + x * 10}' for x in range(40)) + ',1002,1012,1052,4000-4015,4100-4115,' + QL,
     outside='words next to `^`, `~`, `@`, `#` or a backslash (which the library takes for parts of words), a keyword followed by a number that starts with a dot')
# ------------------------------------------------------------------ HTML
H = ['src/html.rs']
HDOC = ('every document whose tags, attributes, comments and doctype are well-formed (by the syntax of the HTML standard), with no quotes or angle brackets in attribute values, no markup in scripts and styles, and no comments inside comments')
HASS = ['the regex crate matches leftmost-first as its documentation says: a backtracking model of it is executed (/verif/harness_html/regex) and sampled paths are compared with the real crate']
HC = lambda cs, lo, n: ','.join(f'{c * 10 + lo}-{c * 10 + n}' if lo != n else str(c * 10 + n) for c in cs)
HL = '2000-2002,2010,2100-2103,2108,2200-2202,2204,2300-2303,2310,2400-2403,2420,2500-2503,2516'
HLL = '2000-2003,2030,2099,2100-2110,2200-2208,2300-2304,2320,2400-2404,2433,2460,2500-2504,2533,2560'


def html(h, ctxs, seq, free3=(), deep=()):
    q = ','.join([HC(ctxs, 0, 2), ','.join(f'{1000 + c * 10},{1001 + c * 10}' for c in ctxs), HL, ','.join(str(3002 + 10 * c) for c in seq)] + ([HC(free3, 3, 3)] if free3 else []))
    t = ','.join([q, HLL, HC([c for c in ctxs if c not in free3], 3, 3), ','.join(str(3002 + 10 * c) for c in ctxs if c not in seq)] + ([','.join(str(1002 + 10 * c) for c in deep)] if deep else []))
    b = (f'{len(ctxs)} contexts (top level, pre, textarea, div, between words, comments, conditional comments, attributes and their values, script and style tags) with up to 2 characters, each any ASCII character or one of three others, or with one lexeme of 44 and free gaps of 5; '
         f'two lexemes of 19 with three gaps each in {len(seq)} contexts; long words, attribute lists, comments, gaps and lists with two free ASCII characters (thorough: 3 characters and two lexemes in every context)')
    w, v = ((1, 2, 3, 9), range(1, 10)) if h == 'html_content' else ((2, 9), (1, 2, 3, 9))
    if 0 in ctxs or h != 'html_content':
        q += ',' + ','.join(str(4000 + 10 * c + n) for c in range(14) for n in w)
        t += ',' + ','.join(str(4000 + 10 * c + n) for c in range(14) for n in v if n not in (6, 7, 8) or c in (2, 3, 5, 9))
        b += f'; 14 documents with a free word or name of an element, attribute or type: of up to {w[-2]} arbitrary letters, or one of 190 names'
    else:
        q += ',4031-4034,4091-4094,4039,4099'
        t += ',4031-4038,4091-4098,4039,4099'
        b += '; elements with a name of up to 4 arbitrary letters, or one of 190 names, and an attribute'
    return f'{h}:{q}', b, f'{h}:{t}'


A14 = range(14)
hq, hb, ht = html('html_content', A14, (0, 2, 4, 6), (0, 4))
prop('H01', 'HTML minification keeps the content of a document',
     'The minified document has the same tags, attributes and text as the original, in the same order, except for ordinary comments, the tags that may be omitted (`</li>`, `<body>` and the like), default types of scripts and styles, and the quotes of simple widths and heights. '
     'A run of whitespace, also in a tag or attribute value, may become one character; words are neither joined nor split by it, and whitespace appears nowhere it was not.',
     ['inputs'], HDOC, 'The tests minify two documents.',
     H, [('comments', 'src/html.rs'), ('optional tags and default types', 'src/html.rs'), ('whitespace', 'src/html.rs'), ('attributes', 'src/html.rs')],
     hq + ' html_script:0', hb, ht + ' html_script:0', assumptions=HASS, outside='line comments in inline scripts (a known finding: an existing test demands that line ends in scripts become spaces)')
hq, hb, ht = html('html_comments', A14, (0, 2, 5, 11), (5,))
prop('H02', 'HTML conditional comments are kept, ordinary ones are removed',
     'The minified document holds every conditional comment of the original (`<!--[if ...` and the ends of the downlevel-revealed form), with its text up to whitespace and in order, and no other comment, and text around a removed comment is as close as it was.',
     ['inputs'], HDOC, 'The tests have four comments.',
     H, [('comments', 'src/html.rs')], hq, hb, ht, assumptions=HASS)
hq, hb, ht = html('html_content', (1, 3), (1, 3), (1, 3), (1,))
prop('H03', 'HTML minification keeps whitespace where it is preformatted',
     'In a document with a pre or textarea element, in any letter case, all whitespace in text is kept byte for byte, except at the two ends of the document.',
     ['inputs'], HDOC, 'No test has such an element.',
     H, [('whitespace', 'src/html.rs')], hq, hb, ht, assumptions=HASS)
hq, hb, ht = html('html_idem', A14, (0, 1, 2, 6))
prop('H04', 'Minified HTML is no longer than the original and re-minifies to itself',
     'The minified document is no longer than the original, and minifying it again changes nothing. No text, document or not, makes the minifier panic or grow the text.',
     ['inputs'], HDOC + '; every text for the second sentence', 'No test feeds an output back.',
     H, [('whitespace', 'src/html.rs'), ('attributes', 'src/html.rs')], hq + ' html_free:0-3,10-12,50-53,60-63,70-72,90-92,110-112,120-122', hb + '; any text of up to 3 characters (thorough: 4)',
     ht + ' html_free:0-4,10-13,50-54,60-64,70-73,90-93,110-113,120-123', assumptions=HASS)
hq, hb, ht = html('html_collapse', A14, (0, 1, 2, 6))
prop('H05', 'Minified HTML has no needless whitespace',
     'In a document without pre or textarea the minified text has no whitespace at either end, no line ends, and no two adjacent whitespace characters.',
     ['inputs'], HDOC, 'The tests minify two documents.',
     H, [('whitespace', 'src/html.rs')], hq, hb, ht, assumptions=HASS)
# ------------------------------------------------------------------ command line
K = ['src/cli.rs']
KASS = ['clap parses the arguments as its documentation says (a stand-in with the same interface is executed)', 'the C library and the kernel behave like the file system of /verif/harness_cli/src/fs.rs']
prop('K01', 'The command writes each minified file to its output and touches no other',
     'Each input of a known type (its extension in any letter case, or the type option) is minified into its output: the same path with the extension `min.<type>`, that path below the output directory, or the output file. '
     'The output holds exactly the minified text, whatever it held before; no other file changes.',
     ['inputs'], 'every set of existing files, input names, contents and options',
     'There are no tests of the command.',
     K, [('output path and file', 'src/cli.rs')],
     'cli_run:1,2,3,11-13,21', 'one to three inputs of 16 names (with subdirectories, odd extensions, absolute paths, `..`, names which are not UTF-8), 8 contents (valid, invalid, empty, not UTF-8), 7 outputs (none, directory, existing and new file, new directories, the input itself), 4 types; all contents of up to 3 bytes',
     'cli_run:1,2,3,11-14,21-22', assumptions=KASS)
prop('K02', 'A failure of the command loses no file and stops no other',
     'An input that cannot be read, is not UTF-8, or cannot be minified is reported, and the command goes on with the others; its output keeps what it held. '
     'A failed write is reported. Interrupted and short reads and writes change nothing.',
     ['fault_sequences', 'inputs'], 'every file that cannot be read or minified, every failing, short or interrupted system call',
     'There are no tests of the command.',
     K, [('order of minifying and opening', 'src/cli.rs'), ('error reports', 'src/cli.rs')],
     'cli_run:1,2,3,101,102,111', 'one to three inputs as in K01; failing opens of inputs and outputs, failing directories, the first three reads and first two writes failing with 3 errors or interrupted, reads and writes of 1-3 bytes',
     'cli_run:1,2,3,101,102,111-112', assumptions=KASS)
# ------------------------------------------------------------------ all
prop('A01', 'Writing a result delivers exactly the text that displaying it gives',
     'For CSS, JavaScript and JSON, writing the minified result to a byte sink delivers exactly the bytes of its displayed text. '
     'This holds for sinks that take a few bytes at a time or are interrupted; a sink that fails gets a prefix and its error is reported.',
     ['inputs', 'fault_sequences'], 'every input, every way a sink accepts, refuses or interrupts writes',
     'Only the displayed form is tested, and never with a short or failing writer.',
     ['src/css/mod.rs', 'src/js/tools.rs', 'src/json/mod.rs', 'src/js/token.rs', 'src/css/token.rs'],
     [('CSS writer', 'src/css/token.rs'), ('JS writer', 'src/js/token.rs'), ('JSON writer', 'src/json/mod.rs')],
     'css_write:0-2,10-14 js_write:0-2,10-14 json_write:0-3,10-12',
     'all texts of up to 2 bytes (JSON 3) and 13 fixed texts followed by one free byte; sinks taking 1, 3 or 1000 bytes a call, interrupted at the first or third call, or failing after 0-39 bytes',
     'css_write:0-3,10-14 js_write:0-3,10-14 json_write:0-5,10-12')

CL = lambda cs: ','.join(f'{c * 10 + 2}' for c in cs)
prop('A02', 'What is minified depends on the text alone',
     'Minifying a text gives the same result whenever it is done, whatever was minified before it, also if that failed. '
     'Moving strings of JavaScript into variables or an array gives the same result whatever the order in which hash maps are iterated over.',
     ['inputs', 'histories'], 'every text after every other, every order of iteration',
     'No test runs a function twice on one text.',
     ['src/css/mod.rs', 'src/css/token.rs', 'src/js/mod.rs', 'src/js/tools.rs', 'src/js/utils.rs', 'src/json/mod.rs'],
     [('string aggregation', 'src/js/tools.rs'), ('tokenizers', 'src/js/token.rs'), ('tokenizers', 'src/css/token.rs')],
     'css_det:0-2,' + CL((1, 5, 7, 11, 20)) + ',4013 js_det:0-2,' + CL((1, 5, 22, 24)) + ',1001,4001 json_det:0-3 js_order:1,2,301,401,402,701,801,901,85,285,385,485,585,785,885,985',
     'texts of up to 2 bytes (JSON 3), 9 contexts of C01 and S01 with 2 arbitrary bytes, each minified before and after one of 3-4 other texts (valid and not); '
     'programs of two statements and of one of 5 declarations with 5 uses of 4 strings, in 8 of the modes of S07 and S08 and 3 orders of hash maps',
     'css_det:0-3,' + CL(range(40)) + ' js_det:0-3,' + CL(range(40)) + ',1001,1002 json_det:0-5 js_order:1,2,301,401,402,701,801,901,' + ','.join(f'{m * 100 + n}' for m in range(10) for n in (85, 86)),
     outside='orders of iteration other than those of insertion with the first 1 to 3 keys moved to the end')


def gen():
    import json, os
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for id in sorted([*PROPS, *NA]):
            p = PROPS.get(id) or NA[id]
            f.write(json.dumps(dict(id=id, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])), ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='./check --setup', checks=[], not_applicable=[dict(property=i, reason=NA[i]['reason']) for i in sorted(NA)],
             notes='props.py holds the properties and their bounds; `props.py gen` writes this file and properties.jsonl.')
    for id in sorted(PROPS):
        p = PROPS[id]
        m['checks'].append(dict(property=id, quick_cmd=f'./check {id} quick', thorough_cmd=f'./check {id} thorough', technique=TECH, level='model_checking',
                                level_note=('Holds for every input within the bounds: ' + p['bounds'] + '. ' + p['note'] +
                                            (' Outside: ' + p['outside'] if p['outside'] else '') +
                                            ' Trusts rustc/LLVM, the symbolic executor (paths are replayed against the native build on every run) and z3; says nothing beyond the bounds.').replace('  ', ' ')))
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    gen()
