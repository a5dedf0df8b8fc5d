"""The bounded input spaces of the text checks. Every space is a deterministic list, enumerated completely."""
import functools
import itertools
import json
import os
import unicodedata

LEX_JAVA = [
    'foo', 'Foo', 'FOO', 'fooBar', 'FOOBarB', 'foo_bar', '_x', 'x1Y', 'B2b', 'föö', 'ÜBER', 'HelloWörld', '日本', 'ΑΒγ',
    '0', '1', '10L', '0x1F', '0b1_0', '1.5e-3f', '1_000', '.5', '2.', '007',
    '"a b"', '"  x\t"', '"über z 12L"', '"a\\"b@c"', '""', '"日本 @ x"', "'c'", "'\\n'",
    '// hi @ 10L ö\n', '//\n', '/* x\n y  \t   z*/', '/** @doc Äb */', '/**/', '// "q" \'\n',
    'if', 'return', 'import static', 'true', 'null', 'int', 'class', '@A', 'package',
    '+', '>=', '::', '->', '&&', '{', '}', '(', ')', ';', '.', ',', '[', ']', '<w>', '</t>', '<Cap>', '<EOL>',
    ' ', '    ', '\t', '\t\t', '\n', '\n\n', '  \t  ', '\r\n', '     \n',
    '#', '$', '$a', '\\', '`', '\x0c', '\xa0', '\xf7', '@', '@@', '\u2028', '\U0001f600', 'e\u0301', '\u01c5a', '\u1e9e',
]
LEX_SMALL = ['fooBar', 'X_1é', '10L', '"a  @é"', "'c'", '// c Ö\n', '/* d\n\t@ */', 'if', '>=', ';', ' ', '    ', '\t',
             '\n', '#', '@']

LANGS = {
    'py': ['def f(self):\n    return None\n', '"""doc @x\n    y"""', "'a b'", 'f"{x!r}"', "r'\\d+'", "b'é'", '# comment ü\n',
           'x = 0xFF_ff\n', '1j', '0o17', 'and', 'is not', '@dec\n', '\tpass\n', 'lambda x: x**2', 'print(a_bC)', '\\\n',
           '#!/usr/bin/env python\n', 'if x:\n\n        y', "u'ß'", '...', '->', 'from a import B as c'],
    'c': ['#include <stdio.h>\n', '#define X_Y(a) \\\n  a##b\n', "L'x'", '"a\\n%d"', '/* c */', '// d\n', '0x1FuL', '1.e5f',
          'int *p;', 'unsigned long', '#if 0\ndead Code\n#endif\n', 'label:', 'struct S_t {', '\n\n  x', "'\\0'"],
    'cpp': ['std::vector<int>', 'R"(raw "x" )"', '#pragma once\n', "1'000", 'template<class T>', '// é\n', 'nullptr'],
    'js': ['var a = /re[x]g/gi;', '`t ${aB} é`', "'s'", '"d"', '// c\n', '/* m */', '0b101', '() => {}', '\n\n  x', 'undefined',
           'async function*', '===', '10n'],
    'html': ['<!DOCTYPE html>\n', '<a href="x y">T é</a>', '<!-- c -->', '&amp;', '<script>var x=1;</script>', '<style>p{a:b}</style>'],
    'xml': ['<?xml version="1.0"?>\n', '<a b="c d">Tx</a>', '<!-- c Ö -->', '<![CDATA[ x ]]>'],
    'sql': ["SELECT * FROM t_A WHERE x='a b';", '-- c\n', '/* m */', 'NOT NULL', '1.5'],
    'json': ['{"a b": [1, 2.5e3, true, null, "é\\u00e9"]}', ' \n  '],
    'sh': ['#!/bin/bash\n', 'echo "a $B_c" \'q\'', '# c\n', '$(ls -l)', 'if [ -f x ]; then\n\tfi', '<<EOF\nhere\nEOF\n', '${a:-b}'],
    'rb': ['def a?; @b ||= :sym; end', '"i #{x} é"', '# c\n', '=begin\nc\n=end\n', '%w(a b)', '/re/', '1_000'],
    'php': ['<?php $aB = "x $y"; ?>', '<b>t</b>', "<?php // c\n 'q' ?>", '<?php /* m */ # s\n 0x1F; ?>'],
    'go': ['func F(a int) (b error) {', '`raw\n s`', '// c\n', "'x'", ':=', '0x1p-2', 'chan<-'],
    'scala': ['val x: Int = 1L', '"""tri "q" é"""', "'sym", '/* a /* b */ */', 'case class'],
    'css': ['a:hover{color:#FfF;margin:1.5px}', '/* c */', '@media print', '"u"'],
    'hs': ['-- c\n', '{- m {- n -} -}', 'f x = "a b"', 'where', '0o17'],
    'diff': ['--- a/x\n+++ b/x\n@@ -1 +1 @@\n-old L\n+new L\n'],
    'yaml': ['a: b c\n- "d é"\n# c\n', 'k: |\n  x\n  y\n'],
    'text': ['Just some Text é 10L\n\tmore "q"'],
    'nosuchlang': ['class A { int b_C = 1; }', '<?php echo 1; ?>', 'x'],
}

# A text of some language for every kind of token Pygments knows (found by lexing the keywords of each lexer and a few snippets
# with every lexer)
KINDS = [
    ('bro', '#!/bin/é sh\n'),  # Token.Comment
    ('boogie', '/** @param é c */\n/// <x>é</x>\n//! é\n'),  # Token.Comment.Doc
    ('javascript+erb', '#!/bin/é sh\n'),  # Token.Comment.Hashbang
    ('clean', '/* a\n        b é */ x\n'),  # Token.Comment.Multi
    ('m2', '/* a\n        b é */ x\n'),  # Token.Comment.Multiline
    ('j', '#!/bin/é sh\n'),  # Token.Comment.Preproc
    ('swig', '#include <é.h>\n#define X Ö\n#if 0\nÜ d\n#endif\n'),  # Token.Comment.PreprocFile
    ('kconfig', '#!/bin/é sh\n'),  # Token.Comment.Single
    ('bst', '; c é\n% c é\n! c\n'),  # Token.Comment.SingleLine
    ('flo', '#!/bin/é sh\n'),  # Token.Comment.Singleline
    ('fan', '= T é =\n* é\n**b é** _i é_ `c é`\n# h é\n'),  # Token.Comment.Special
    ('vbscript', '#!/bin/é sh\n'),  # Token.Error
    ('dpatch', '{- a é -} (* é b *) -- é\n'),  # Token.Generic.Deleted
    ('boogie', '\\begin{é} \\é $x^2$ % é\n'),  # Token.Generic.Emph
    ('py2tb', '$ ls é\n> x\n>>> é\nTraceback\n  é\n[é]\nk = é\nk: é\n'),  # Token.Generic.Error
    ('i7', '"""doc é\n  x"""\n'),  # Token.Generic.Heading
    ('irc', '= T é =\n* é\n**b é** _i é_ `c é`\n# h é\n'),  # Token.Generic.Inserted
    ('irb', '#!/bin/é sh\n'),  # Token.Generic.Output
    ('tcshcon', "<a b='C é'>T ü</a>\n  @x 'q' -- k Ö\n"),  # Token.Generic.Prompt
    ('rest', '= T é =\n* é\n**b é** _i é_ `c é`\n# h é\n'),  # Token.Generic.Strong
    ('isabelle', 'sect'),  # Token.Generic.Subheading
    ('erl', '= T é =\n* é\n**b é** _i é_ `c é`\n# h é\n'),  # Token.Generic.Traceback
    ('ebnf', '; c é\n% c é\n! c\n'),  # Token.Keyword
    ('mosel', 'and'),  # Token.Keyword.Builtin
    ('sas', '_n_'),  # Token.Keyword.Constant
    ('earl-grey', '# c Ö\n\tif (x) { /* m */ }\n'),  # Token.Keyword.Control
    ('ecl', 'END'),  # Token.Keyword.Declaration
    ('haxeml', 'swf-version'),  # Token.Keyword.Keyword
    ('elm', 'import'),  # Token.Keyword.Namespace
    ('unicon', '$Cend'),  # Token.Keyword.PreProc
    ('postgres-console', '\\begin{é} \\é $x^2$ % é\n'),  # Token.Keyword.Pseudo
    ('d', 'typedef'),  # Token.Keyword.Removed
    ('cobol', 'FD'),  # Token.Keyword.Reserved
    ('usd', 'class'),  # Token.Keyword.Tokens
    ('scala', "'a' 'é' :sym `b é` r'x' b'y' f'{z}' /re é/g\n"),  # Token.Keyword.Type
    ('shen', '#!/bin/é sh\n'),  # Token.Literal
    ('clean', "'a' 'é' :sym `b é` r'x' b'y' f'{z}' /re é/g\n"),  # Token.Literal.Char
    ('cadl', '2020-01-02 10:00:00 [INFO] é\n'),  # Token.Literal.Date
    ('mupad', 'RD_NAN'),  # Token.Literal.Number
    ('factor', "0x1F 0b11 0o17 017 1.5e3 1j 12L 1_000 0 1 'c' #\\c ?a\n"),  # Token.Literal.Number.Bin
    ('ooc', "0x1F 0b11 0o17 017 1.5e3 1j 12L 1_000 0 1 'c' #\\c ?a\n"),  # Token.Literal.Number.Decimal
    ('jsgf', "'a' 'é' :sym `b é` r'x' b'y' f'{z}' /re é/g\n"),  # Token.Literal.Number.Float
    ('ceylon', '#include <é.h>\n#define X Ö\n#if 0\nÜ d\n#endif\n'),  # Token.Literal.Number.Hex
    ('opa', '#include <é.h>\n#define X Ö\n#if 0\nÜ d\n#endif\n'),  # Token.Literal.Number.Integer
    ('idl', 'fooBar_1 = "a bé" + 10L; // c Ö\n'),  # Token.Literal.Number.Integer.Long
    ('factor', "0x1F 0b11 0o17 017 1.5e3 1j 12L 1_000 0 1 'c' #\\c ?a\n"),  # Token.Literal.Number.Oct
    ('salt', '\\begin{é} \\é $x^2$ % é\n'),  # Token.Literal.Scalar.Plain
    ('typoscripthtmldata', '#!/bin/é sh\n'),  # Token.Literal.String
    ('numpy', "'a' 'é' :sym `b é` r'x' b'y' f'{z}' /re é/g\n"),  # Token.Literal.String.Affix
    ('prolog', "<a b='C é'>T ü</a>\n  @x 'q' -- k Ö\n"),  # Token.Literal.String.Atom
    ('ts', '= T é =\n* é\n**b é** _i é_ `c é`\n# h é\n'),  # Token.Literal.String.Backtick
    ('ca65', "REM é\n' é\nrem x\n"),  # Token.Literal.String.Char
    ('unicon', "<a b='C é'>T ü</a>\n  @x 'q' -- k Ö\n"),  # Token.Literal.String.Character
    ('cr', '<<EOF\nhe é $x\nEOF\n'),  # Token.Literal.String.Delimiter
    ('numpy', '"""doc é\n  x"""\n'),  # Token.Literal.String.Doc
    ('kconfig', '"""doc é\n  x"""\n'),  # Token.Literal.String.Double
    ('html+lasso', '"a\\n \\u00e9 %s {x} ${y} #{z} $w é"\n'),  # Token.Literal.String.Escape
    ('elixir', '"""doc é\n  x"""\n'),  # Token.Literal.String.Heredoc
    ('usd', 'a::b -> c => d <= e := f ... @é @@x ${é} $é %é& ~x\n'),  # Token.Literal.String.Interpol
    ('juttle', '2020-01-02 10:00:00 [INFO] é\n'),  # Token.Literal.String.Moment
    ('plpgsql', '"""doc é\n  x"""\n'),  # Token.Literal.String.Name
    ('jasmin', '#!/bin/é sh\n'),  # Token.Literal.String.Other
    ('cr', '/* a\n        b é */ x\n'),  # Token.Literal.String.Regex
    ('cobolfree', "REM é\n' é\nrem x\n"),  # Token.Literal.String.Single
    ('t-sql', '"""doc é\n  x"""\n'),  # Token.Literal.String.Symbol
    ('dylan', '#!/bin/é sh\n'),  # Token.Name
    ('terminfo', '; c é\n% c é\n! c\n'),  # Token.Name.Attribute
    ('lagda', '$ ls é\n> x\n>>> é\nTraceback\n  é\n[é]\nk = é\nk: é\n'),  # Token.Name.Builtin
    ('stan', 'lp__'),  # Token.Name.Builtin.Pseudo
    ('pony', 'Any'),  # Token.Name.Builtin.Type
    ('mask', '#!/bin/é sh\n'),  # Token.Name.Class
    ('boa', 'Type'),  # Token.Name.Classes
    ('xorg.conf', '<<EOF\nhe é $x\nEOF\n'),  # Token.Name.Constant
    ('sml', "'a' 'é' :sym `b é` r'x' b'y' f'{z}' /re é/g\n"),  # Token.Name.Decorator
    ('md', '/** @param é c */\n/// <x>é</x>\n//! é\n'),  # Token.Name.Entity
    ('moo', 'E_DIV'),  # Token.Name.Exception
    ('earl-grey', 'Name.Tag'),  # Token.Name.Field
    ('cirru', '#!/bin/é sh\n'),  # Token.Name.Function
    ('py2', '__eq__'),  # Token.Name.Function.Magic
    ('fortranfixed', '; c é\n% c é\n! c\n'),  # Token.Name.Label
    ('hy', '#include <é.h>\n#define X Ö\n#if 0\nÜ d\n#endif\n'),  # Token.Name.Namespace
    ('html+lasso', '#include <é.h>\n#define X Ö\n#if 0\nÜ d\n#endif\n'),  # Token.Name.Other
    ('html+lasso', '.__init__'),  # Token.Name.Other.Member
    ('msc', 'WIDTH'),  # Token.Name.Property
    ('earl-grey', 'a-zA-Z'),  # Token.Name.Symbol
    ('jade', 'dnl é\n.. é::\n   x é\n'),  # Token.Name.Tag
    ('isabelle', "'a' 'é' :sym `b é` r'x' b'y' f'{z}' /re é/g\n"),  # Token.Name.Type
    ('extempore', '#!/bin/é sh\n'),  # Token.Name.Variable
    ('maql', '$ ls é\n> x\n>>> é\nTraceback\n  é\n[é]\nk = é\nk: é\n'),  # Token.Name.Variable.Class
    ('basic', 'analyse_text'),  # Token.Name.Variable.Global
    ('lasso', '#pop'),  # Token.Name.Variable.Instance
    ('py2', '__doc__'),  # Token.Name.Variable.Magic
    ('blitzmax', ':Shl'),  # Token.Operator
    ('earl-grey', '\\begin{é} \\é $x^2$ % é\n'),  # Token.Operator.DBS
    ('cobol', 'OR'),  # Token.Operator.Word
    ('cheetah', '#!/bin/é sh\n'),  # Token.Other
    ('parasail', '#!/bin/é sh\n'),  # Token.Punctuation
    ('salt', 'dnl é\n.. é::\n   x é\n'),  # Token.Punctuation.Indicator
    ('cfm', '#!/bin/é sh\n'),  # Token.Text
    ('terraform', '\\begin{é} \\é $x^2$ % é\n'),  # Token.Text.Punctuation
    ('scala', "<a b='C é'>T ü</a>\n  @x 'q' -- k Ö\n"),  # Token.Text.Symbol
    ('control', ':Python-'),  # Token.Text.Whitespace
]

# texts in which every option has something to do, several times and next to each other
RICH = [
    ('/* a é */\n\tfooBar = "x é 12345" + 10L; // c Ö\n\n    B_c("", "ß", \'d\');\n', 'java'),
    ('"s é"// c\n"t""u é ü"/* m */"v"/*é*//**/\n//\n', 'java'),
    ('\t"\tab é\n\tc" // é \t "d"\n\t\t/* "e\n\tf" */\tFOO_é1', 'java'),
    ('return"";return "abcdef";return "abcde";return "abcd";return "é"; // 1 0 10 100L\n', 'java'),
    ('import static a.b; @A(b = "</t> <w> é") // </w> <comment> <EOL>\nint x = 0 >= 1 ? 1_000 : .5e3f;', 'java'),
    ('éa "é" /* é */ // é\n\té', 'java'),
    ('Foo FOO fooBAR "Foo FOO é" // Foo FOO\n\nÉa aÉ É', 'java'),
    ('// a', 'java'), ('/* a', 'java'), ('"a', 'java'), ('x // é\n', 'java'), ('\n\n\t\n// a\n\n\t\n', 'java'),
    ('"""Doc é\n    ab c\n"""\ndef f_Xy(a, b=\'cdefg é\'):\n\treturn f"{a!r} é" # c é\n', 'py'),
    ("x = 'a' 'bcdef' u'é' b'g' # \"h\"\n\n\n    y = 10 # é\n", 'py'),
    ('#include <a.h>\n#define X_Y(a) "bcdef é" /* c */\nchar *s = L"d é" "\\n%d"; // e\n', 'c'),
    ('var a = /re[x] é/g + `t ${aB} é\n\t`; // c é\n\n\n  "use strict"; /* d */', 'js'),
    ('<a b="c d é" E=\'F\'>T é 10L</a><!-- c é -->\n\t<script>var x="1";//c\n</script>', 'html'),
    ("SELECT fooBar, 'a b é' FROM \"t_A\" -- c é\n\tWHERE x = 10 /* d */;", 'sql'),
    ('#!/bin/sh\necho "a $B_c é" \'q é\' # c é\n\tif [ -f x ]; then exit 10; fi\n', 'sh'),
    ('<?php // c é\n$aB = "x $y é"; /* d */ # e\n\techo \'f\', 10; ?>\n<b>é</b>', 'php'),
]
LONG = sorted(set(list(range(2, 34)) + [n + d for n in (40, 48, 50, 64, 80, 100, 120, 128, 200, 250, 256, 300, 500, 512, 1000, 1024)
                                        for d in (-1, 0, 1)]))
VERY_LONG = [n + d for n in (1500, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000) for d in (-1, 0, 1)]


def long_texts(n):
    """Everything that can be long, of length n"""
    fill = lambda s: (s * n)[:n]
    return [
        fill('ab'), fill('aB'), fill('A'), fill('a_'), 'x' + fill('é'), 'x' + fill('1'), fill('_'), fill('Ab1_é'), fill('日本'),
        '1' + fill('0'), '0x' + fill('Ff'), '1.' + fill('25') + 'e3',
        '1' + fill('_1') + ('1' if n % 2 else '') + 'L', '// 12' + '_34' * n + ' x', '"0xa' + '_Ff' * n + 'l 0b1' + '_01' * n + '"',
        '1e' + fill('7'), '.' + fill('5') + 'f', '// ' + fill('0') + '. 1' + fill('0') + 'e-' + fill('3') + 'd',
        '"' + fill('a') + '"', '"' + fill('a b') + '"', '"' + fill(' ') + '"', '"' + fill('é') + '"', "'" + fill('@\\\\') + "'",
        '// ' + fill('aB c ') + '\n', '/*' + fill('a\n') + '*/', '/*' + fill(' ') + '*/', '/**' + fill('éb ') + '*/ x',
        'a' + ' ' * n + 'b', 'a' + '\t' * n + 'b', 'a' + '\n' * n + 'b', 'a' + fill(' \t') + 'b', 'a' + fill(' \n') + 'b',
        fill('+'), fill('('), fill('a;'), fill('if '), fill('{}'), fill('#'), fill('1 '), fill('"",'), fill("'a'"), fill('@a'),
        ('aB = "c" + 1; // d\n' * n)[:20 * n] if n <= 128 else 'aB',
    ]


IDENT_ALPHABET = ['a', 'b', 'B', 'C', '_', '1', 'é', 'É', 'ß']


def lex_pairs(lexemes):
    out = list(lexemes)
    for a in lexemes:
        for b in lexemes:
            out.append(a + b)
            out.append(a + ' ' + b)
    return out


BORDERS = [0, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x100, 0x17f, 0x180, 0x24f, 0x250, 0x2af, 0x370, 0x3ff, 0x400, 0x530,
           0x7ff, 0x800, 0xfff, 0x1fff, 0x2000, 0x206f, 0x2e80, 0x3000, 0x4e00, 0x9fff, 0xa000, 0xac00, 0xd7a3, 0xd7ff, 0xe000,
           0xf8ff, 0xf900, 0xfe0f, 0xfffd, 0xffff, 0x10000, 0x1d400, 0x1f600, 0x1ffff, 0x20000, 0x2ffff, 0x30000, 0xe0001,
           0xf0000, 0x10ffff]


@functools.lru_cache(maxsize=None)
def classes():
    """All code points, partitioned by everything Python and Unicode say about them. -> (representatives, coarser ones)"""
    fine, coarse = {}, {}
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000 or c == 0xfeff:
            continue
        ch = chr(c)
        up, lo = ch.upper(), ch.lower()
        a = (unicodedata.category(ch), ch.isalpha(), ch.isdigit(), ch.isdecimal(), ch.isnumeric(), ch.islower(), ch.isupper(),
             ch.istitle(), ch.isspace(), ch.isidentifier(), len(up), len(lo), up == ch, lo == ch, up.lower() == ch,
             lo.upper() == ch, ch.title() == up, ch.casefold() == lo, unicodedata.combining(ch) != 0,
             len(('a' + ch + 'b').splitlines()) > 1, c < 128)
        coarse.setdefault(a, []).append(c)
        b = a + (c < 256, c < 0x10000, ch.isprintable(), ('a' + ch).isidentifier(), unicodedata.normalize('NFC', ch) == ch,
                 unicodedata.normalize('NFKC', ch) == ch, unicodedata.east_asian_width(ch) in 'WF',
                 unicodedata.bidirectional(ch) in ('R', 'AL'))
        fine.setdefault(b, []).append(c)
    some = {c for v in fine.values() for c in (v[0], v[-1])} | {c for c in BORDERS if c != 0xfeff}
    return [chr(c) for c in sorted(some)], [chr(v[len(v) // 2]) for v in coarse.values()]


@functools.lru_cache(maxsize=None)
def domain(name):
    """-> list of (text, extension)"""
    if name == 'empty':
        return [('', 'java'), ('', None), ('\n', 'java'), ('\n\n', 'java'), (' ', 'java'), ('\n', 'py')]
    if name == 'single':
        return [(t, 'java') for t in LEX_JAVA] + [(t, None) for t in LEX_SMALL]
    if name == 'pairs':
        return [(t, 'java') for t in dict.fromkeys(lex_pairs(LEX_JAVA))]
    if name == 'spairs':
        return [(t, 'java') for t in dict.fromkeys(lex_pairs(LEX_SMALL))]
    if name == 'triples':
        return [(t, 'java') for t in dict.fromkeys(''.join(p) for p in itertools.product(LEX_SMALL, repeat=3))]
    if name == 'quads':
        return [(t, 'java') for t in dict.fromkeys(''.join(p) for p in itertools.product(LEX_SMALL[::2] + [' '], repeat=4))]
    if name == 'btriples':
        return [(t, 'java') for t in dict.fromkeys(''.join(p) for p in itertools.product(LEX_JAVA[::2], repeat=3))]
    if name == 'langs':
        out = []
        for ext, snippets in LANGS.items():
            out += [(s, ext) for s in snippets]
            out += [(a + b, ext) for a in snippets for b in snippets]
        return list(dict.fromkeys(out))
    if name == 'slangs':
        return [(s, ext) for ext, snippets in LANGS.items() for s in snippets]
    if name == 'alllangs':
        from pygments.lexers import get_all_lexers
        aliases = sorted({sorted(al)[0] for _, al, _, _ in get_all_lexers() if al})
        snippets = ['fooBar_1 = "a bé" + 10L; // c\n', '# c Ö\n\tif (x) { /* m */ }\n', "<a b='C'>T</a>\n  @x 'q' -- k\n"]
        return [(s, a) for a in aliases if a != 'raw' for s in snippets]
    if name == 'kinds':
        return list(dict.fromkeys((t, e) for e, k in KINDS for t in (k, k.rstrip('\n') + '\n\tfooBar_1L = "a bé";\n', f'{k} {k}')))
    if name == 'kinds2':    # all snippets in all of these languages
        return list(dict.fromkeys((t, e) for e, _ in KINDS for _, t in KINDS if len(t) > 12))
    if name == 'shapes':    # see tools/shapes.py
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shapes.json')) as f:
            return [tuple(x) for x in json.load(f)]
    if name == 'rich':
        return RICH + [(a + b, e) for (a, e), (b, f) in zip(RICH, RICH[1:] + RICH[:1]) if e == f]
    if name == 'long':      # everything of every length
        return list(dict.fromkeys((t, 'java') for n in LONG for t in long_texts(n)))
    if name == 'vlong':
        return list(dict.fromkeys((t, 'java') for n in VERY_LONG for t in long_texts(n)))
    if name == 'raw':
        return [('x = "é"\n', 'raw'), ('Token.Name\t\'foo\'\n', 'raw')]
    if name.startswith('chars'):  # all strings up to a length
        n = int(name[5:])
        alphabet = ['a', 'B', '1', '_', '"', '/', '*', '\n', ' ', '\t', '\\', 'é', "'", '@']
        return [(''.join(p), 'java') for k in range(n + 1) for p in itertools.product(alphabet, repeat=k)]
    if name.startswith('ws') and name[2:].isdigit():
        n = int(name[2:])
        alphabet = [' ', '\t', '\n', 'a', '"', '//']
        return [(''.join(p), 'java') for k in range(n + 1) for p in itertools.product(alphabet, repeat=k)]
    if name.startswith('num'):
        n = int(name[3:])
        alphabet = ['0', '1', 'x', '.', 'e', 'L', '_', '-']
        return [(''.join(p), 'java') for k in range(1, n + 1) for p in itertools.product(alphabet, repeat=k)]
    if name.startswith('ids'):
        n = int(name[3:])
        return [(''.join(p), 'java') for k in range(1, n + 1) for p in itertools.product(IDENT_ALPHABET, repeat=k)]
    if name.startswith('aids'):  # ascii identifiers
        n = int(name[4:])
        return [(''.join(p), 'java') for k in range(1, n + 1) for p in itertools.product(['a', 'b', 'A', 'B', '_', '1'], repeat=k)]
    if name.startswith('strs'):  # string literals of every length and content over a small alphabet
        n = int(name[4:])
        alphabet = ['a', 'Z', ' ', '@', 'é', '1', '\\n', '\t', '\xa0']
        return [('"' + ''.join(p) + '"', 'java') for k in range(n + 1) for p in itertools.product(alphabet, repeat=k)]
    if name.startswith('coms'):
        n = int(name[4:])
        alphabet = ['a', 'Z_', ' ', '    ', '@', 'é', '1', '\t', '"']
        return [(f % ''.join(p), 'java') for k in range(n + 1) for p in itertools.product(alphabet, repeat=k)
                for f in ('//%s\n', '/*%s*/', '/**%s*/x')]
    if name.startswith('wscom'):    # blanks in comments and literals
        n = int(name[5:])
        alphabet = [' ', '  ', '    ', '        ', '\t', '\n', '*', 'a']
        return [(f % ''.join(p), e) for k in range(n + 1) for p in itertools.product(alphabet, repeat=k)
                for f, e in (('/*%s*/', 'java'), ('x = `%s`;', 'js'))]
    if name.startswith('marks'):    # texts that look like codeprep's own marks
        n = int(name[5:])
        alphabet = ['</t>', '<w>', '</w>', '<Cap>', '<CAPS>', '<EOF>', '<comment>', '<', '/t>', '@', 'aB', ' ']
        if n < 3:
            alphabet += ['<EOL>', '<non-en>', '<str-literal>', '<non-en-content>', '\xf7', '\xa0', 't', '\\n', '""']
        return [(f % ''.join(p), e) for k in range(1, n + 1) for p in itertools.product(alphabet, repeat=k)
                for f, e in (('"%s"', 'java'), ('x = "%s"', 'py'), ('// %s', 'java'), ('%s', 'java'), ('%s', 'text'))]
    if name.startswith('lens'):  # every string literal length
        n = int(name[4:])
        out = []
        for k in range(0, n + 1):
            for body in ('a' * k, ('aB_1' * k)[:k], (' ' * k), ('é' * k), ('a @' * k)[:k]):
                out += [(f'x = "{body}";', 'java'), (f"x = '{body}'", 'py')]
        return out
    if name.startswith('unicode'):  # every code point in [lo, hi), in several positions
        lo, hi = map(int, name[7:].split('-'))
        out = []
        for c in range(lo, hi):
            if 0xd800 <= c < 0xe000 or c == 0xfeff:
                continue
            ch = chr(c)
            out.append((f'x{ch}Y {ch} {ch}{ch} {ch}b', 'java'))
            out.append((f'"{ch} a{ch}"', 'java'))
        return out
    if name.startswith('uid'):  # every code point as (part of) an identifier
        lo, hi = map(int, name[3:].split('-'))
        out = []
        for c in range(lo, hi):
            if 0xd800 <= c < 0xe000:
                continue
            ch = chr(c)
            if ch.isalpha() or ch.isdigit() or ch == '_':
                out.append((f'{ch} {ch}{ch} {ch}b {ch}B A{ch} a{ch} {ch}1 X{ch}y_{ch}', 'java'))
        return out
    if name == 'uclass':    # representatives of all classes of code points, in all positions
        return [(t, e) for ch in classes()[0] for t, e in (
            (f'x{ch}Y {ch} {ch}{ch} {ch}b X{ch}y_{ch} a{ch}{ch}b A{ch} {ch}B {ch}1 1{ch}', 'java'),
            (f'"{ch} a{ch}" \'{ch}{ch}b\' "  {ch}"', 'java'), (f'// {ch}{ch} a{ch}B\n/*{ch}*/', 'java'),
            (f'a{ch}B = {ch} # {ch}\n"""{ch}\n"""', 'py'))]
    if name == 'uclass2':   # every pair of coarser classes next to each other
        return [(t, 'java') for a in classes()[1] for b in classes()[1]
                for t in (f'a{a}{b}B {a}_{b} {a}{b}', f'"{a}{b} {a}"')]
    raise KeyError(name)


def unicode_ranges(hi, step, prefix='unicode'):
    return [f'{prefix}{lo}-{min(lo + step, hi)}' for lo in range(0, hi, step)]
