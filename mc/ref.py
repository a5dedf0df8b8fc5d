"""
Executable specification of tokenization, written from the documentation and independent of codeprep's own classes.

It trusts only Pygments (which lexical class each piece of the text belongs to). Everything after that -- words, numbers,
strings, comments, whitespace, case, markers, placeholders, metadata -- is specified here over plain tuples.

A parsed text is a list of items (kind, payload):
  ('nl',) ('tab',) ('op', s) ('kw', s) ('nc', s) ('num', s) ('id', s) ('str', text, [inner items]) ('olc'|'mlc', [inner items])
Inner items additionally know ('sp', n): n blanks in a string literal.
"""
import functools
import re
import unicodedata  # noqa: F401

import regex
from pygments import lex
from pygments.lexers import get_lexer_by_name, guess_lexer
from pygments.token import Token
from pygments.util import ClassNotFound

import stubs

NBSP = '\xa0'
DIV = '\xf7'

_w = {}


def is_word_char(c):
    r = _w.get(c)
    if r is None:
        r = _w[c] = bool(regex.match(r'\w', c))
    return r


_cls = {}


def char_class(c):
    """u(pper), l(ower), d(igit 0-9), '_' or o(ther)"""
    r = _cls.get(c)
    if r is None:
        if c == '_':
            r = '_'
        elif c in '0123456789':
            r = 'd'
        elif regex.match('[[:upper:]]', c):
            r = 'u'
        elif regex.match('[[:lower:]]', c):
            r = 'l'
        else:
            r = 'o'
        _cls[c] = r
    return r


HEX = r'0x(?:[0-9a-fA-F]+_)*[0-9a-fA-F]+[lL]?'
BIN = r'0b(?:[01]+_)*[01]+[lL]?'
INT = r'(?:[0-9]+_)*[0-9]+[lLfFdD]?'
EXP = r'[eE][-+]?[0-9]+'
DBL = rf'(?:[0-9]+\.[0-9]+(?:{EXP})?|[0-9]+\.(?:{EXP})?|\.[0-9]+(?:{EXP})?|[0-9]+{EXP})[fFdD]?'
NUM = re.compile(rf'(?:{HEX}|{BIN}|{INT}|{DBL})\Z')


def is_number(s):
    return NUM.match(s) is not None


def is_ascii(s):
    return all(ord(c) < 128 for c in s)


def hump_split(s):
    """CamelCase / snake_case / digit boundaries of an identifier."""
    res = []
    i = 0
    n = len(s)
    while i < n:
        c = char_class(s[i])
        if c == 'd':
            j = i
            while j < n and char_class(s[j]) == 'd':
                j += 1
        elif c == 'l' or (c == 'u' and i + 1 < n and char_class(s[i + 1]) == 'l'):
            j = i + 1
            while j < n and char_class(s[j]) == 'l':
                j += 1
        elif c == 'u':
            j = i
            while j < n and char_class(s[j]) == 'u':
                j += 1
            if j < n and char_class(s[j]) == 'l':
                j -= 1  # the last capital starts the next word
        else:
            j = i + 1
        res.append(s[i:j])
        i = j
    return res


def words(text, in_string):
    """The items a comment, string, name or unknown piece of text consists of."""
    res = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if is_word_char(c):
            j = i
            while j < n and is_word_char(text[j]):
                j += 1
            w = text[i:j]
            res.append(('num', w.lower()) if is_number(w) else ('id', w))
            i = j
        elif c == ' ':
            j = i
            while j < n and text[j] == ' ':
                j += 1
            if in_string:
                res.append(('sp', j - i))
            else:
                res += [('tab',)] * ((j - i) // 4)
            i = j
        else:
            if c == '\n':
                res.append(('nl',))
            elif c == '\t':
                res.append(('tab',))
            else:
                res.append(('nc', c))
            i += 1
    return res


@functools.lru_cache(maxsize=None)
def _named_lexer(ext):
    return get_lexer_by_name(ext)


def lexed(text, ext):
    try:
        lexer = _named_lexer(ext or 'java')
    except ClassNotFound:
        lexer = guess_lexer(text)
    return lex(text, lexer)


@functools.lru_cache(maxsize=64)
def tokens_of(text, ext):
    out = []
    for tok, val in lexed(text, ext):
        if tok in Token.Keyword or tok in Token.Literal.Number or tok is Token.Operator or tok in Token.Punctuation:
            # some lexers take blanks for a part of what is next to them
            out += [(Token.Text if p.isspace() else tok, p) for p in re.findall(r'\s+|\S+', val)]
        else:
            out.append((tok, val))
    return out


@functools.lru_cache(maxsize=64)
def parse(text, ext, strict_newlines=False):
    """strict_newlines: what is documented; without it, line breaks inside longer blank pieces are dropped, as they are by
    the implementation (a listed finding)."""
    items = []
    for tok, val in tokens_of(text, ext):
        if val == '\n':
            items.append(('nl',))
        elif val == '\t':
            items.append(('tab',))
        elif val.strip() == '':
            if strict_newlines and '\n' in val:
                for i, line in enumerate(val.split('\n')):
                    items += ([('nl',)] if i else []) + [('tab',)] * (len(line.expandtabs(4)) // 4)
            else:
                items += [('tab',)] * (len(val.expandtabs(4)) // 4)
        elif tok is Token.Operator or tok in Token.Punctuation:
            items.append(('op', val))
        elif tok in Token.Literal.Number:
            # the number literals 0 and 1 are never taken apart
            items.append(('lit' if val in ('0', '1') else 'num', val.lower()))
        elif tok in Token.Name or tok is Token.Literal or tok is Token.Literal.Date:
            items += words(val, False)
        elif tok in Token.Keyword:
            items += [('kw', k) for k in val.split()]
        elif tok in Token.Literal.String:
            items.append(('str', val, words(val, True)))
        elif tok is Token.Comment.Single:
            items.append(('olc', words(val, False)))
        elif tok in Token.Comment:
            items.append(('mlc', words(val, False)))
        else:
            items += words(val, False)
    return items


OP_TYPES = {';': 'Semicolon', '{': 'OpeningCurlyBracket', '}': 'ClosingCurlyBracket', '(': 'OpeningBracket',
            ')': 'ClosingBracket'}


def case_prefix(word):
    """-> (marker or None, lowercased word): how a word is encoded when case is not preserved."""
    if word.islower():
        return None, word
    if word.isupper() and word.lower().upper() == word:
        return '<CAPS>', word.lower()
    if word[0].isupper() and word[0].lower().upper() == word[0]:
        return '<Cap>', word[0].lower() + word[1:]
    return None, word


def squash_non_ascii(s):
    return re.sub('[^\x00-\x7f]+', DIV, s)


_stemmer = []


def stem(word):
    if not _stemmer:
        from nltk.stem import PorterStemmer
        _stemmer.append(PorterStemmer())
    s = _stemmer[0].stem(word)
    return s.upper() if word.isupper() else s.capitalize() if word[:1].isupper() else s


class Spec:
    """mode: nosplit | basic | chars | bpe; opts as in the public functions. `bpe` is a function word -> subwords.

    strict: as documented; otherwise with the listed findings."""

    def __init__(self, mode, opts, bpe=None, strict=False):
        self.strict = strict
        self.mode = mode
        self.o = dict(opts)
        self.bpe = (lambda w: list(w) + ['']) if mode == 'chars' else bpe
        self.is_bpe = mode in ('bpe', 'chars')
        self.stem = self.o.get('stem')
        self.ronin = self.o.get('ronin') or self.stem
        self.split_numbers = self.o.get('split_numbers') or self.ronin
        m = self.o.get('max_str_length')
        self.max_len = m if m is not None and (m < 62 or strict) else None
        if self.max_len is not None and self.max_len < 2:
            self.max_len = 2
        self.full = self.is_bpe or bool(self.o.get('full_strings'))

    def word_pieces(self, w):
        if self.ronin:
            ps = stubs.ronin_stub_split(w)
            if self.stem:
                ps = [stem(p) for p in ps]
            return ps
        return [w]

    # each method returns a list of full tokens: (subtokens, type, nonprocessable set)
    def item(self, it):
        o = self.o
        k = it[0]
        if k in ('nl', 'tab'):
            c = '\n' if k == 'nl' else '\t'
            return [] if o.get('no_spaces') else [([c], 'NewLine' if k == 'nl' else 'Tab', {c})]
        if k == 'op':
            return [([it[1]], OP_TYPES.get(it[1], 'Operator'), {it[1]})]
        if k == 'kw':
            return [([it[1]], 'KeyWord', {it[1]})]
        if k == 'nc':
            return [([it[1]], 'NonCodeChar', {it[1]})]
        if k == 'num':
            return [(self.number(it[1]), 'Number', set())]
        if k == 'lit':
            return [([it[1]], 'Number', set())]
        if k == 'id':
            return [self.identifier(it[1])]
        if k == 'sp':
            return []
        if k in ('olc', 'mlc'):
            t = 'OneLineComment' if k == 'olc' else 'MultilineComment'
            if o.get('no_com'):
                return [(['<comment>'], t, set())]
            res = [(s, t, n) for i in it[1] for s, _, n in self.item(i)]
            if k == 'olc':
                res.append((['<EOL>'], t, set()))
            return res
        if k == 'str':
            return self.string(it)
        raise AssertionError(it)

    def number(self, v):
        if self.is_bpe:
            return self.bpe(v)
        if self.split_numbers and len(v) > 1:
            return ['<w>'] + list(v) + ['</w>']
        return [v]

    def identifier(self, s):
        if self.o.get('no_unicode') and not is_ascii(s):
            if self.mode == 'nosplit' or self.mode == 'basic':
                return (['<non-en>'], 'NonEng', set())
            return (self.bpe(squash_non_ascii(s)), 'SplitContainer', set())
        if self.is_bpe:
            return (self.bpe(s), 'SplitContainer', set())
        if self.mode == 'nosplit':
            return ([s], 'SplitContainer', set())
        res = []
        for p in hump_split(s):
            if p == '_':
                res.append('_')
            elif self.o.get('no_case'):
                prefix, low = case_prefix(p)
                res += ([prefix] if prefix else []) + self.word_pieces(low)
            else:
                res += self.word_pieces(p)
        if not (len(res) == 1 or (len(res) == 2 and res[0] in ('<Cap>', '<CAPS>'))):
            res = ['<w>'] + res + ['</w>']
        return (res, 'SplitContainer', set())

    def full_string(self, it):
        res = ''
        for i in it[2]:
            if i[0] == 'sp':
                res += NBSP * i[1]
            elif i[0] == 'nl':
                res += '\n'
            elif i[0] == 'tab':
                res += '\t'
            else:
                res += i[1]
        if self.o.get('no_unicode'):
            res = NBSP.join(squash_non_ascii(p) for p in res.split(NBSP))
        return res

    def string(self, it):
        if self.o.get('no_str'):
            return [(['<str-literal>'], 'StringLiteral', set())]
        if self.max_len is not None and len(it[1]) > self.max_len:
            if self.o.get('full_strings'):
                return [(['""'], 'StringLiteral', set())]
            return [(['"', '"'], 'StringLiteral', {'"'})]
        if self.is_bpe:
            return [(self.bpe(self.full_string(it)), 'StringLiteral', set())]
        if self.full:
            return [([self.full_string(it)], 'StringLiteral', set())]
        return [(s, 'StringLiteral', n) for i in it[2] for s, _, n in self.item(i)]

    def full_tokens(self, text, ext, append_eof=False):
        items = list(parse(text, ext, self.strict))
        if items and items[-1] == ('nl',):
            items.pop()
        res = [t for i in items for t in self.item(i)]
        if append_eof:
            res.append((['<EOF>'], 'SpecialToken', {'<EOF>'}))
        return res

    def run(self, text, ext, append_eof=False):
        """-> tokens, nonprocessable set, word boundaries, type names as the library returns them"""
        tokens, bounds, types, nonproc = [], [0], [], set()
        for sub, t, n in self.full_tokens(text, ext, append_eof):
            sub = list(sub)
            if self.is_bpe:
                sub[-1] += '</t>'
            tokens += sub
            bounds.append(len(tokens))
            types.append(t)
            nonproc |= n
        return tokens, nonproc, bounds, types


def type_name(t):
    return t if t not in ('Zero', 'One') else 'Number'


def merge_symbols(merges, cs):
    """merges: dict pair -> rank; cs: the symbols of a word"""
    while len(cs) > 1:
        best = None
        for a, b in zip(cs, cs[1:]):
            r = merges.get((a, b))
            if r is not None and (best is None or r < best[0]):
                best = (r, a, b)
        if best is None:
            break
        _, a, b = best
        out = []
        i = 0
        while i < len(cs):
            if i + 1 < len(cs) and cs[i] == a and cs[i + 1] == b:
                out.append(a + b)
                i += 2
            else:
                out.append(cs[i])
                i += 1
        cs = out
    return cs


def ref_bpe(merges):
    """merges: dict pair -> rank over escaped symbols ('@' is written '@@', the word ends in '@')."""
    cache = {}

    def bpe(word):
        r = cache.get(word)
        if r is None:
            # the end marker is a symbol of its own
            cs = merge_symbols(merges, ['@@' if c == '@' else c for c in word] + ['@'])
            cs[-1] = cs[-1][:-1]
            r = [c.replace('@@', '@') for c in cs]
            if len(cache) < 200000:
                cache[word] = r
        return list(r)
    return bpe


def load_merges(path, n=None):
    merges = {}
    with open(path, encoding='utf-8') as f:
        for rank, line in enumerate(f):
            if n is not None and rank >= n:
                break
            parts = line.rstrip('\n').encode('ascii').decode('unicode-escape').split(' ')
            merges.setdefault((parts[0], parts[1]), rank)
    return merges
