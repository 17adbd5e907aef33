"""Formats derived SQL texts with options of the formatter and records what was written."""
import os
import random
import re
import sys

import scripts
import sqltext

REPO = os.environ.get('VERIF_REPO', '/repo')

# words that are keywords wherever they stand (but before a parenthesis or a dot), and words that never are
CORE = '''select from where and or insert into values update set case when then else end group order by having limit union all distinct as on null is between
    join left inner cross'''.split()
PLAIN = 'a b c x1 user_id t u orders long_column_name_2 camelcase _x amount v9 users b1 x_y endpoint beginning iff casex caseload'.split()
HEADS = 'from where having union'.split()


def codes(s):
    return [ord(c) for c in s]


def options(rnd):
    """options of the formatter, and what they ask for"""
    o, want = {}, {'kw': '', 'id': '', 'strip': False, 'ops': False, 'single': False, 'lines': False, 'width': 0, 'tail': []}
    r = rnd.random
    if r() < .3:
        o['keyword_case'] = want['kw'] = rnd.choice(['upper', 'lower', 'capitalize'])
    if r() < .3:
        o['identifier_case'] = want['id'] = rnd.choice(['upper', 'lower', 'capitalize'])
    if r() < .25:
        o['strip_comments'] = want['strip'] = True
    if r() < .25:
        o['use_space_around_operators'] = want['ops'] = True
    if r() < .15:
        o['truncate_strings'] = want['width'] = rnd.choice([2, 3, 4, 7, 20])
        if r() < .7:
            o['truncate_char'] = rnd.choice(['', '~', '...'])
        want['tail'] = codes(o.get('truncate_char', '[...]'))
    if r() < .3:
        o['strip_whitespace'] = True
    k = r()
    if k < .35:
        o['reindent'] = True
        for x, vals in (('indent_width', [1, 2, 4, 8]), ('indent_tabs', [True]), ('wrap_after', [1, 20, 80]), ('comma_first', [True]), ('indent_columns', [True]),
                        ('indent_after_first', [True])):
            if r() < .25:
                o[x] = rnd.choice(vals)
    elif k < .5:
        o['reindent_aligned'] = True
    elif 'strip_whitespace' in o:
        want['single'] = not want['ops']
    if r() < .2:
        o['output_format'] = rnd.choice(['python', 'php'])
        want['ops'] = want['single'] = False
    want['lines'] = 'reindent' in o and 'output_format' not in o
    return o, want


def read_python(code):
    """the statements that code assigns to variables"""
    env = {}
    exec(code, {'__builtins__': {}}, env)           # noqa: S102
    return ' '.join(env.values())


def read_php(code):
    val, i, n, out = '', 0, len(code), []
    while i < n:
        c = code[i]
        if c == '"':
            i += 1
            while code[i] != '"':
                if code[i] == '$':
                    raise ValueError('a variable within a string')
                if code[i] == '\\':
                    i += 1
                    if code[i] not in '\\"$nrt':
                        val += '\\'
                    val += {'n': '\n', 'r': '\r', 't': '\t'}.get(code[i], code[i])
                else:
                    val += code[i]
                i += 1
        elif c == ';':
            val += ' '
        elif not (c.isalnum() or c.isspace() or c in '$=.'):
            raise ValueError('not PHP: %r' % code[i:i + 20])
        i += 1
    return val


TIGHT = re.compile(r"""('(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|`[^`]*`|--[^\n]*|\#[^\n]*)|(?<=[\w,()])(?P<l>[ ]?)(?P<c>/\*(?![!+]).*?\*/)(?P<r>[ ]?)(?=[\w,()])""", re.S)


def tighten(rnd, text):
    """without the blanks around some comments"""
    return TIGHT.sub(lambda m: m[0] if m[1] is not None or rnd.random() < .2 else m['c'], text)


def record(id, kind, a, b, seed):
    """kind: script (a: the kinds of its tokens) or sql (a, b: derivation and tokens)"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from scheduler.compile import parse as P
    rnd = random.Random('s04/%s/%s' % (seed, id))
    if kind == 'script':
        text = scripts.render(rnd, a, plain=rnd.random() < .2)[0]
    else:
        text = sqltext.text(rnd, a, b, sqltext.choose(rnd, a), plain=rnd.random() < .3)
    text = text.replace('ß', 'ü')                   # has no capital letter of its own
    if rnd.random() < .4:
        text = tighten(rnd, text)
    o, want = options(rnd)
    if kind != 'sql':
        want['lines'] = want['ops'] = False         # of no statement of the grammar
    error = ''
    out = written = P.format(text, **o)
    if 'output_format' in o:
        try:
            out = (read_python if o['output_format'] == 'python' else read_php)(written)
        except Exception as e:                      # noqa: BLE001
            error = repr(e)
    low = text.lower()
    t = {'id': id, 'src': codes(text), 'out': codes(out), 'opts': want, 'failed': bool(error), 'core': [codes(w) for w in CORE if w in low],
         'plain': [codes(w) for w in PLAIN if w in low], 'heads': [codes(w) for w in HEADS]}
    return t, {'text': text, 'options': o, 'written': written, 'error': error}
