"""Writes the statements derived by SqlGen.tla as text, and reads what the code under test makes of them:
its syntax trees and its formatted text become the trees and tokens of Sql.tla."""
import json
import os
import random
import re
import sys
from decimal import Decimal

REPO = os.environ.get('VERIF_REPO', '/repo')

PLAIN = ['a', 'b', 'c', 'x1', 'user_id', 'Name', 't', 'u', 'orders', 'ID', 'long_column_name_2', 'camelCase', '_x', 'amount', 'v9']
ODD = ['a b', 'select', 'order', '1a', 'a.b', 'a`b', 'x-y', 'from', 'ÄÖ', "a'b", 'a"b', '%', 'limit', '中文', 'and', 'null', 'x,y', '(a)', 'a;b', '--', 'Group', 'a/*b', 'ß_1',
       'by', 'a  b', ' a', '#', '12', 'é', 'a=b', '@v', 'a:b', '?', 'in', 'Case', 'union', 'NOT', 'like', 'true', 'values', 'table', 'a\tb', '..', 'x.', '.x', 'a\\b']
FUNCS = ['max', 'min', 'sum', 'avg', 'upper', 'lower', 'coalesce', 'ifnull', 'concat', 'round', 'abs', 'length', 'my_fn', 'substring', 'greatest', 'if']
STRINGS = ['x', '', "it's", 'a"b', 'back\\slash', 'tab\there', 'new\nline', '%like_', "''", '\\', "\\'", '中文', 'é', 'select', '--', '/* x */', ';', '`q`', '0', 'a,b', '(', "'", '"',
           ' lead', 'trail ', 'emoji 😀', 'null', "a''b", '\\n', '\\\\', '#', '?', '%s', '{}', 'x' * 300, '\r', 'a\'"`b', '.', "or '1'='1"]
NUMBERS = ['0', '1', '5', '42', '007', '3.5', '0.25', '1e3', '1E-2', '2.5e+3', '12345678901234567890', '1.0', '100000', '0.1', '9007199254740993', '1e20', '0.00001', '123456.789', '1.50']
KEYWORDS = set('''select distinct from where group by having order asc desc limit offset union all with as join inner left outer right cross on using
    insert into values update set delete drop table if exists and or not like between in is null true false case when then else end'''.split())
# words MySQL reserves that the grammar does not use; an unquoted name must not be one of them
RESERVED = set('''key index check default primary references column create alter add trigger procedure rank window row rows system recursive of
    interval div mod xor regexp rlike match natural straight_join use force ignore for lock unique constraint database change read write int char'''.split())
SYMBOLS = ['<=', '>=', '<>', '!=', '||', '(', ')', ',', '.', '=', '<', '>', '+', '-', '*', '/', '%', '&', '|', '~']


def cased(rnd, s):
    r = rnd.random()
    return s if r < .4 else s.upper() if r < .7 else s.title() if r < .8 else ''.join(rnd.choice([c.lower(), c.upper()]) for c in s)


def number(s):
    d = Decimal(s)
    return str(d.normalize()) if d else '0'


def choose(rnd, p):
    """values of the leaves of a derivation: position (1-based, as Sql.tla numbers them) -> value"""
    vals, used, columns = {}, set(), None
    odd = rnd.choice([0, 0, .1, .4])
    for i, s in enumerate(p):
        if s == 'fn':
            v = rnd.choice(FUNCS)
        elif s == 'name':
            v = rnd.choice(ODD) if rnd.random() < odd else rnd.choice(PLAIN)
            if columns is not None and p[i - 1] == 'cons':
                while v in columns:
                    v = v + rnd.choice('abcxyz')
                columns.add(v)
            if i and p[i - 1] == 'set':
                while v in used:
                    v = v + rnd.choice('abcxyz')
                used.add(v)
        elif s == 'num':
            v = rnd.choice(NUMBERS if not (i and p[i - 1].startswith('limit') or i > 1 and p[i - 2] in ('limitoff', 'limitcomma')) else ['0', '1', '7', '100'])
        elif s == 'str':
            v = rnd.choice(STRINGS)
        else:
            columns = set() if s in ('insert', 'insertq') else None if s == 'nil' else columns
            continue
        vals[i + 1] = v
    return vals


def quoted(rnd, s, quotes):
    q = rnd.choice(quotes)
    out = []
    for c in s:
        if c == q:
            out.append(rnd.choice([q + q, '\\' + q]))
        elif c == '\\':
            out.append('\\\\')
        elif c in '\n\t\r' and rnd.random() < .6:
            out.append({'\n': '\\n', '\t': '\\t', '\r': '\\r'}[c])
        elif c in '\'"' and rnd.random() < .3:
            out.append('\\' + c)
        else:
            out.append(c)
    return q + ''.join(out) + q


def text(rnd, p, toks, vals, plain=False, quotes='\'\'\'"', bare=PLAIN):
    """one way to write the tokens"""
    out = []
    for n, (kind, val) in enumerate(toks):
        before = toks[n - 1][0] if n else ''
        nxt = toks[n + 1][0] if n + 1 < len(toks) else ''
        if kind == 'name':
            i = int(val)
            v = vals[i]
            if p[i - 1] == 'fn':
                s = v if plain else cased(rnd, v)
            else:
                s = v if v in bare and (plain or rnd.random() < .7) else '`' + v.replace('`', '``') + '`'
        elif kind == 'num':
            s = vals[int(val)]
        elif kind == 'str':
            s = quoted(rnd, vals[int(val)], quotes)
        elif kind == '<>' and not plain and rnd.random() < .5:
            s = '!='
        elif kind == 'as' and not plain and before not in ('with', '') and nxt != '(' and rnd.random() < .4:
            continue
        elif kind == 'asc':
            s = kind if plain else cased(rnd, kind)
        else:
            s = kind if plain else cased(rnd, kind)
        out.append((kind, s))
    parts = []
    for n, (kind, s) in enumerate(out):
        if n:
            before = out[n - 1][0]
            # only punctuation may stand without a space; a minus keeps its spaces, and a call its parenthesis
            fn = kind == '(' and before == 'name'
            tight = fn or before in ('(', '.') or kind in (')', ',', '.')
            if tight and (plain or fn or rnd.random() < .6):
                sep = ''
            elif plain or '.' in (before, kind):
                sep = ' ' if '.' not in (before, kind) else ''
            else:
                free = {kind, before} & {'=', '<', '>', '<=', '>=', '<>', '*', '/', ',', '+'} and '-' not in (kind, before)
                sep = rnd.choice(([''] if free else []) + [' ', ' ', ' ', '\n', '\t', '  ', ' \r\n ', ' /* c */ ', ' -- c\n', ' /* it\'s */ ', '\n\n'])
                if sep.strip() and rnd.random() < .6:
                    sep = ' '
                if sep == '' and before in ('/', '*') and kind in ('*', '/'):
                    sep = ' '
            parts.append(sep)
        parts.append(s)
    s = ''.join(parts)
    return s if plain else rnd.choice(['', '', ' ', '\n']) + s + rnd.choice(['', '', ';', ' ', ' ;', '\n'])


# ---------------------------------------------------------------------------------------------------------------
# the syntax trees of the code under test, as prefix forms

class Unreadable(Exception):
    pass


BINARY = {'sub': 'sub', 'div': 'div', 'mod': 'mod', 'binary_and': 'bitand', 'binary_or': 'bitor', 'eq': 'eq', 'neq': 'ne', 'lt': 'lt', 'lte': 'le', 'gt': 'gt',
          'gte': 'ge', 'like': 'like', 'not_like': 'notlike'}
JOINS = {'join': 'plain', 'inner join': 'inner', 'left join': 'left', 'left outer join': 'leftouter', 'right join': 'right', 'right outer join': 'rightouter', 'cross join': 'cross'}


def S(s, v=''):
    return [[s, v]]


def many(xs):
    out = []
    for x in xs:
        out += S('cons') + x
    return out + S('nil')


def listwrap(x):
    return x if isinstance(x, list) else [x]


def fields(s):
    parts = re.split(r'(?<!\\)((?:\\\\)*)\.', s) if False else []
    cur, i = '', 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s) and s[i + 1] == '.':
            cur += '.'
            i += 2
        elif s[i] == '.':
            parts.append(cur)
            cur = ''
            i += 1
        else:
            cur += s[i]
            i += 1
    return parts + [cur]


def name(s):
    if not isinstance(s, str):
        raise Unreadable('a name: %r' % (s,))
    f = fields(s)
    if len(f) != 1:
        raise Unreadable('a simple name: %r' % (s,))
    return S('name', f[0])


def is_query(j):
    return isinstance(j, dict) and bool(j.keys() & {'select', 'select_distinct', 'union', 'union_all', 'with', 'orderby', 'limit'})


def left(o, parts):
    out = parts[0]
    for p in parts[1:]:
        out = S(o) + out + p
    return out


def literal(v):
    if isinstance(v, str):
        return S('str', v)
    if isinstance(v, list):
        raise Unreadable('a list as a value')
    return expr(v)


def members(j):
    if isinstance(j, dict) and set(j) == {'literal'}:
        return many([literal(v) for v in listwrap(j['literal'])])
    return many([expr(x) for x in listwrap(j)])


def expr(j):
    if j is True or j is False:
        return S('true' if j else 'false')
    if isinstance(j, (int, float)):
        return S('neg') + S('num', number(repr(-j))) if j < 0 else S('num', number(repr(j)))
    if isinstance(j, str):
        if j == '*':
            return S('star')
        f = fields(j)
        if len(f) == 1:
            return S('name', f[0])
        if len(f) == 2:
            return S('qstar') + S('name', f[0]) if f[1] == '*' else S('qcol') + S('name', f[0]) + S('name', f[1])
        raise Unreadable('a name: %r' % j)
    if is_query(j):
        return S('subq') + query(j)
    if not isinstance(j, dict) or len(j) != 1:
        raise Unreadable('an expression: %r' % (j,))
    (k, v), = j.items()
    if k == 'value':
        return expr(v)
    if k == 'literal':
        if isinstance(v, list):
            raise Unreadable('a list as an expression')
        return literal(v)
    if k == 'null' and v == {}:
        return S('null')
    if k in ('and', 'or', 'add', 'mul'):
        return left(k, [expr(x) for x in v])
    if k in BINARY:
        if len(v) != 2:
            raise Unreadable('%s of %d' % (k, len(v)))
        return S(BINARY[k]) + expr(v[0]) + expr(v[1])
    if k in ('neg', 'not'):
        return S(k) + expr(v)
    if k == 'binary_not':
        return S('bitnot') + expr(v)
    if k in ('between', 'not_between'):
        return S(k.replace('_', '').replace('notb', 'notb')) + expr(v[0]) + expr(v[1]) + expr(v[2])
    if k in ('in', 'nin'):
        o = 'in' if k == 'in' else 'notin'
        if is_query(v[1]):
            return S(o + 'q') + expr(v[0]) + query(v[1])
        return S(o) + expr(v[0]) + members(v[1])
    if k == 'missing':
        return S('isnull') + expr(v)
    if k == 'exists':
        return S('exists') + query(v) if is_query(v) else S('notnull') + expr(v)
    if k == 'case':
        v = listwrap(v)
        whens, other = [], S('none')
        for i, w in enumerate(v):
            if isinstance(w, dict) and set(w) == {'when', 'then'}:
                whens.append(S('when') + expr(w['when']) + expr(w['then']))
            elif i == len(v) - 1:
                other = expr(w)
            else:
                raise Unreadable('CASE: %r' % (v,))
        return S('case') + many(whens) + other
    if k in BINARY.values() or k in KEYWORDS - {'if'}:
        raise Unreadable('operator %s' % k)
    f = S('name', k)
    if isinstance(v, dict) and set(v) == {'distinct'}:
        return S('calld') + f + members(v['distinct'])
    if v == {}:
        return S('call') + f + S('nil')
    if isinstance(v, dict) and set(v) == {'literal'} and isinstance(v['literal'], list):
        return S('call') + f + many([literal(x) for x in v['literal']])
    return S('call') + f + many([expr(x) for x in listwrap(v)])


def item(j):
    if j == '*':
        return S('star')
    if not isinstance(j, dict) or not set(j) <= {'value', 'name'} or 'value' not in j:
        raise Unreadable('a select item: %r' % (j,))
    return S('as') + expr(j['value']) + name(j['name']) if 'name' in j else expr(j['value'])


def source(j):
    if isinstance(j, str):
        return S('table') + name(j)
    if isinstance(j, dict) and set(j) == {'value', 'name'}:
        v = j['value']
        return S('tableas') + name(v) + name(j['name']) if isinstance(v, str) else S('derived') + query(v) + name(j['name'])
    if isinstance(j, dict) and j.keys() & JOINS.keys():
        k, = j.keys() & JOINS.keys()
        rest = set(j) - {k}
        if rest == {'on'}:
            return S('joinon') + S(JOINS[k]) + source(j[k]) + expr(j['on'])
        if rest == {'using'}:
            return S('joinusing') + S(JOINS[k]) + source(j[k]) + many([name(x) for x in listwrap(j['using'])])
        if not rest:
            return S('join') + S(JOINS[k]) + source(j[k])
    raise Unreadable('a table: %r' % (j,))


def order(j):
    out = []
    for s in listwrap(j.get('orderby', [])):
        if set(s) == {'value'}:
            out.append(expr(s['value']))
        elif set(s) == {'value', 'sort'} and s['sort'] in ('asc', 'desc'):
            out.append(S(s['sort']) + expr(s['value']))
        else:
            raise Unreadable('an order: %r' % (s,))
    return many(out)


def limit(j):
    if 'limit' not in j:
        if 'offset' in j:
            raise Unreadable('offset without limit')
        return S('none')
    n = j['limit']
    if isinstance(n, list):
        return S('limitcomma') + expr(n[0]) + expr(n[1])
    return S('limitoff') + expr(n) + expr(j['offset']) if 'offset' in j else S('limit') + expr(n)


def clause(j, k):
    return expr(j[k]) if k in j else S('none')


def query(j):
    if not isinstance(j, dict):
        raise Unreadable('a query: %r' % (j,))
    if 'with' in j:
        rest = {k: v for k, v in j.items() if k != 'with'}
        ctes = []
        for c in listwrap(j['with']):
            if set(c) != {'name', 'value'}:
                raise Unreadable('with: %r' % (c,))
            ctes.append(S('cte') + name(c['name']) + query(c['value']))
        return S('with') + many(ctes) + query(rest)
    for k, o in (('union', 'union'), ('union_all', 'unionall')):
        if k in j:
            if set(j) != {k}:
                raise Unreadable('a union: %r' % sorted(j))
            return left(o, [query(x) for x in j[k]])
    if not j.keys() & {'select', 'select_distinct'}:
        if not set(j) <= {'from', 'orderby', 'limit', 'offset'} or 'from' not in j:
            raise Unreadable('a query: %r' % sorted(j))
        return S('ordered') + query(j['from']) + order(j) + limit(j)
    if not set(j) <= {'select', 'select_distinct', 'from', 'where', 'groupby', 'having', 'orderby', 'limit', 'offset'} or {'select', 'select_distinct'} <= set(j):
        raise Unreadable('a query: %r' % sorted(j))
    d = 'select_distinct' in j
    return (S('select') + S('distinct' if d else 'all') + many([item(x) for x in listwrap(j['select_distinct' if d else 'select'])])
            + many([source(x) for x in listwrap(j.get('from', []))]) + clause(j, 'where')
            + many([item(x) for x in listwrap(j.get('groupby', []))]) + clause(j, 'having') + order(j) + limit(j))


def statement(j):
    if not isinstance(j, dict):
        raise Unreadable('a statement: %r' % (j,))
    if 'insert' in j and 'values' in j:            # rows of constants
        rows = j['values']
        if set(j) != {'insert', 'values'} or len({tuple(r) for r in rows}) != 1:
            raise Unreadable('an insert: %r' % (j,))
        return (S('insert') + name(j['insert']) + many([name(c) for c in rows[0]])
                + many([S('row') + many([S('str', x) if isinstance(x, str) else expr(x) for x in r.values()]) for r in rows]))
    if 'insert' in j:
        cols = many([name(c) for c in listwrap(j['columns'])])
        q = j['query']
        rows = listwrap(q.get('union_all', q))
        if set(j) != {'insert', 'columns', 'query'}:
            raise Unreadable('an insert: %r' % sorted(j))
        if all(set(r) == {'select'} for r in rows):
            return S('insert') + name(j['insert']) + cols + many([S('row') + many([item(x) for x in listwrap(r['select'])]) for r in rows])
        return S('insertq') + name(j['insert']) + cols + query(q)
    if 'update' in j:
        if not set(j) <= {'update', 'set', 'where'}:
            raise Unreadable('an update: %r' % sorted(j))
        return S('update') + name(j['update']) + many([S('set') + name(c) + expr(v) for c, v in j['set'].items()]) + clause(j, 'where')
    if 'delete' in j:
        if not set(j) <= {'delete', 'where'}:
            raise Unreadable('a delete: %r' % sorted(j))
        return S('delete') + name(j['delete']) + clause(j, 'where')
    if 'drop' in j:
        d = j['drop']
        if set(j) != {'drop'} or not set(d) <= {'table', 'if_exists'}:
            raise Unreadable('a drop: %r' % (j,))
        return S('dropif' if d.get('if_exists') else 'drop') + name(d['table'])
    return query(j)


def projected(j):
    try:
        return statement(j)
    except (Unreadable, KeyError, TypeError, ValueError, AttributeError, IndexError) as e:
        return [['unreadable', '%s: %s' % (type(e).__name__, str(e)[:200])]]


# ---------------------------------------------------------------------------------------------------------------
# the tokens of formatted text

TOKEN = re.compile(r'''\s+ | (?P<num>(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?) | (?P<word>[^\W\d][\w$]*) | `(?P<quoted>(?:[^`]|``)*)` | '(?P<str>(?:[^'\\]|''|\\.)*)'
                       | (?P<sym><=|>=|<>|!=|\|\||[(),.=<>+\-*/%&|~])''', re.X | re.S)
ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', 'b': '\b', 'Z': '\x1a'}


def unquote(s):
    return re.sub(r"\\(.)|''", lambda m: "'" if m.group(0) == "''" else ESC.get(m.group(1), m.group(1)), s, flags=re.S)


def lex(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith(('--', '/*', '#'), i):
            return [['comment', '']]
        m = TOKEN.match(s, i)
        if not m:
            return [['garbage', s[i:i + 20]]]
        i = m.end()
        if m.group('num'):
            out.append(['num', number(m.group('num'))])
        elif m.group('word'):
            w = m.group('word')
            call = s[i:i + 1] == '(' and w.lower() in FUNCS
            if call:
                out.append(['name', w.lower()])
            elif w.lower() in KEYWORDS:
                out.append([w.lower(), ''])
            elif w.lower() in RESERVED:
                out.append(['reserved', w])
            else:
                out.append(['name', w])
        elif m.group('quoted') is not None:
            out.append(['name', m.group('quoted').replace('``', '`')])
        elif m.group('str') is not None:
            out.append(['str', unquote(m.group('str'))])
        elif m.group('sym'):
            out.append([m.group('sym'), ''])
    return out


def record(tid, p, toks, seed):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from sql_parsing import parse_mysql, format as fmt
    rnd = random.Random('%d/%d' % (tid, seed))
    vals = choose(rnd, p)
    want = []
    for i, s in enumerate(p):
        v = vals.get(i + 1, '')
        want.append(['name' if s == 'fn' else s, number(v) if s == 'num' else v])
    texts = [text(rnd, p, toks, vals, True), text(rnd, p, toks, vals)]
    trees, err = [], ''
    for t in texts:
        try:
            j = parse_mysql(t)
            trees.append(projected(j))
        except Exception as e:                  # noqa: BLE001
            trees.append([['rejected', '%s: %s' % (type(e).__name__, str(e)[:160])]])
            j = None
    shown, toks2, again = '', [], []
    if j is not None:
        before = json.dumps(j)
        try:
            shown = fmt(j, ansi_quotes=False)
            toks2 = lex(shown)
            if json.dumps(j) != before:
                toks2 = [['tree changed', '']]
        except Exception as e:                  # noqa: BLE001
            toks2 = [['exception', '%s: %s' % (type(e).__name__, str(e)[:160])]]
        else:
            try:
                again = projected(parse_mysql(shown))
            except Exception as e:              # noqa: BLE001
                again = [['rejected', '%s: %s' % (type(e).__name__, str(e)[:160])]]
    return {'id': tid, 'p': want, 'trees': trees, 'toks': toks2, 'again': again}, {'texts': texts, 'formatted': shown}
