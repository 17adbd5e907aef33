"""Statements derived by SqlGen.tla, with values for their names that follow what the names stand for, and what the
analyser of the code under test says of their texts."""
import logging
import os
import random
import sys

import sqltext
from sqltext import ODD, STRINGS, NUMBERS, FUNCS

REPO = os.environ.get('VERIF_REPO', '/repo')
TABLES = ['orders', 'Users', 'log_2020', 't', 't1', 'T2', 'order_items', 'camelTable', '_tmp', 'customers', 'p9']
ALIASES = ['o', 'u', 'x', 'tt', 'Al', 'src', 's1', 'q']
COLUMNS = ['a', 'b', 'c', 'x1', 'user_id', 'Name', 'amount', 'long_column_name_2', 'camelCase', '_y', 'v9', 'ID', 'price', 'qty']
ITEMS = ['total', 'res', 'n1', 'Outcome', 'label', 'val_2']
CTES = ['w', 'recent', 'cte_1', 'Best']
PARTS = {'insert', 'insertq', 'replace', 'replaceq', 'update', 'delete', 'drop', 'dropif', 'create', 'createif', 'addcol', 'dropcol', 'table', 'tableas'}


def arities():
    import re
    s = open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'Sql.tla')).read()
    return {k: int(v) for k, v in re.findall(r'(\w+) \|-> (\d+)', s[s.index('Arities'):s.index('Node(o, a)')])}


AR = arities()


def parents(p, chains=None):
    """for every symbol: (parent symbol, which child it is); chains: the same for all that are above it, with their places"""
    out, stack = [], []
    for i, s in enumerate(p):
        while stack and stack[-1][1] == stack[-1][2]:
            stack.pop()
        if chains is not None:
            chains.append([(x[0], x[1], x[3]) for x in stack])
        if stack:
            out.append((stack[-1][0], stack[-1][1]))
            stack[-1][1] += 1
        else:
            out.append(('', 0))
        stack.append([s, 0, AR['name' if s == 'fn' else s], i])
    return out


def choose(rnd, p):
    vals, chains = {}, []
    par = parents(p, chains)
    odd = rnd.choice([0, 0, 0, .15])
    ctes, tables, qualifiers, taken, items = [], [], [], [], []
    given = {}                  # place of a select -> the aliases of its items

    def pick(pool, fresh=()):
        v = rnd.choice(pool)
        while v in fresh:
            v += rnd.choice('abcxyz')
        return v

    def column():
        return rnd.choice(ODD_COLUMNS) if rnd.random() < odd else pick(COLUMNS)
    for i, s in enumerate(p):
        if s == 'name' and par[i] == ('cte', 0):
            vals[i + 1] = pick(CTES, ctes)
            ctes.append(vals[i + 1])
    for i, s in enumerate(p):
        if s == 'name' and par[i][0] in PARTS and par[i][1] == 0:
            vals[i + 1] = rnd.choice(ctes) if ctes and par[i][0] in ('table', 'tableas') and rnd.random() < .5 else rnd.choice(ODD_TABLES) if rnd.random() < odd else pick(TABLES)
            tables.append(vals[i + 1])
        elif s == 'name' and par[i] in (('tableas', 1), ('derived', 1)):
            vals[i + 1] = pick(ALIASES, taken)
            taken.append(vals[i + 1])
            if par[i][0] == 'tableas' and tables[-1] not in ctes:
                qualifiers.append(vals[i + 1])
        elif s == 'name' and par[i] == ('as', 1):
            vals[i + 1] = pick(ITEMS, items)
            items.append(vals[i + 1])
            given.setdefault([x for x in chains[i] if x[0] == 'select'][-1][2], []).append(vals[i + 1])
    used, columns = set(), None
    for i, s in enumerate(p):
        if i + 1 in vals:
            continue
        if s in ('insert', 'insertq', 'replace', 'replaceq', 'create', 'createif'):
            columns = set()
        elif s == 'nil':
            columns = None
        if s == 'fn':
            v = rnd.choice(FUNCS)
        elif s == 'num':
            v = rnd.choice(['0', '1', '7', '100'] if par[i][0] in ('limit', 'limitoff', 'limitcomma', 'varchar', 'decimal') else NUMBERS)
        elif s == 'str':
            v = rnd.choice(STRINGS)
        elif s != 'name':
            continue
        elif par[i][0] in ('qcol', 'qstar') and par[i][1] == 0:
            v = rnd.choice(qualifiers + [t for t in tables if t not in ctes] or TABLES[:1])
        elif par[i][0] == 'set' and par[i][1] == 0:
            v = pick(COLUMNS, used)
            used.add(v)
        elif columns is not None and par[i][0] in ('cons', 'coldef'):
            v = pick(COLUMNS, columns)
            columns.add(v)
        else:
            v = column()
            around = [x for x in chains[i] if x[0] in ('select', 'subq', 'exists', 'inq', 'notinq')]
            if par[i][0] not in ('qcol', 'joinusing') and around and around[-1][0] == 'select' and around[-1][1] in (6, 7) and given.get(around[-1][2]) and rnd.random() < .4:
                v = rnd.choice(given[around[-1][2]])          # HAVING and ORDER BY see the aliases
        vals[i + 1] = v
    return vals


ODD_COLUMNS = ['a b', 'select', 'order', 'x-y', 'from', 'ÄÖ', 'limit', '中文', 'and', 'null', 'Group', 'by', 'Case', 'union', 'table', 'é']
ODD_TABLES = ['my table', 'select', 'x-y', 'from', '表', 'Group', 'join', 'é']


def analyse(text):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from scheduler.compile.parser import Parser
    logging.disable(logging.CRITICAL)
    out = {'kind': '', 'refused': False, 'tables': [], 'columns': [], 'error': ''}
    try:
        k = Parser(text).query_type
        out['kind'] = str(getattr(k, 'value', k))
    except ValueError as e:
        out['kind'] = 'unsupported'
        out['error'] = str(e)
    except Exception as e:                      # noqa: BLE001
        out['kind'] = 'exception'
        out['error'] = '%s: %s' % (type(e).__name__, e)
    errs = []
    for part in ('tables', 'columns'):
        try:
            out[part] = [str(x) for x in getattr(Parser(text), part)]
        except Exception as e:                  # noqa: BLE001
            out[part] = ['!' + type(e).__name__]
            errs.append(isinstance(e, ValueError))
            out['error'] = '%s: %s' % (type(e).__name__, e)
    out['refused'] = errs == [True, True]
    return out


def record(tid, p, toks, seed):
    rnd = random.Random('%d/%d' % (tid, seed))
    vals = choose(rnd, p)
    want = [['name' if s == 'fn' else s, vals.get(i + 1, '')] for i, s in enumerate(p)]
    bare = {v for v in vals.values() if v.isascii() and v.isidentifier() and v not in ODD_COLUMNS and v not in ODD_TABLES}
    texts = [sqltext.text(rnd, p, toks, vals, True, "'", bare), sqltext.text(rnd, p, toks, vals, False, "'", bare)]
    said = [analyse(t) for t in texts]
    # strings in double quotes: the analyser takes them for names, only the kind of the statement does not depend on it
    texts.append(sqltext.text(rnd, p, toks, vals, False, '"', bare))
    kind = analyse(texts[2])['kind']
    if kind != said[1]['kind']:
        said[1] = dict(said[1], kind=kind)
    return {'id': tid, 'p': want, 'said': said}, {'texts': texts}
