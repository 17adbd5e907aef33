"""What the backend gets to see: the statements sent to it, abstracted to names and literals in their positions."""
import re

import mysqlsim


def number_forms(v):
    """a protected number and its order code"""
    out = {repr(v), str(v)}
    if isinstance(v, int):
        out.add(str(v))
    else:
        out.add(str(round(v * 10 ** 12)))
        out.add(('%.12f' % v).rstrip('0').rstrip('.'))
        if v == int(v):
            out.add(str(int(v)))
    return out


class Watch:
    """secrets: values written to or compared with encrypted columns; names: tables and encrypted columns of the client"""
    def __init__(self):
        self.words, self.numbers, self.names, self.exact = set(), set(), set(), set()

    def value(self, v):
        if v is None:
            return
        if isinstance(v, str):
            self.exact.add(v)
            if len(v) >= 6:
                self.words.add(v)
            return
        self.exact |= number_forms(v)
        if abs(v) >= 1000 or (isinstance(v, float) and v != round(v, 2)):
            self.numbers |= {x.lstrip('-') for x in number_forms(v)}

    def name(self, n):
        self.names.add(n.lower())

    def observe(self, sqls, phys):
        """phys: physical column -> companion.  Returns the distinct sightings of all statements."""
        seen = set()
        for sql in sqls:
            low = sql.lower()
            for n in self.names:
                if re.search(r'(?<![a-z0-9_$])%s(?![a-z0-9_$])' % re.escape(n), low):
                    seen.add(('name', 'none', 'logical'))
            for w in self.words:
                if w in sql or w.lower() in low:
                    seen.add(('literal', 'none', 'clear'))
            try:
                toks = mysqlsim.tokenize(sql)
            except Exception:                       # noqa: BLE001
                continue
            seen |= self.literals(toks, phys)
        return sorted(seen)

    def literals(self, toks, phys):
        seen = set()
        kinds = [t[0] for t in toks]
        ddl = str(toks[0][1]).lower() in ('create', 'alter')
        # columns of an INSERT
        cols = None
        if toks[0][0] == 'id' and toks[0][1].lower() in ('insert', 'replace'):
            cols, depth, j = [], 0, 0
            while j < len(toks) and not (toks[j][0] == 'id' and str(toks[j][1]).lower() in ('values', 'value', 'select')):
                if toks[j] == ('op', '(') or toks[j][1] == '(':
                    depth += 1
                elif toks[j][1] == ')':
                    depth -= 1
                elif depth == 1 and kinds[j] in ('id', 'qid'):
                    cols.append(str(toks[j][1]).lower())
                j += 1
            start = j
        col, pos, depth, k = None, 'none', 0, 0
        for j, (kind, v) in enumerate(toks):
            if kind in ('id', 'qid') and str(v).lower() in phys:
                col = phys[str(v).lower()]
            elif kind == 'id' and str(v).lower() in ('and', 'or', 'where', 'limit', 'order', 'set', 'from', 'select'):
                col = None
            elif v == ',' and kind not in ('str', 'num'):
                if cols is not None and j > start and depth == 1:
                    k += 1
                else:
                    col = None
            elif v == '(' and kind not in ('str',):
                depth += 1
                if cols is not None and j > start and depth == 1:
                    k = 0
            elif v == ')' and kind not in ('str',):
                depth -= 1
            elif kind in ('str', 'num'):
                where = col or 'none'
                if cols is not None and j > start:
                    where = phys.get(cols[k], 'plain') if k < len(cols) else 'none'
                s = str(v)
                if kind == 'num' and not isinstance(v, int):
                    s = s.rstrip('0').rstrip('.') if '.' in s and 'e' not in s else s
                    cls = 'number' if s in self.numbers or s + '.0' in self.numbers else 'opaque'
                else:
                    cls = 'number' if s.lstrip('-') in self.numbers else 'opaque'
                # in a ciphertext column no literal may be a value itself, however short (the empty text has no cipher)
                # (a number in a definition is the length of a column)
                if where in ('symmetric', 'fuzzy', 'sm4', 'arithmetic') and v != '' and str(v) in self.exact \
                        and not (ddl and kind == 'num'):
                    cls = 'clear'
                seen.add(('literal', where, cls))
        return seen


def physical(cat):
    """{physical column: companion} of the whole catalog of a database"""
    out = {}
    for _, (_, cols) in cat.items():
        for name, info in cols.items():
            if info.get('plaintext'):
                continue
            for comp, p in info.get('enc-cols', {}).items():
                out[p.lower()] = comp
    return out
