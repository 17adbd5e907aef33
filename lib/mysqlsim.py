"""An in-memory MySQL stand-in used as the backend of the system under test.

It is written from the MySQL manual, not from the repository: it has its own
tokenizer, parser, type system (strict mode), transactions (autocommit off,
snapshot reads, one writer per table set at a time), user variables, primary /
foreign keys and a mysql.connector-like DB-API surface.  Everything that reaches it is logged, and faults
can be injected at every call.

Deviations from a real server, chosen on purpose:
  * string comparison is binary (utf8mb4_bin);
  * rows without ORDER BY come back in an order chosen by `Server.shuffle`
    (insertion order when None) - SQL promises none.
"""
import re
import random
import datetime
from decimal import Context, Decimal, localcontext, ROUND_HALF_UP
import _thread

import mysql.connector
from mysql.connector import errors as E

# only while the server computes: the code under test keeps its own context
PRECISE = Context(prec=200)


def err(cls, no, msg):
    return cls(errno=no, msg=msg)


def syntax(msg):
    return err(E.ProgrammingError, 1064, "You have an error in your SQL syntax; " + msg)


# --------------------------------------------------------------------------
# Tokenizer
TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)
  | (?P<str>'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*")
  | (?P<bq>`(?:[^`]|``)*`)
  | (?P<sysvar>@@[A-Za-z_.]+)
  | (?P<var>@[A-Za-z0-9_.$]+)
  | (?P<id>[A-Za-z_$\u0080-\uffff][A-Za-z0-9_$\u0080-\uffff]*)
  | (?P<op>:=|<=>|<>|!=|<=|>=|\|\||&&|[-+*/%=<>(),.;!])
""", re.X | re.S)

ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', 'b': '\b', 'Z': '\x1a'}


def unquote(s):
    q, s = s[0], s[1:-1]
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            n = s[i + 1]
            if n in '%_':
                out.append('\\' + n)
            else:
                out.append(ESC.get(n, n))
            i += 2
        elif c == q:
            out.append(q)
            i += 2
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def tokenize(sql):
    toks, i = [], 0
    while i < len(sql):
        m = TOKEN.match(sql, i)
        if not m:
            raise syntax("near %r" % sql[i:i + 20])
        i = m.end()
        k = m.lastgroup
        t = m.group()
        if k == 'ws':
            continue
        if k == 'str':
            toks.append(('str', unquote(t)))
        elif k == 'bq':
            toks.append(('qid', t[1:-1].replace('``', '`')))
        elif k == 'var':
            toks.append(('var', t[1:].lower()))
        elif k == 'num':
            if re.fullmatch(r'\d+', t):
                toks.append(('num', int(t)))
            elif 'e' in t.lower():
                toks.append(('num', float(t)))
            else:
                toks.append(('num', Decimal(t)))
        elif k == 'id':
            toks.append(('id', t))
        else:
            toks.append((k, t))
    toks.append(('end', None))
    return toks


RESERVED = {'select', 'from', 'where', 'group', 'order', 'by', 'limit', 'offset', 'and', 'or', 'not', 'in', 'is', 'null',
            'like', 'between', 'join', 'inner', 'left', 'right', 'on', 'as', 'set', 'values', 'into', 'union', 'having',
            'desc', 'asc', 'distinct', 'cross', 'outer', 'create', 'table', 'insert', 'update', 'delete', 'drop',
            'alter', 'primary', 'foreign', 'key', 'references', 'constraint', 'exists', 'if', 'case', 'when', 'then',
            'else', 'end', 'using', 'natural', 'straight_join'}


# --------------------------------------------------------------------------
# Values
def to_num(v):
    """MySQL numeric coercion of a value in a numeric context."""
    if v is None or isinstance(v, (int, float, Decimal)):
        return v
    if isinstance(v, datetime.datetime):
        return int(v.strftime('%Y%m%d%H%M%S'))
    m = re.match(r'\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?', str(v))
    if not m:
        return 0.0
    t = m.group().strip()
    if re.fullmatch(r'[-+]?\d+', t):
        return int(t)
    return float(t)


def as_exact(v):
    if isinstance(v, float):
        return Decimal(repr(v))
    return v


def cmp_values(a, b):
    """-1/0/1 or None (NULL)."""
    if a is None or b is None:
        return None
    if isinstance(a, datetime.datetime) and isinstance(b, str):
        a = a.strftime('%Y-%m-%d %H:%M:%S')
    if isinstance(b, datetime.datetime) and isinstance(a, str):
        b = b.strftime('%Y-%m-%d %H:%M:%S')
    if isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    if isinstance(a, datetime.datetime) and isinstance(b, datetime.datetime):
        return (a > b) - (a < b)
    a, b = to_num(a), to_num(b)
    if isinstance(a, float) or isinstance(b, float):
        a, b = (float(a), float(b)) if not (isinstance(a, Decimal) or isinstance(b, Decimal)) \
            else (as_exact(a), as_exact(b))
    return (a > b) - (a < b)


def truth(v):
    if v is None:
        return None
    return to_num(v) != 0


def like_re(pat, esc='\\'):
    out, i = [], 0
    while i < len(pat):
        c = pat[i]
        if c == esc and i + 1 < len(pat):
            out.append(re.escape(pat[i + 1]))
            i += 2
            continue
        if c == '%':
            out.append('.*')
        elif c == '_':
            out.append('.')
        else:
            out.append(re.escape(c))
        i += 1
    return re.compile(''.join(out), re.S)


INT_RANGE = {'tinyint': 8, 'smallint': 16, 'mediumint': 24, 'int': 32, 'integer': 32, 'bigint': 64}


class Col:
    __slots__ = ('name', 'type', 'args', 'notnull', 'default', 'autoinc', 'unsigned')

    def __init__(self, name, type_, args):
        self.name, self.type, self.args = name, type_.lower(), args
        self.notnull = False
        self.default = None
        self.autoinc = False
        self.unsigned = False

    def store(self, v):
        """Strict-mode conversion for storage."""
        if v is None:
            if self.notnull:
                raise err(E.IntegrityError, 1048, "Column '%s' cannot be null" % self.name)
            return None
        t = self.type
        if t in INT_RANGE:
            if isinstance(v, str):
                if not re.fullmatch(r'\s*[-+]?\d+(\.\d*)?([eE][-+]?\d+)?\s*', v):
                    raise err(E.DatabaseError, 1366, "Incorrect integer value: '%s' for column '%s'" % (v, self.name))
                v = Decimal(v.strip())
            if isinstance(v, float):
                v = Decimal(repr(v))
            v = int(Decimal(v).to_integral_value(rounding=ROUND_HALF_UP))
            bits = INT_RANGE[t]
            lo, hi = (0, 2 ** bits - 1) if self.unsigned else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
            if not lo <= v <= hi:
                raise err(E.DataError, 1264, "Out of range value for column '%s'" % self.name)
            return v
        if t in ('decimal', 'numeric', 'dec'):
            p, s = (self.args + [10, 0])[:2] if len(self.args) >= 2 else (self.args[0] if self.args else 10, 0)
            if isinstance(v, str):
                if not re.fullmatch(r'\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?\s*', v):
                    raise err(E.DatabaseError, 1366, "Incorrect decimal value: '%s' for column '%s'" % (v, self.name))
                v = Decimal(v.strip())
            if isinstance(v, float):
                v = Decimal(repr(v))
            v = Decimal(v).quantize(Decimal(1).scaleb(-s), rounding=ROUND_HALF_UP)
            if abs(v) >= Decimal(10) ** (p - s):
                raise err(E.DataError, 1264, "Out of range value for column '%s'" % self.name)
            return v
        if t in ('float', 'double', 'real'):
            if isinstance(v, str):
                if not re.fullmatch(r'\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?\s*', v):
                    raise err(E.DatabaseError, 1265, "Data truncated for column '%s'" % self.name)
            return float(v)
        if t in ('varchar', 'char'):
            n = self.args[0] if self.args else (1 if t == 'char' else 255)
            s = fmt(v)
            if len(s) > n:
                raise err(E.DataError, 1406, "Data too long for column '%s'" % self.name)
            return s.rstrip(' ') if t == 'char' else s
        if t in ('text', 'longtext', 'mediumtext', 'tinytext', 'json', 'blob'):
            return fmt(v)
        if t in ('datetime', 'timestamp'):
            if isinstance(v, datetime.datetime):
                return v
            try:
                s = str(v)
                return datetime.datetime.strptime(s, '%Y-%m-%d %H:%M:%S' if len(s) > 10 else '%Y-%m-%d')
            except ValueError:
                raise err(E.DatabaseError, 1292, "Incorrect datetime value: '%s'" % v)
        if t == 'date':
            return str(v)
        raise syntax("unknown type %s" % t)


def fmt(v):
    """value -> MySQL text"""
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, float):
        return repr(v)[:-2] if repr(v).endswith('.0') else repr(v)
    if isinstance(v, Decimal):
        return format(v, 'f')
    return str(v)


class Table:
    def __init__(self, name):
        self.name = name
        self.cols = []
        self.pk = []
        self.uniques = []     # (name, cols)
        self.indexes = []     # names of those that are not unique
        self.fks = []         # (name, cols, reftable, refcols)
        self.rows = []        # list of tuples, immutable rows
        self.auto = 1

    def copy(self):
        t = Table(self.name)
        t.cols, t.pk, t.uniques, t.fks = self.cols, self.pk, self.uniques, self.fks
        t.rows, t.auto, t.indexes = list(self.rows), self.auto, self.indexes
        return t

    def idx(self, c):
        for i, col in enumerate(self.cols):
            if col.name.lower() == c.lower():
                return i
        return None


class Database:
    def __init__(self, name):
        self.name = name
        self.tables = {}
        self.writer = None    # connection holding the write lock


# --------------------------------------------------------------------------
# Parser / evaluator
class P:
    def __init__(self, sql):
        self.sql = sql
        self.t = tokenize(sql)
        self.i = 0

    # -- helpers
    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def kw(self, *words):
        for k, w in enumerate(words):
            ty, v = self.peek(k)
            if ty != 'id' or v.lower() != w:
                return False
        self.i += len(words)
        return True

    def is_kw(self, *words):
        ty, v = self.peek()
        return ty == 'id' and v.lower() in words

    def need_kw(self, *words):
        if not self.kw(*words):
            raise syntax("near %r in %r" % (self.peek()[1], self.sql[:200]))

    def op(self, o):
        if self.peek() == ('op', o):
            self.i += 1
            return True
        return False

    def need(self, o):
        if not self.op(o):
            raise syntax("expected %s near %r in %r" % (o, self.peek()[1], self.sql[:200]))

    def ident(self):
        ty, v = self.peek()
        if ty == 'qid' or (ty == 'id' and v.lower() not in RESERVED):
            self.i += 1
            return v
        raise syntax("identifier expected near %r in %r" % (v, self.sql[:200]))

    def end(self):
        self.op(';')
        if self.peek()[0] != 'end':
            raise syntax("near %r in %r" % (self.peek()[1], self.sql[:300]))

    # -- expressions
    def expr(self):
        ty, v = self.peek()
        if ty == 'var' and self.peek(1) == ('op', ':='):
            self.i += 2
            return ('assign', v, self.expr())
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.kw('or') or self.op('||'):
            a = ('or', a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.kw('and') or self.op('&&'):
            a = ('and', a, self.not_())
        return a

    def not_(self):
        if self.kw('not') or self.op('!'):
            return ('not', self.not_())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while True:
            if self.kw('is'):
                neg = self.kw('not')
                self.need_kw('null')
                a = ('isnull', a)
                if neg:
                    a = ('not', a)
                continue
            neg = False
            save = self.i
            if self.kw('not'):
                neg = True
            if self.kw('like'):
                a = ('like', a, self.add())
            elif self.kw('between'):
                lo = self.add()
                self.need_kw('and')
                a = ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, self.add()))
            elif self.kw('in'):
                self.need('(')
                if self.is_kw('select'):
                    a = ('insub', a, self.select())
                else:
                    items = [self.expr()]
                    while self.op(','):
                        items.append(self.expr())
                    a = ('in', a, items)
                self.need(')')
            else:
                self.i = save
                for o in ('<=>', '<>', '!=', '<=', '>=', '=', '<', '>'):
                    if self.op(o):
                        a = ('cmp', {'!=': '<>'}.get(o, o), a, self.add())
                        break
                else:
                    return a
                continue
            if neg:
                a = ('not', a)

    def add(self):
        a = self.mul()
        while True:
            if self.op('+'):
                a = ('arith', '+', a, self.mul())
            elif self.op('-'):
                a = ('arith', '-', a, self.mul())
            else:
                return a

    def mul(self):
        a = self.unary()
        while True:
            if self.op('*'):
                a = ('arith', '*', a, self.unary())
            elif self.op('/'):
                a = ('arith', '/', a, self.unary())
            elif self.op('%') or self.kw('mod'):
                a = ('arith', '%', a, self.unary())
            else:
                return a

    def unary(self):
        if self.op('-'):
            return ('neg', self.unary())
        if self.op('+'):
            return self.unary()
        return self.prim()

    AGG = {'count', 'sum', 'avg', 'max', 'min', 'group_concat'}

    def prim(self):
        ty, v = self.peek()
        if ty == 'num' or ty == 'str':
            self.i += 1
            return ('lit', v)
        if ty == 'var':
            self.i += 1
            if self.op(':='):
                return ('assign', v, self.expr())
            return ('var', v)
        if ty == 'sysvar':
            self.i += 1
            return ('lit', 'sim')
        if self.op('('):
            if self.is_kw('select'):
                s = self.select()
                self.need(')')
                return ('scalar', s)
            e = self.expr()
            self.need(')')
            return e
        if ty == 'id' and v.lower() == 'null':
            self.i += 1
            return ('lit', None)
        if ty == 'id' and v.lower() in ('true', 'false'):
            self.i += 1
            return ('lit', int(v.lower() == 'true'))
        if ty in ('id', 'qid'):
            if ty == 'id' and self.peek(1) == ('op', '('):
                f = v.lower()
                self.i += 2
                if f in self.AGG:
                    if f == 'count' and self.op('*'):
                        self.need(')')
                        return ('agg', 'count*', None, False)
                    dis = self.kw('distinct')
                    e = self.expr()
                    self.need(')')
                    return ('agg', f, e, dis)
                args = []
                if not self.op(')'):
                    args.append(self.expr())
                    while self.op(','):
                        args.append(self.expr())
                    self.need(')')
                return ('func', f, args)
            a = self.ident()
            if self.op('.'):
                if self.op('*'):
                    return ('star', a)
                return ('col', a, self.ident())
            return ('col', None, a)
        raise syntax("near %r in %r" % (v, self.sql[:300]))

    # -- select
    def select(self):
        self.need_kw('select')
        q = {'distinct': self.kw('distinct'), 'items': [], 'from': [], 'where': None, 'group': [], 'having': None,
             'order': [], 'limit': None, 'offset': 0}
        while True:
            if self.op('*'):
                q['items'].append((('star', None), None))
            else:
                e = self.expr()
                alias = None
                if self.kw('as'):
                    ty, v = self.peek()
                    if ty == 'str':
                        self.i += 1
                        alias = v
                    else:
                        alias = self.ident()
                elif self.peek()[0] == 'qid' or (self.peek()[0] == 'id' and self.peek()[1].lower() not in RESERVED):
                    alias = self.ident()
                q['items'].append((e, alias))
            if not self.op(','):
                break
        if self.kw('from'):
            q['from'].append(('base', self.tref()))
            while True:
                if self.op(','):
                    q['from'].append(('cross', self.tref(), None))
                    continue
                kind = None
                if self.kw('inner', 'join') or self.kw('join') or self.kw('cross', 'join'):
                    kind = 'inner'
                elif self.kw('left', 'outer', 'join') or self.kw('left', 'join'):
                    kind = 'left'
                elif self.kw('right', 'outer', 'join') or self.kw('right', 'join'):
                    kind = 'right'
                if not kind:
                    break
                t = self.tref()
                on = None
                if self.kw('on'):
                    on = self.expr()
                q['from'].append((kind, t, on))
        if self.kw('where'):
            q['where'] = self.expr()
        if self.kw('group', 'by'):
            q['group'].append(self.expr())
            while self.op(','):
                q['group'].append(self.expr())
        if self.kw('having'):
            q['having'] = self.expr()
        if self.kw('order', 'by'):
            while True:
                e = self.expr()
                d = 1
                if self.kw('desc'):
                    d = -1
                else:
                    self.kw('asc')
                q['order'].append((e, d))
                if not self.op(','):
                    break
        if self.kw('limit'):
            n = self.peek()
            self.i += 1
            if n[0] != 'num' or not isinstance(n[1], int):
                raise syntax("limit near %r in %r" % (n[1], self.sql[:200]))
            q['limit'] = n[1]
            if self.op(','):
                q['offset'] = q['limit']
                q['limit'] = self.peek()[1]
                self.i += 1
            elif self.kw('offset'):
                q['offset'] = self.peek()[1]
                self.i += 1
        return q

    def tref(self):
        if self.op('('):
            s = self.select()
            self.need(')')
            self.kw('as')
            if self.peek()[0] not in ('id', 'qid'):
                raise err(E.ProgrammingError, 1248, "Every derived table must have its own alias")
            return ('sub', s, self.ident())
        n = self.ident()
        if self.op('.'):
            n = n + '.' + self.ident()
        alias = None
        if self.kw('as'):
            alias = self.ident()
        elif self.peek()[0] == 'qid' or (self.peek()[0] == 'id' and self.peek()[1].lower() not in RESERVED):
            alias = self.ident()
        return ('table', n, alias)


class Result:
    def __init__(self, names=None, rows=None, rowcount=0):
        self.names, self.rows, self.rowcount = names, rows, rowcount


def has_agg(e):
    if not isinstance(e, tuple):
        if isinstance(e, list):
            return any(has_agg(x) for x in e)
        return False
    if e[0] == 'agg':
        return True
    if e[0] in ('scalar', 'insub'):
        return e[0] == 'insub' and has_agg(e[1])
    return any(has_agg(x) for x in e[1:])


class Exec:
    """Executes parsed statements for a session against a table view."""

    def __init__(self, sess):
        self.s = sess

    def bad_col(self, name):
        return err(E.ProgrammingError, 1054, "Unknown column '%s' in 'field list'" % name)

    def lookup(self, scope, q, name):
        """scope: list of (alias, [colnames]) -> position"""
        pos, found = 0, []
        for alias, cols in scope:
            for c in cols:
                if c.lower() == name.lower() and (q is None or alias == q):
                    found.append(pos)
                pos += 1
        if not found:
            raise self.bad_col((q + '.' if q else '') + name)
        if len(found) > 1:
            raise err(E.IntegrityError, 1052, "Column '%s' in field list is ambiguous" % name)
        return found[0]

    def ev(self, e, scope, row, group=None):
        k = e[0]
        if k == 'lit':
            return e[1]
        if k == 'col':
            i = self.lookup(scope, e[1], e[2])
            if row is None:
                return None
            return row[i]
        if k == 'var':
            return self.s.vars.get(e[1])
        if k == 'assign':
            v = self.ev(e[2], scope, row, group)
            self.s.vars[e[1]] = v
            return v
        if k == 'agg':
            if group is None:
                raise err(E.DatabaseError, 1111, "Invalid use of group function")
            if e[1] == 'count*':
                return len(group)
            vals = [self.ev(e[2], scope, r) for r in group]
            vals = [v for v in vals if v is not None]
            if e[3]:
                vals = list(dict.fromkeys(vals))
            if e[1] == 'count':
                return len(vals)
            if not vals:
                return None
            if e[1] == 'group_concat':
                return ','.join(fmt(v) for v in vals)
            if e[1] in ('max', 'min'):
                best = vals[0]
                for v in vals[1:]:
                    c = cmp_values(v, best)
                    if (c > 0) == (e[1] == 'max') and c != 0:
                        best = v
                return best
            nums = [to_num(v) for v in vals]
            if any(isinstance(n, float) for n in nums):
                tot = sum(float(n) for n in nums)
            else:
                tot = sum(Decimal(n) for n in nums)
            if e[1] == 'sum':
                return tot
            if isinstance(tot, float):
                return tot / len(nums)
            return (tot / len(nums)).quantize(Decimal('0.0001'), rounding=ROUND_HALF_UP)
        if k in ('and', 'or'):
            a = truth(self.ev(e[1], scope, row, group))
            if k == 'and' and a is False:
                self.check(e[2], scope)
                return 0
            if k == 'or' and a is True:
                self.check(e[2], scope)
                return 1
            b = truth(self.ev(e[2], scope, row, group))
            if k == 'and':
                return 0 if b is False else (None if a is None or b is None else 1)
            return 1 if b is True else (None if a is None or b is None else 0)
        if k == 'not':
            a = truth(self.ev(e[1], scope, row, group))
            return None if a is None else int(not a)
        if k == 'isnull':
            return int(self.ev(e[1], scope, row, group) is None)
        if k == 'neg':
            a = to_num(self.ev(e[1], scope, row, group))
            return None if a is None else -a
        if k == 'arith':
            a = to_num(self.ev(e[2], scope, row, group))
            b = to_num(self.ev(e[3], scope, row, group))
            if a is None or b is None:
                return None
            if isinstance(a, float) or isinstance(b, float):
                a, b = float(a), float(b)
            if e[1] == '+':
                return a + b
            if e[1] == '-':
                return a - b
            if e[1] == '*':
                if isinstance(a, int) and isinstance(b, int) and not -2 ** 63 <= a * b < 2 ** 64:
                    raise err(E.DataError, 1690, "BIGINT value is out of range")
                return a * b
            if b == 0:
                return None
            if e[1] == '/':
                return Decimal(a) / Decimal(b) if not isinstance(a, float) else a / b
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        if k == 'cmp':
            a = self.ev(e[2], scope, row, group)
            b = self.ev(e[3], scope, row, group)
            if self.s.key[2] == 'eulerdb_schema':
                # a catalog with MySQL's default collation
                a, b = (x.casefold() if isinstance(x, str) else x for x in (a, b))
            c = cmp_values(a, b)
            if e[1] == '<=>':
                return int((a is None and b is None) or c == 0)
            if c is None:
                return None
            return int({'=': c == 0, '<>': c != 0, '<': c < 0, '>': c > 0, '<=': c <= 0, '>=': c >= 0}[e[1]])
        if k == 'like':
            a = self.ev(e[1], scope, row, group)
            b = self.ev(e[2], scope, row, group)
            if a is None or b is None:
                return None
            if self.s.key[2] == 'eulerdb_schema':
                return int(bool(like_re(fmt(b).casefold()).fullmatch(fmt(a).casefold())))
            return int(bool(like_re(fmt(b)).fullmatch(fmt(a))))
        if k == 'in':
            a = self.ev(e[1], scope, row, group)
            res = 0
            for x in e[2]:
                c = cmp_values(a, self.ev(x, scope, row, group))
                if c == 0:
                    return 1
                if c is None:
                    res = None
            return res
        if k == 'insub':
            a = self.ev(e[1], scope, row, group)
            r = self.select(e[2])
            res = 0
            for x in r.rows:
                c = cmp_values(a, x[0])
                if c == 0:
                    return 1
                if c is None:
                    res = None
            return res
        if k == 'scalar':
            r = self.select(e[1])
            if len(r.names) != 1:
                raise err(E.ProgrammingError, 1241, "Operand should contain 1 column(s)")
            if len(r.rows) > 1:
                raise err(E.DatabaseError, 1242, "Subquery returns more than 1 row")
            return r.rows[0][0] if r.rows else None
        if k == 'func':
            args = [self.ev(a, scope, row, group) for a in e[2]]
            f = e[1]
            if f == 'concat':
                return None if any(a is None for a in args) else ''.join(fmt(a) for a in args)
            if f == 'mod':
                return self.ev(('arith', '%', ('lit', args[0]), ('lit', args[1])), scope, row)
            if f in ('ifnull', 'coalesce'):
                for a in args:
                    if a is not None:
                        return a
                return None
            if f == 'if':
                return args[1] if truth(args[0]) else args[2]
            if f == 'nullif':
                return None if args[0] is not None and cmp_values(args[0], args[1]) == 0 else args[0]
            if f == 'isnull':
                return int(args[0] is None)
            if f in ('greatest', 'least'):
                if any(a is None for a in args):
                    return None
                r = args[0]
                for a in args[1:]:
                    if (cmp_values(a, r) > 0) == (f == 'greatest'):
                        r = a
                return r
            if f in ('char_length', 'character_length'):
                return None if args[0] is None else len(fmt(args[0]))
            if f == 'length':
                return None if args[0] is None else len(fmt(args[0]).encode())
            if f in ('lower', 'upper'):
                return None if args[0] is None else getattr(fmt(args[0]), f)()
            raise err(E.ProgrammingError, 1305, "FUNCTION %s does not exist" % f)
        raise syntax("cannot evaluate %r" % (e,))

    def check(self, e, scope):
        """resolve names even where evaluation short-circuits"""
        if isinstance(e, tuple):
            if e and e[0] == 'col':
                self.lookup(scope, e[1], e[2])
            elif e and e[0] in ('scalar', 'lit', 'var'):
                return
            else:
                for x in e[1:]:
                    self.check(x, scope)
        elif isinstance(e, list):
            for x in e:
                self.check(x, scope)

    def source(self, t):
        if t[0] == 'sub':
            r = self.select(t[1])
            if len(set(n.lower() for n in r.names)) != len(r.names):
                raise err(E.ProgrammingError, 1060, "Duplicate column name in derived table")
            return (t[2], r.names), list(r.rows)
        tab = self.s.read_table(t[1])
        rows = list(tab.rows)
        sh = self.s.server.shuffle
        # InnoDB returns a heap that is only appended to in insertion order: the catalog counts on it
        if sh is not None and t[1].split('.')[-1] != 'p_db_meta':
            sh.shuffle(rows)
        return (t[2] or t[1].split('.')[-1], [c.name for c in tab.cols]), rows

    def select(self, q):
        scope, rows = [], [()]
        for item in q['from']:
            if item[0] in ('base', 'cross', 'inner'):
                sc, rs = self.source(item[1])
                if sc[0] in [a for a, _ in scope]:
                    raise err(E.ProgrammingError, 1066, "Not unique table/alias: '%s'" % sc[0])
                scope = scope + [sc]
                rows = [a + b for a in rows for b in rs]
                if item[0] == 'inner' and item[2] is not None:
                    self.check(item[2], scope)
                    rows = [r for r in rows if truth(self.ev(item[2], scope, r))]
            else:
                sc, rs = self.source(item[1])
                if sc[0] in [a for a, _ in scope]:
                    raise err(E.ProgrammingError, 1066, "Not unique table/alias: '%s'" % sc[0])
                lw = sum(len(c) for _, c in scope)
                scope = scope + [sc]
                if item[2] is None:
                    raise syntax("outer join needs ON")
                self.check(item[2], scope)
                out = []
                if item[0] == 'left':
                    for a in rows:
                        m = [a + b for b in rs if truth(self.ev(item[2], scope, a + b))]
                        out.extend(m or [a + (None,) * len(sc[1])])
                else:
                    for b in rs:
                        m = [a + b for a in rows if truth(self.ev(item[2], scope, a + b))]
                        out.extend(m or [(None,) * lw + b])
                rows = out
        if q['where'] is not None:
            self.check(q['where'], scope)
            if has_agg(q['where']):
                raise err(E.DatabaseError, 1111, "Invalid use of group function")
            rows = [r for r in rows if truth(self.ev(q['where'], scope, r))]
        names, items = [], []
        for e, alias in q['items']:
            if e[0] == 'star':
                pos = 0
                hit = False
                if not scope:
                    raise err(E.ProgrammingError, 1096, "No tables used")
                for a, cols in scope:
                    for c in cols:
                        if e[1] is None or e[1] == a:
                            hit = True
                            names.append(c)
                            items.append(('col', a, c))
                        pos += 1
                if not hit:
                    raise err(E.ProgrammingError, 1051, "Unknown table '%s'" % e[1])
            else:
                names.append(alias or (e[2] if e[0] == 'col' else 'expr'))
                items.append(e)
        for e in items:
            self.check(e, scope)
        aliases = {a.lower(): items[i] for i, (e, a) in enumerate(q['items']) if a} \
            if not any(e[0] == 'star' for e, _ in q['items']) else {}

        def resolve_alias(e):
            if e[0] == 'col' and e[1] is None and e[2].lower() in aliases:
                return aliases[e[2].lower()]
            return e
        order = [(resolve_alias(e), d) for e, d in q['order']]
        for e, _ in order:
            self.check(e, scope)
        out = []      # (row, sort keys)
        grouped = q['group'] or any(has_agg(e) for e in items)
        if grouped:
            groups = {}
            if q['group']:
                for e in q['group']:
                    self.check(e, scope)
                for r in rows:
                    key = tuple(self.ev(e, scope, r) for e in q['group'])
                    groups.setdefault(key, []).append(r)
            else:
                groups[()] = rows
                for e in items:
                    if e[0] == 'col':
                        raise err(E.ProgrammingError, 1140, "Mixing of GROUP columns with no GROUP columns "
                                                            "(only_full_group_by)")
            for g in groups.values():
                first = g[0] if g else None
                if q['having'] is not None and not truth(self.ev(q['having'], scope, first, g)):
                    continue
                out.append((tuple(self.ev(e, scope, first, g) for e in items),
                            [self.ev(e, scope, first, g) for e, _ in order]))
        else:
            for r in rows:
                row = tuple(self.ev(e, scope, r) for e in items)
                out.append((row, [self.ev(e, scope, r) for e, _ in order]))
        if q['distinct']:
            seen, o2 = set(), []
            for row, k in out:
                if row not in seen:
                    seen.add(row)
                    o2.append((row, k))
            out = o2
        for i in range(len(order) - 1, -1, -1):
            import functools

            def c(a, b, i=i):
                x, y = a[1][i], b[1][i]
                if x is None or y is None:
                    return (x is not None) - (y is not None)
                return cmp_values(x, y)
            out.sort(key=functools.cmp_to_key(c), reverse=order[i][1] < 0)
        res = [r for r, _ in out]
        if q['limit'] is not None:
            res = res[q['offset']:q['offset'] + q['limit']]
        return Result(names, res, len(res))

    # -- statements
    def run(self, sql):
        p = P(sql)
        s = self.s
        if p.is_kw('select'):
            q = p.select()
            p.end()
            s.begin_read()
            return self.select(q)
        if p.kw('insert'):
            p.kw('ignore')
            p.kw('into')
            name = p.ident()
            cols = None
            if p.peek() == ('op', '('):
                p.need('(')
                cols = [p.ident()]
                while p.op(','):
                    cols.append(p.ident())
                p.need(')')
            rows, sel = [], None
            if p.kw('values') or p.kw('value'):
                while True:
                    p.need('(')
                    vals = []
                    if not p.op(')'):
                        vals.append(p.expr())
                        while p.op(','):
                            vals.append(p.expr())
                        p.need(')')
                    rows.append(vals)
                    if not p.op(','):
                        break
            elif p.is_kw('select'):
                sel = p.select()
            else:
                raise syntax("insert near %r" % (p.peek()[1],))
            p.end()
            return self.insert(name, cols, rows, sel)
        if p.kw('update'):
            name = p.ident()
            p.need_kw('set')
            sets = []
            while True:
                c = p.ident()
                if p.op('.'):
                    c = p.ident()
                p.need('=')
                sets.append((c, p.expr()))
                if not p.op(','):
                    break
            where = p.expr() if p.kw('where') else None
            p.end()
            return self.update(name, sets, where)
        if p.kw('delete'):
            p.need_kw('from')
            name = p.ident()
            where = p.expr() if p.kw('where') else None
            p.end()
            return self.delete(name, where)
        if p.kw('set'):
            while True:
                ty, v = p.peek()
                if ty == 'var':
                    p.i += 1
                    if not (p.op('=') or p.op(':=')):
                        raise syntax("set")
                    e = p.expr()
                    if e[0] == 'scalar':
                        s.begin_read()
                    s.vars[v] = self.ev(e, [], ())
                else:
                    while p.peek()[0] != 'end' and p.peek() != ('op', ','):
                        p.i += 1
                if not p.op(','):
                    break
            p.end()
            return Result()
        if p.kw('create'):
            return self.create(p)
        if p.kw('drop'):
            p.need_kw('table')
            ife = p.kw('if', 'exists')
            names = [p.ident()]
            while p.op(','):
                names.append(p.ident())
            p.end()
            s.implicit_commit()
            db = s.db()
            for n in names:
                if n not in db.tables and not ife:
                    raise err(E.ProgrammingError, 1051, "Unknown table '%s.%s'" % (db.name, n))
            for n in names:
                for t in db.tables.values():
                    if t.name not in names and any(f[2] == n for f in t.fks):
                        raise err(E.IntegrityError, 3730, "Cannot drop table '%s' referenced by a foreign key" % n)
            for n in names:
                db.tables.pop(n, None)
            return Result()
        if p.kw('alter'):
            return self.alter(p)
        if p.kw('truncate'):
            p.kw('table')
            n = p.ident()
            p.end()
            s.implicit_commit()
            s.db_table(n).rows = []
            return Result()
        if p.kw('begin') or p.kw('start', 'transaction'):
            s.implicit_commit()
            return Result()
        if p.kw('commit'):
            s.commit()
            return Result()
        if p.kw('rollback'):
            s.rollback()
            return Result()
        if p.kw('show', 'tables'):
            return Result(['t'], [(n,) for n in sorted(s.db().tables)], 0)
        raise syntax("near %r" % (sql[:40],))

    def insert(self, name, cols, rows, sel):
        s = self.s
        tab = s.write_table(name)
        names = cols if cols is not None else [c.name for c in tab.cols]
        idx = []
        for c in names:
            i = tab.idx(c)
            if i is None:
                raise self.bad_col(c)
            if i in idx:
                raise err(E.ProgrammingError, 1110, "Column '%s' specified twice" % c)
            idx.append(i)
        if sel is not None:
            r = self.select(sel)
            data = [list(x) for x in r.rows]
            if len(r.names) != len(names):
                raise err(E.DataError, 1136, "Column count doesn't match value count at row 1")
        else:
            data = []
            for n, vals in enumerate(rows):
                if len(vals) != len(names):
                    raise err(E.DataError, 1136, "Column count doesn't match value count at row %d" % (n + 1))
                data.append([('default',) if v[0] == 'col' and v[1] is None and str(v[2]).lower() == 'default'
                             else self.ev(v, [], ()) for v in vals])
        new = []
        for vals in data:
            row = [None] * len(tab.cols)
            given = dict(zip(idx, vals))
            for i, c in enumerate(tab.cols):
                if i in given and given[i] != ('default',):
                    v = given[i]
                    if c.autoinc and v in (None, 0):
                        v = tab.auto
                    row[i] = c.store(v)
                elif c.autoinc:
                    row[i] = tab.auto
                elif c.default is not None:
                    row[i] = c.store(c.default[0])
                elif c.notnull:
                    raise err(E.DatabaseError, 1364, "Field '%s' doesn't have a default value" % c.name)
                if c.autoinc:
                    tab.auto = max(tab.auto, row[i] + 1)
            new.append(tuple(row))
        final = tab.rows + new
        self.verify(tab, final)
        tab.rows = final
        return Result(rowcount=len(new))

    def verify(self, tab, rows):
        for cols in ([tab.pk] if tab.pk else []) + [u[1] for u in tab.uniques]:
            ii = [tab.idx(c) for c in cols]
            seen = set()
            for r in rows:
                k = tuple(r[i] for i in ii)
                if None in k:
                    continue
                if k in seen:
                    raise err(E.IntegrityError, 1062, "Duplicate entry for key '%s'" % tab.name)
                seen.add(k)
        for fname, cols, rt, rc in tab.fks:
            ref = tab if rt == tab.name else self.s.write_table(rt, lock=False)
            have = set(tuple(r[ref.idx(c)] for c in rc) for r in (rows if ref is tab else ref.rows))
            for r in rows:
                k = tuple(r[tab.idx(c)] for c in cols)
                if None not in k and k not in have:
                    raise err(E.IntegrityError, 1452, "Cannot add or update a child row: a foreign key constraint fails")
        for other in self.s.all_tables():
            if other.name == tab.name:
                continue
            for fname, cols, rt, rc in other.fks:
                if rt == tab.name:
                    have = set(tuple(r[tab.idx(c)] for c in rc) for r in rows)
                    for r in other.rows:
                        k = tuple(r[other.idx(c)] for c in cols)
                        if None not in k and k not in have:
                            raise err(E.IntegrityError, 1451,
                                      "Cannot delete or update a parent row: a foreign key constraint fails")

    def update(self, name, sets, where):
        tab = self.s.write_table(name)
        scope = [(name, [c.name for c in tab.cols])]
        if where is not None:
            self.check(where, scope)
        sets2 = []
        for c, e in sets:
            i = tab.idx(c)
            if i is None:
                raise self.bad_col(c)
            self.check(e, scope)
            sets2.append((i, e))
        out, n = [], 0
        for r in tab.rows:
            if where is None or truth(self.ev(where, scope, r)):
                row = list(r)
                for i, e in sets2:
                    row[i] = tab.cols[i].store(self.ev(e, scope, tuple(row)))
                n += tuple(row) != r
                out.append(tuple(row))
            else:
                out.append(r)
        self.verify(tab, out)
        tab.rows = out
        return Result(rowcount=n)

    def delete(self, name, where):
        tab = self.s.write_table(name)
        scope = [(name, [c.name for c in tab.cols])]
        if where is not None:
            self.check(where, scope)
        keep = [r for r in tab.rows if not (where is None or truth(self.ev(where, scope, r)))]
        n = len(tab.rows) - len(keep)
        self.verify(tab, keep)
        tab.rows = keep
        return Result(rowcount=n)

    def idlist(self, p):
        p.need('(')
        cols = [p.ident()]
        while p.op(','):
            cols.append(p.ident())
        p.need(')')
        return cols

    def create(self, p):
        s = self.s
        p.need_kw('table')
        ine = p.kw('if', 'not', 'exists')
        name = p.ident()
        t = Table(name)
        p.need('(')
        while True:
            cname = None
            if p.kw('constraint'):
                cname = None if p.is_kw('primary', 'foreign', 'unique') else p.ident()
            if p.kw('primary', 'key'):
                if t.pk:
                    raise err(E.ProgrammingError, 1068, "Multiple primary key defined")
                t.pk = self.idlist(p)
            elif p.kw('foreign', 'key'):
                cols = self.idlist(p)
                p.need_kw('references')
                rt = p.ident()
                t.fks.append((cname or 'fk_%d' % len(t.fks), cols, rt, self.idlist(p)))
            elif p.kw('unique'):
                p.kw('key') or p.kw('index')
                un = None
                if p.peek() != ('op', '('):
                    un = p.ident()
                t.uniques.append((un, self.idlist(p)))
            else:
                c = self.coldef(p, t)
                if t.idx(c.name) is not None:
                    raise err(E.ProgrammingError, 1060, "Duplicate column name '%s'" % c.name)
                t.cols.append(c)
            if p.op(','):
                continue
            p.need(')')
            break
        while p.peek()[0] in ('id', 'str', 'num') or p.peek() == ('op', '='):
            p.i += 1
        p.end()
        s.implicit_commit()
        db = s.db()
        if name in db.tables:
            if ine:
                return Result()
            raise err(E.ProgrammingError, 1050, "Table '%s' already exists" % name)
        for c in t.pk:
            if t.idx(c) is None:
                raise err(E.ProgrammingError, 1072, "Key column '%s' doesn't exist in table" % c)
            t.cols[t.idx(c)].notnull = True
        for f in t.fks:
            self.check_fk(t, f)
        for c in t.cols:
            if c.default is not None and c.default[0] is not None:
                c.store(c.default[0])
        db.tables[name] = t
        return Result()

    def check_fk(self, t, f):
        _, cols, rt, rc = f
        for c in cols:
            if t.idx(c) is None:
                raise err(E.ProgrammingError, 1072, "Key column '%s' doesn't exist in table" % c)
        ref = t if rt == t.name else self.s.db().tables.get(rt)
        if ref is None:
            raise err(E.DatabaseError, 1824, "Failed to open the referenced table '%s'" % rt)
        for c in rc:
            if ref.idx(c) is None:
                raise err(E.DatabaseError, 3734, "Missing column '%s' for constraint in the referenced table" % c)
        if list(rc) != list(ref.pk)[:len(rc)] and list(rc) not in [list(u[1]) for u in ref.uniques]:
            raise err(E.DatabaseError, 1822, "Missing index for constraint in the referenced table '%s'" % rt)
        for a, b in zip(cols, rc):
            if t.cols[t.idx(a)].type != ref.cols[ref.idx(b)].type:
                raise err(E.DatabaseError, 3780, "Referencing column '%s' and referenced column '%s' are incompatible"
                          % (a, b))

    def coldef(self, p, t):
        name = p.ident()
        ty, v = p.peek()
        if ty != 'id':
            raise syntax("type near %r in %r" % (v, p.sql[:300]))
        p.i += 1
        args = []
        if p.op('('):
            while True:
                args.append(p.peek()[1])
                p.i += 1
                if not p.op(','):
                    break
            p.need(')')
        c = Col(name, v, args)
        if c.type not in INT_RANGE and c.type not in (
                'decimal', 'numeric', 'dec', 'float', 'double', 'real', 'varchar', 'char', 'text', 'longtext',
                'mediumtext', 'tinytext', 'json', 'blob', 'datetime', 'timestamp', 'date'):
            raise syntax("type %s" % v)
        if c.type == 'varchar' and not args:
            raise syntax("varchar needs a length")
        if c.type == 'varchar' and args[0] > 21844 or c.type == 'char' and args and args[0] > 255:
            raise err(E.ProgrammingError, 1074, "Column length too big for column '%s'" % name)
        if c.type in ('decimal', 'numeric') and args and args[0] > 65:
            raise err(E.ProgrammingError, 1426, "Too big precision")
        while True:
            if p.kw('not', 'null'):
                c.notnull = True
            elif p.kw('null'):
                pass
            elif p.kw('unsigned'):
                c.unsigned = True
            elif p.kw('auto_increment'):
                c.autoinc = True
                if c.type not in INT_RANGE:
                    raise err(E.ProgrammingError, 1063, "Incorrect column specifier for column '%s'" % name)
            elif p.kw('primary', 'key') or p.kw('primary'):
                if t.pk:
                    raise err(E.ProgrammingError, 1068, "Multiple primary key defined")
                t.pk = [name]
            elif p.kw('unique', 'key') or p.kw('unique'):
                t.uniques.append((name, [name]))
            elif p.kw('default'):
                if p.kw('current_timestamp'):
                    c.default = (datetime.datetime(2000, 1, 1),)
                else:
                    ty, v = p.peek()
                    if ty == 'id' and v.lower() != 'null':
                        raise syntax("default near %r in %r" % (v, p.sql[:300]))
                    e = p.unary()
                    c.default = (self.ev(e, [], ()),)
                    if c.default == (None,) and c.notnull:
                        raise err(E.ProgrammingError, 1067, "Invalid default value for '%s'" % name)
            elif p.kw('comment'):
                p.i += 1
            elif p.kw('collate') or p.kw('character', 'set'):
                p.i += 1
            else:
                return c

    def alter(self, p):
        s = self.s
        p.need_kw('table')
        name = p.ident()
        if p.kw('add', 'primary', 'key'):
            cols = self.idlist(p)
            act = ('addpk', cols)
        elif p.kw('drop', 'primary', 'key'):
            act = ('droppk',)
        elif p.kw('add', 'constraint'):
            cname = p.ident()
            p.need_kw('foreign', 'key')
            cols = self.idlist(p)
            p.need_kw('references')
            rt = p.ident()
            act = ('addfk', (cname, cols, rt, self.idlist(p)))
        elif p.kw('drop', 'foreign', 'key'):
            act = ('dropfk', p.ident())
        elif p.kw('add', 'unique'):
            un = p.ident()
            act = ('adduq', (un, self.idlist(p)))
        elif p.kw('add', 'index') or p.kw('add', 'fulltext'):
            un = p.ident()
            act = ('addix', (un, self.idlist(p)))
        elif p.kw('drop', 'index'):
            act = ('dropix', p.ident())
        else:
            raise syntax("alter near %r" % (p.peek()[1],))
        p.end()
        s.implicit_commit()
        t = s.db_table(name)
        new = t.copy()
        new.fks, new.uniques, new.pk = list(t.fks), list(t.uniques), list(t.pk)
        if act[0] in ('addpk', 'adduq', 'addix'):
            cols = act[1] if act[0] == 'addpk' else act[1][1]
            for c in cols:
                if t.idx(c) is None:
                    raise err(E.ProgrammingError, 1072, "Key column '%s' doesn't exist in table" % c)
        if act[0] == 'addpk':
            if t.pk:
                raise err(E.ProgrammingError, 1068, "Multiple primary key defined")
            new.pk = act[1]
            for r in t.rows:
                if any(r[t.idx(c)] is None for c in act[1]):
                    raise err(E.DataError, 1138, "Invalid use of NULL value")
        elif act[0] == 'droppk':
            if not t.pk:
                raise err(E.DatabaseError, 1091, "Can't DROP 'PRIMARY'; check that column/key exists")
            if any(f[2] == name and list(f[3]) == list(t.pk)[:len(f[3])]
                   for o in s.db().tables.values() for f in o.fks):
                raise err(E.DatabaseError, 1553, "Cannot drop index 'PRIMARY': needed in a foreign key constraint")
            new.pk = []
        elif act[0] == 'addfk':
            if any(f[0] == act[1][0] for o in s.db().tables.values() for f in o.fks):
                raise err(E.DatabaseError, 1826, "Duplicate foreign key constraint name '%s'" % act[1][0])
            self.check_fk(t, act[1])
            new.fks.append(act[1])
        elif act[0] == 'dropfk':
            if not any(f[0] == act[1] for f in t.fks):
                raise err(E.DatabaseError, 1091, "Can't DROP '%s'; check that column/key exists" % act[1])
            new.fks = [f for f in t.fks if f[0] != act[1]]
        elif act[0] in ('adduq', 'addix'):
            if act[1][0] in [u[0] for u in t.uniques] + t.indexes:
                raise err(E.ProgrammingError, 1061, "Duplicate key name '%s'" % act[1][0])
            if act[0] == 'adduq':
                new.uniques.append(act[1])
            else:
                new.indexes = t.indexes + [act[1][0]]
        elif act[0] == 'dropix':
            if act[1] not in [u[0] for u in t.uniques] + t.indexes:
                raise err(E.DatabaseError, 1091, "Can't DROP '%s'; check that column/key exists" % act[1])
            new.uniques = [u for u in t.uniques if u[0] != act[1]]
            new.indexes = [u for u in t.indexes if u != act[1]]
        try:
            self.verify(new, new.rows)
        finally:
            s.end_txn(False)
        s.db().tables[name] = new
        if act[0] == 'addpk':
            for c in act[1]:
                new.cols[new.idx(c)].notnull = True
        return Result()


# --------------------------------------------------------------------------
# Server, sessions, DB-API
class Blocked(E.DatabaseError):
    """another transaction holds the lock"""


class Server:
    def __init__(self):
        self.dbs = {}            # (host, port, name) -> Database
        self.accounts = None     # None: anyone; else {(host, port, user): (password, databases)}
        self.log = []            # dicts
        self.lock = _thread.RLock()
        self.shuffle = None
        self.fault = None        # callable(kind, conn, sql) -> None | 'lost' | 'lost-after' | Exception
        self.waiter = None       # callable(predicate): waits until it holds; None: a lock wait times out at once
        self.observer = None     # callable(kind, conn, info)
        self.nconn = 0
        self.open_conns = {}
        self.opens = 0
        self.max_connections = None

    def add_db(self, name, host='127.0.0.1', port=3306):
        self.dbs[(host, int(port), name)] = Database(name)
        return self.dbs[(host, int(port), name)]

    def connect(self, *a, **kw):
        return Connection(self, **kw)

    def emit(self, kind, conn, **info):
        if self.observer:
            self.observer(kind, conn, info)

    def statements(self):
        return [e for e in self.log if e['kind'] == 'sql']


class Connection:
    def __init__(self, server, host='127.0.0.1', port=3306, user='', passwd=None, password=None, db=None,
                 database=None, **kw):
        self.server = server
        self.vars = {}
        self.closed = True
        self.dead = False
        self.unread = None
        self.snapshot = None
        self.working = None
        self.user, self.password = user, passwd if passwd is not None else password
        self.database = db if db is not None else database
        self.key = (host, int(port), self.database)
        if server.fault:
            f = server.fault('connect', self, None)
            if f:
                raise f if isinstance(f, Exception) else err(E.InterfaceError, 2003, "Can't connect to MySQL server")
        with server.lock:
            if server.accounts is not None and self.key[2] != 'eulerdb_schema':
                password, dbs = server.accounts.get((host, int(port), user), (None, ()))
                if password is None or password != self.password:
                    raise err(E.ProgrammingError, 1045, "Access denied for user '%s'" % user)
                if self.database not in dbs:
                    raise err(E.ProgrammingError, 1044, "Access denied for user '%s' to database" % user)
            if server.max_connections is not None and len(server.open_conns) >= server.max_connections:
                raise err(E.OperationalError, 1040, "Too many connections")
            if self.key not in server.dbs:
                raise err(E.ProgrammingError, 1049, "Unknown database '%s'" % (self.database,))
            server.nconn += 1
            server.opens += 1
            self.id = server.nconn
            self.closed = False
            server.open_conns[self.id] = self
            server.log.append({'kind': 'connect', 'conn': self.id, 'key': self.key, 'user': user})
        server.emit('connect', self)

    # -- table access
    def db(self):
        return self.server.dbs[self.key]

    def db_table(self, n):
        t = self.db().tables.get(n)
        if t is None:
            raise err(E.ProgrammingError, 1146, "Table '%s.%s' doesn't exist" % (self.database, n))
        return t

    def begin_read(self):
        if self.snapshot is None:
            self.snapshot = {n: t.copy() for n, t in self.db().tables.items()}

    def read_table(self, n):
        self.begin_read()
        view = self.working if self.working is not None else self.snapshot
        if '.' in n:
            d, n = n.split('.', 1)
            if d != self.database:
                raise err(E.ProgrammingError, 1142, "SELECT command denied")
        t = view.get(n)
        if t is None:
            cur = self.db().tables.get(n)
            if cur is not None:
                return cur
            raise err(E.ProgrammingError, 1146, "Table '%s.%s' doesn't exist" % (self.database, n))
        return t

    def all_tables(self):
        return list((self.working if self.working is not None else self.db().tables).values())

    def write_table(self, n, lock=True):
        db = self.db()
        if db.writer is not None and db.writer is not self:
            raise Blocked(errno=1205, msg="Lock wait timeout exceeded; try restarting transaction")
        if self.working is None:
            db.writer = self
            self.working = {m: t.copy() for m, t in db.tables.items()}
        t = self.working.get(n)
        if t is None:
            raise err(E.ProgrammingError, 1146, "Table '%s.%s' doesn't exist" % (self.database, n))
        return t

    def end_txn(self, keep):
        db = self.server.dbs.get(self.key)
        if self.working is not None:
            if keep:
                db.tables.update(self.working)
            self.working = None
            if db.writer is self:
                db.writer = None
        self.snapshot = None

    def implicit_commit(self):
        if self.db().writer not in (None, self):
            raise Blocked(errno=1205, msg="Lock wait timeout exceeded; try restarting transaction")
        self.end_txn(True)

    # -- DB-API
    def _alive(self):
        if self.dead or self.closed:
            raise err(E.OperationalError, 2013 if self.dead else 2055, "MySQL Connection not available")

    def _kill(self):
        with self.server.lock:
            if not self.dead:
                self.dead = True
                self.end_txn(False)
                self.server.open_conns.pop(self.id, None)

    def _fault(self, kind, sql=None):
        """returns 'lost-after' or None; raises otherwise"""
        if self.server.fault:
            f = self.server.fault(kind, self, sql)
            if f == 'lost':
                self._kill()
                raise err(E.OperationalError, 2013, "Lost connection to MySQL server during query")
            if isinstance(f, Exception):
                raise f
            return f

    def _after(self, f):
        if f == 'lost-after':
            self._kill()
            raise err(E.OperationalError, 2013, "Lost connection to MySQL server during query")

    def handle_unread(self):
        if self.unread is not None:
            raise err(E.InternalError, -1, "Unread result found")

    def cursor(self, *a, **kw):
        self.handle_unread()
        self._alive()
        self._fault('cursor')
        return Cursor(self)

    def commit(self):
        self.handle_unread()
        self._alive()
        f = self._fault('commit')
        with self.server.lock:
            self.end_txn(True)
            self.server.log.append({'kind': 'commit', 'conn': self.id})
        self.server.emit('commit', self)
        self._after(f)

    def rollback(self):
        self.unread = None
        self._alive()
        f = self._fault('rollback')
        with self.server.lock:
            self.end_txn(False)
            self.server.log.append({'kind': 'rollback', 'conn': self.id})
        self.server.emit('rollback', self)
        self._after(f)

    def close(self):
        if not self.closed:
            self.closed = True
            with self.server.lock:
                self.end_txn(False)
                self.server.open_conns.pop(self.id, None)
                self.server.log.append({'kind': 'close', 'conn': self.id})
            self.server.emit('close', self)

    def ping(self, reconnect=False, attempts=1, delay=0):
        self.server.emit('ping', self)
        self._fault('ping')
        if self.dead or self.closed:
            raise err(E.InterfaceError, -1, "Connection to MySQL is not available.")

    def is_connected(self):
        return not (self.dead or self.closed)


def literal(v):
    """mysql.connector's client-side conversion of a parameter."""
    if v is None:
        return 'NULL'
    if type(v) in (int, float):
        return repr(v)
    if type(v) is bool:
        return str(int(v))
    if type(v) is Decimal:
        return format(v, 'f')
    if type(v) is str:
        return "'" + v.replace('\\', '\\\\').replace("'", "\\'").replace('\0', '\\0').replace('\n', '\\n') \
            .replace('"', '\\"').replace('\x1a', '\\Z').replace('\r', '\\r') + "'"
    if type(v) is datetime.datetime:
        return "'" + v.strftime('%Y-%m-%d %H:%M:%S') + "'"
    raise err(E.ProgrammingError, -1,
              "Failed processing format-parameters; Python '%s' cannot be converted to a MySQL type" % type(v).__name__)


class Cursor:
    def __init__(self, conn):
        self.conn = conn
        self.rows = None
        self.description = None
        self.rowcount = -1
        self.arraysize = 1

    def execute(self, sql, params=None, multi=False):
        c = self.conn
        if not sql:
            return None
        c.handle_unread()
        if params:
            parts = re.split(r'%s', sql)
            if len(parts) - 1 != len(params):
                raise err(E.ProgrammingError, -1, "Not all parameters were used in the SQL statement")
            sql = ''.join(a + b for a, b in zip(parts, [literal(p) for p in params] + ['']))
        c._alive()
        c.server.emit('execute', c, sql=sql)
        entry = {'kind': 'sql', 'conn': c.id, 'key': c.key, 'user': c.user, 'password': c.password, 'sql': sql, 'ok': False}
        with c.server.lock:
            c.server.log.append(entry)
        f = c._fault('execute', sql)
        while True:
            try:
                r = self.perform(c, sql, entry)
                break
            except Blocked:
                if not c.server.waiter:
                    raise
                del entry['error']
                c.server.waiter(lambda: c.db().writer is None)
        self.rowcount = r.rowcount
        self.rows = None
        if r.names is not None:
            self.rows = list(r.rows)
            self.description = [(n, None, None, None, None, None, None) for n in r.names]
            c.unread = self
            entry['nrows'] = len(r.rows)
        c._after(f)

    @staticmethod
    def perform(c, sql, entry):
        with c.server.lock:
            fresh = c.snapshot is None
            try:
                with localcontext(PRECISE):
                    r = Exec(c).run(sql)
            except E.Error as e:
                entry['error'] = str(e)
                if fresh and c.working is None:
                    # a statement that is refused reads nothing
                    c.snapshot = None
                raise
            entry['ok'] = True
        return r

    def executemany(self, sql, seq):
        seq = list(seq)
        m = re.match(r'(?is)^(\s*(?:insert|replace)\s.*?\bvalues?\s*)(\(.*\))\s*;?\s*$', sql)
        if m and seq:
            # mysql.connector turns the rows into one statement
            rows = []
            for p in seq:
                parts = re.split(r'%s', m.group(2))
                if len(parts) - 1 != len(p):
                    raise err(E.ProgrammingError, -1, "Not all parameters were used in the SQL statement")
                rows.append(''.join(a + b for a, b in zip(parts, [literal(x) for x in p] + [''])))
            return self.execute(m.group(1) + ','.join(rows))
        for p in seq:
            self.execute(sql, p)

    def fetchall(self):
        self.conn.server.emit('fetch', self.conn)
        if self.rows is None or self.conn.unread is not self:
            raise err(E.InterfaceError, -1, "No result set to fetch from.")
        self.conn._alive()
        try:
            self.conn._fault('fetch')
        except E.Error:
            # an error packet ends the result
            self.conn.unread = None
            raise
        r, self.rows = self.rows, []
        self.conn.unread = None
        return r

    def fetchone(self):
        if self.rows is None:
            raise err(E.InterfaceError, -1, "No result set to fetch from.")
        if self.rows:
            r = self.rows.pop(0)
            if not self.rows:
                self.conn.unread = None
            return r
        self.conn.unread = None
        return None

    def fetchmany(self, size=1):
        out = []
        for _ in range(size):
            r = self.fetchone()
            if r is None:
                break
            out.append(r)
        return out

    def close(self):
        self.conn.unread = None if self.conn.unread is self else self.conn.unread

    def __iter__(self):
        return iter(self.fetchone, None)


META_DDL = ("create table p_db_meta (database_name varchar(255) not null, database_type varchar(255), "
            "table_name varchar(255) not null, table_anonymous varchar(255), col_info text, key_info varchar(255))")


def patch(server):
    """Route mysql.connector.connect to the simulated server."""
    mysql.connector.connect = server.connect
