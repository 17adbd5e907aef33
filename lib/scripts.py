"""Writes the scripts derived by Script.tla as text and records how the code cuts them."""
import os
import random
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')

WORDS = ['select', 'a', 'b1', '=', '1', '2.5', '-3', 'from', 'where', 'and', 'update', 'set', 't.x', '@v', ',', 'null', 'in', 'not', 'like', '+', '>=',
         'is', 'users', 'insert', 'into', 'values', 'or', 'order by', 'group  by', 'x_y', 'int', 'varchar', 'distinct', 'left join', 'on', '<>', '*', 'as',
         'limit', 'between', 'endpoint', 'beginning', 'iff', 'casex', 'caseload', 'a$b', 'größe', '数据', 'concat', 'key', '%', '1e5', '0x1F', 'not null',
         'call', 'commit', 'rollback', 'start transaction', 'descr', 'true']
LITERALS = ["'x'", "''", "';'", "'it''s; done'", "'a\\';b'", "'begin'", "'/* ;'", "'-- ;'", '";"', '"a""b;"', '"\\";"', "'\n;\n'", "'(;'", "'中文;'", "'\\\\'",
            "'create procedure p() begin'", '"--"', "'# '", "'é;ü'", '"it\'s;"', "'say \";'"]
QUOTED = ['`a;b`', '`be``gin;`', '`END`', '`;`', '`(`', '`select`', '`a b`', "`it's;`"]
COMMENTS = ['/* ; */', '/* begin */', '/*+ hint; */', "/* it's; */", '/**/', '/* -- ; */', '/* a\n; b */', '/* ( */', '/* end; */']
LINES = ['-- ;\n', '# ;x\n', "-- it's;\n", '-- begin\r\n', '-- (\n', '-- /* ;\n', '-- end if;\n', '--\t;\n', '# "\n']
FIXED = {
    'semi': [';'], 'lp': ['('], 'rp': [')'], 'begin': ['begin'], 'end': ['end'], 'case': ['case'], 'when': ['when'], 'then': ['then'], 'else': ['else'],
    'if': ['if'], 'ifparen': ['if'], 'ifcall': ['if'], 'ifexists': ['if exists', 'if not exists'], 'while': ['while'], 'do': ['do'], 'loop': ['loop'],
    'repeat': ['repeat'], 'until': ['until'], 'label': ['lbl:', 'l1 :'], 'declare': ['declare'], 'create': ['create', 'create or replace'],
    'handler': ['declare continue handler for sqlexception', 'declare exit handler for not found'], 'cursor': ['declare c1 cursor for'],
    'endif': ['end if'], 'endwhile': ['end while'], 'endloop': ['end loop', 'end loop lbl'], 'endrepeat': ['end repeat'], 'endcase': ['end case'],
}
HEADS = ['procedure p1', 'function f', 'trigger trg', 'event e1', 'table t1', 'view v', 'temporary table t2', 'index i', 'procedure `p;1`', 'definer = u procedure p']


def cased(rnd, s):
    r = rnd.random()
    return s if r < .4 else s.upper() if r < .7 else s.title() if r < .8 else ''.join(rnd.choice([c.lower(), c.upper()]) for c in s)


def lexeme(rnd, kinds, i):
    k = kinds[i]
    if k == 'word':
        if i and kinds[i - 1] == 'create':
            return cased(rnd, rnd.choice(HEADS))
        return rnd.choice(WORDS) if rnd.random() < .5 else cased(rnd, rnd.choice(WORDS[:50]))
    if k in ('literal', 'quoted', 'comment', 'linecomment'):
        return rnd.choice({'literal': LITERALS, 'quoted': QUOTED, 'comment': COMMENTS, 'linecomment': LINES}[k])
    s = cased(rnd, rnd.choice(FIXED[k]))
    if ' ' in s and rnd.random() < .4:
        s = s.replace(' ', rnd.choice(['  ', '\n', '\t', ' \n ']))
    return s


def render(rnd, kinds, plain=False):
    """text and the (start, end) of every token"""
    out, spans, pos = [], [], 0
    tight = {'semi', 'lp', 'rp'}
    for i, k in enumerate(kinds):
        if i:
            # a parenthesis may follow without a space, and a semicolon
            free = k in tight or kinds[i - 1] in ('semi', 'lp', 'rp', 'linecomment')
            opts = ['', '', ' '] if free else [' ']
            if not plain:
                opts += [' ', '\n', '\t', '  ', '\r\n', ' \n '] + ([' /* ; */ '] if not (i and kinds[i - 1] == 'semi') and rnd.random() < .2 else [])
            sep = rnd.choice(opts)
            out.append(sep)
            pos += len(sep)
        s = lexeme(rnd, kinds, i)
        spans.append((pos, pos + len(s)))
        out.append(s)
        pos += len(s)
    end = rnd.choice(['', '', ' ', '\n', '\n\n', '\t '])
    return ''.join(out) + end, spans


def codes(s):
    return [ord(c) for c in s]


def record(id, kinds, seed, text=None, raw=None):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from scheduler.compile import parse as P
    from scheduler.compile.parse import lexer
    rnd = random.Random('s03/%s/%s' % (seed, id))
    spans = []
    if text is None:
        text, spans = render(rnd, kinds, plain=rnd.random() < .2)
    src = raw if raw is not None else text
    toks = [v for _, v in lexer.tokenize(src)]
    parts = [str(s) for s in P.parse(src)]
    splits = P.split(src)
    cuts, at = [], 0
    for part in parts:
        at += len(part)
        done = [i for i, (a, b) in enumerate(spans) if b <= at]
        inside = [i for i, (a, b) in enumerate(spans) if a < at < b]
        n = -len(done) - 1 if inside else len(done)
        if part is not parts[-1] or (done and kinds and kinds[-1] == 'semi'):
            cuts.append(n)
    trimmed = [p.strip() for p in parts]
    return {'id': id, 'o': kinds, 'cuts': cuts, 'text': codes(text), 'toks': [codes(t) for t in toks], 'stmts': [codes(p) for p in parts],
            'splits': [codes(p) for p in splits], 'trimmed': [codes(p) for p in trimmed]}


BITS = WORDS + LITERALS + QUOTED + COMMENTS + LINES + HEADS + [x for v in FIXED.values() for x in v] + list('\'"`;()[]{}\\/*-#$:?@%^&|~!<>=,.\n\r\t \0\x7f\u00a0\u2028é中🙂´') + [
    '$$', '$body$', '/*', '*/', '--', '::', ':=', '||', "'unclosed", '"unclosed', '[x]', '[a;b]', 'at time zone \'x\'', "N'x'", '\\x', 'x.y.z', '0x', '1.', '.5', '1e', '- -']


def garbage(id, seed):
    rnd = random.Random('s03g/%s/%s' % (seed, id))
    text = ''.join(rnd.choice(BITS) + rnd.choice(['', '', ' ']) for _ in range(rnd.randint(0, 14)))
    if rnd.random() < .2:
        text = ''.join(chr(rnd.choice([rnd.randrange(1, 128), rnd.randrange(1, 0xd800), rnd.randrange(0x10000, 0x10100)])) for _ in range(rnd.randint(1, 20)))
    return record(id, [], seed, text=text, raw=text.encode() if rnd.random() < .2 else None)
