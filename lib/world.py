"""Loads the system under test (/repo) against the simulated MySQL server.

A World owns a scratch working directory (config.yaml copy, euler_db.log) and a
mysqlsim.Server.  `boot()` imports the proxy afresh (a proxy (re)start); the
backend server and the catalog database survive it.
"""
import os
import sys
import shutil
import tempfile
import importlib
import logging
import threading

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
for p in (os.path.join(HERE, 'stubs'), REPO):
    if p not in sys.path:
        sys.path.insert(0, p)

import mysqlsim                                   # noqa: E402

# modules re-imported at every boot; the SQL grammar packages are stateless and kept
FRESH = ('scheduler', 'controller', 'handler', 'service', 'dbutils', 'eulerdb_c')
KEEP = ('scheduler.compile', 'scheduler.lex_module')


class Crash(BaseException):
    """the proxy dies"""


class World:
    def __init__(self, shuffle=None):
        self.server = mysqlsim.Server()
        self.server.shuffle = shuffle
        self.cwd = tempfile.mkdtemp(prefix='verif_world_')
        shutil.copy(os.path.join(REPO, 'config.yaml'), self.cwd)
        self.old = os.getcwd()
        self.server.add_db('eulerdb_schema')
        c = self.server.connect(host='127.0.0.1', port=3306, user='root', passwd='123456', db='eulerdb_schema')
        cu = c.cursor()
        cu.execute(mysqlsim.META_DDL)
        cu.execute("create table p_datasource (id bigint not null primary key auto_increment, name varchar(256), "
                   "username varchar(256), password varchar(256), connection_url varchar(256), "
                   "driver_class_name varchar(256), ping varchar(256))")
        c.commit()
        c.close()
        self.server.log.clear()
        self.mods = {}

    # -- proxy life cycle
    def boot(self, http=False):
        self.halt()
        os.chdir(self.cwd)
        mysqlsim.patch(self.server)
        quiet()
        self.ctx = importlib.import_module('scheduler.backend.execution_context')
        self.ctl = importlib.import_module('controller.rewriter')
        if http:
            self.handler = importlib.import_module('handler')
            self.service = importlib.import_module('service')
        quiet()
        return self

    def halt(self):
        """The proxy process dies: its connections are cut, its memory is gone."""
        for m in [m for m in sys.modules
                  if m.split('.')[0] in FRESH and not m.startswith(KEEP)]:
            mod = sys.modules.pop(m)
            del mod
        for c in list(self.server.open_conns.values()):
            c._kill()
        for name in list(logging.root.manager.loggerDict):
            if name.split('.')[0] in FRESH:
                lg = logging.getLogger(name)
                for h in list(lg.handlers):
                    lg.removeHandler(h)
                    h.close()

    def close(self):
        self.halt()
        os.chdir(self.old)
        shutil.rmtree(self.cwd, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- client side
    def info(self, db, query=None, **kw):
        d = {'host': '127.0.0.1', 'port': 3306, 'db': db, 'user': 'root', 'password': 'root'}
        if query is not None:
            d['query'] = query
        d.update(kw)
        return d

    def query(self, db, sql, **kw):
        """One client statement.  Returns ('ok', rows) | ('err', text)."""
        try:
            r = self.ctl.ControllerDatabase(self.info(db, sql, **kw)).do_query()
            return ('ok', [tuple(x) for x in r['result']], r.get('columns'))
        except Exception as e:                      # noqa: BLE001
            return ('err', '%s: %s' % (type(e).__name__, e), None)


class _Null:
    def write(self, *_):
        return 0

    def flush(self):
        pass


def quiet():
    logging.disable(logging.CRITICAL)


_real_stdout = sys.stdout


class silence:
    """The proxy prints; keep check output readable."""
    depth = 0
    lock = threading.Lock()

    def __enter__(self):
        with silence.lock:
            silence.depth += 1
            sys.stdout = _Null()

    def __exit__(self, *a):
        with silence.lock:
            silence.depth -= 1
            if not silence.depth:
                sys.stdout = _real_stdout
