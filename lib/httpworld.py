"""The proxy behind its HTTP service on the loopback interface."""
import asyncio
import http.client
import json
import threading
import urllib.parse

import world as W


class HttpWorld(W.World):
    """query() chooses among the endpoints that can carry the statement (self.rnd); None: always /query"""
    rnd = None
    httpd = None

    def boot(self, **kw):
        W.World.boot(self, http=True)
        import tornado.httpserver
        import tornado.netutil
        import tornado.web
        ready = threading.Event()
        out = {}

        def serve():
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)

            async def start():
                app = tornado.web.Application(handlers=self.service.HANDLERS)
                socks = tornado.netutil.bind_sockets(0, '127.0.0.1')
                srv = tornado.httpserver.HTTPServer(app)
                srv.add_sockets(socks)
                out.update(loop=loop, srv=srv, port=socks[0].getsockname()[1])
                ready.set()
            loop.run_until_complete(start())
            try:
                loop.run_forever()
            finally:
                out['srv'].stop()
                loop.run_until_complete(asyncio.sleep(0))
                loop.close()
        th = threading.Thread(target=serve, daemon=True)
        th.start()
        ready.wait(10)
        self.httpd = (out, th)
        return self

    def halt(self):
        if self.httpd:
            out, th = self.httpd
            out['loop'].call_soon_threadsafe(out['loop'].stop)
            th.join(10)
            self.httpd = None
            for cls in vars(self.handler).values():
                ex = getattr(cls, 'executor', None)
                if ex is not None:
                    ex.shutdown(wait=True)
        W.World.halt(self)

    # -- requests
    def http(self, method, path, body=None, form=False):
        """(status, body): the body parsed, None if it is no JSON"""
        c = http.client.HTTPConnection('127.0.0.1', self.httpd[0]['port'], timeout=60)
        try:
            data, head = None, {}
            if body is not None:
                data = urllib.parse.urlencode(body) if form else json.dumps(body, ensure_ascii=self.ascii)
                data = data.encode('utf-8')
                head = {'Content-Type': 'application/x-www-form-urlencoded' if form else 'application/json'}
            c.request(method, path, data, head)
            r = c.getresponse()
            text = r.read().decode('utf-8')
            try:
                return r.status, json.loads(text)
            except ValueError:
                return r.status, None
        finally:
            c.close()

    ascii = True

    def datasource(self, url, user, password):
        """id of the registered data source"""
        meta = self.server.dbs[('127.0.0.1', 3306, 'eulerdb_schema')].tables['p_datasource']
        names = [c.name for c in meta.cols]
        for row in meta.rows:
            r = dict(zip(names, row))
            if (r['connection_url'], r['username'], r['password']) == (url, user, password):
                return r['id']
        c = self.server.connect(host='127.0.0.1', port=3306, user='root', password='123456', db='eulerdb_schema')
        c.cursor().execute("insert into p_datasource (name, username, password, connection_url, driver_class_name) "
                           "values (%s,%s,%s,%s,%s)", ('ds%d' % len(meta.rows), user, password, url, 'com.mysql.jdbc.Driver'))
        c.commit()
        c.close()
        return self.datasource(url, user, password)

    def source_id(self, i):
        return self.datasource('jdbc:mysql://%s:%s/%s' % (i['host'], i['port'], i['db']), i['user'], i['password'])

    def query(self, db, sql, **kw):
        i = self.info(db, sql, **kw)
        routes = ['query']
        if self.rnd:
            routes.append('jdbc')
            if (i['host'], int(i['port'])) == ('127.0.0.1', 3306) and 'encrypted_columns' not in kw:
                routes.append('jar')
            if 'batch_process' in kw or ('encrypted_columns' not in kw and 'ciphertext' in kw):
                routes = ['query', 'jdbc'] if 'ciphertext' in kw else ['query']
        route = self.rnd.choice(routes) if self.rnd else 'query'
        self.last = route
        if route == 'query':
            return self.rows(self.http('POST', '/query', i))
        if route == 'jar':
            return self.rows(self.http('POST', '/query_jar', {k: i[k] for k in ('db', 'user', 'password', 'query')}, form=True))
        if 'encrypted_columns' in kw:
            b = {'create_table': sql, 'selectedJdbcDataSource': {'value': self.source_id(i)},
                 'encrypted_columns': kw['encrypted_columns']}
        else:
            b = {'sqlQuery': sql, 'jdbcDataSourceId': self.source_id(i), 'ciphertext': kw.get('ciphertext', False)}
        st, r = self.http('POST', '/jdbc_query', b)
        if st != 200 or not isinstance(r, dict) or r.get('error'):
            return ('err', 'status %s %r' % (st, r), None)
        if not r:
            return ('ok', [], None)
        if set(r) != {'columns', 'data', 'error'}:
            return ('err', 'body %r' % (r,), None)
        names = [c['name'] for c in r['columns']]
        return ('ok', [tuple(d.get(n, '?') for n in names) + ('?',) * (len(d) != len(names)) for d in json.loads(r['data'])],
                [names, [c['dbType'] for c in r['columns']]])

    @staticmethod
    def rows(res):
        st, r = res
        if st != 200 or not isinstance(r, dict) or 'result' not in r:
            return ('err', 'status %s %r' % (st, r), None)
        return ('ok', [tuple(x) for x in r['result']], r.get('columns'))
