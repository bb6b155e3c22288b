"""Sending requests through the bundled clients and seeing what arrives at the other side."""
import asyncio, email.parser, json, os, socket, threading
from harness import enc
from primkit import undisk
import requests, requests.adapters
from requests.structures import CaseInsensitiveDict as RDict
import flask, six
from werkzeug.wrappers import Response as WResponse
from tornado.httpclient import AsyncHTTPClient
from tornado.ioloop import IOLoop
from tornado.iostream import IOStream
from tornado import tcpclient
from pyswagger.contrib.client.requests import Client as RequestsClient
from pyswagger.contrib.client.flask import FlaskTestClient
from pyswagger.contrib.client.tornado import TornadoClient


def text_of(b):
    if b is None:
        return ''
    if isinstance(b, str):
        return b
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return '!not UTF-8: ' + b.decode('latin-1')


def body_of(ctype, data, encoding=False):
    """how a server reads a body -> tagged JSON; ctype may be '' when absent"""
    if not data:
        return ['none']
    mt = ctype.split(';')[0].strip().lower()
    b = data if isinstance(data, bytes) else data.encode('utf-8')
    try:
        if mt in ('application/json', 'text/json'):
            return ['json', enc(json.loads(b.decode('utf-8')))]
        if mt == 'application/x-www-form-urlencoded':
            return ['form', b.decode('utf-8')]
        if mt == 'multipart/form-data':
            m = email.parser.BytesParser().parsebytes(b'Content-Type: ' + ctype.encode('latin-1') + b'\r\nMIME-Version: 1.0\r\n\r\n' + b)
            if not m.is_multipart():
                return ['text', '!not multipart']
            parts = []
            for p in m.get_payload():
                pl = p.get_payload(decode=True)
                fn = p.get_param('filename', None, header='content-disposition')
                nm = p.get_param('name', None, header='content-disposition')
                parts.append([text(nm), '' if fn is None else 'f', '' if fn is None else undisk(text(fn)), p.get_content_type() if p['Content-Type'] else '', text_of(pl)] + ([str(p['Content-Transfer-Encoding'] or '')] if encoding else []))
            return ['parts', parts]
    except Exception as e:
        return ['bad', '%s: %r' % (type(e).__name__, b[:80])]
    return ['text', text_of(b)]


def text(x):
    if isinstance(x, tuple):
        x = x[2]
    x = str(x)
    try:
        return x.encode('latin-1').decode('utf-8')      # raw UTF-8 in headers
    except (UnicodeEncodeError, UnicodeDecodeError):
        try:
            return x.encode('ascii', 'surrogateescape').decode('utf-8')
        except (UnicodeEncodeError, UnicodeDecodeError):
            return x


class Reply(object):
    """what the other side answers"""
    def __init__(self, status=200, headers=(), body=b''):
        self.status, self.headers, self.body = status, list(headers), body


def wire(method, scheme, netloc, path, query, headers, body):
    h = [[k, text(v)] for k, v in headers]
    ct = [v for k, v in h if k.lower() == 'content-type']
    return {'method': method, 'scheme': scheme, 'netloc': netloc, 'path': path, 'query': query or '', 'headers': h,
            'ctype': ct[0].split(';')[0].strip().lower() if ct else '', 'body': body_of(ct[0] if ct else '', body)}


# ------------------------------------------------------------------ requests
class _Patched(object):
    log, reply = None, None


def _send(self, request, **kw):
    p = six.moves.urllib.parse.urlsplit(request.url)
    body = request.body
    if hasattr(body, 'read'):
        body = body.read()
    if isinstance(body, str):
        body = body.encode('latin-1')       # what http.client does
    _Patched.log.append(wire(request.method, p.scheme, p.netloc, p.path, p.query, request.headers.items(), body))
    rp = _Patched.reply
    r = requests.Response()
    r.status_code, r.url, r.request = rp.status, request.url, request
    d = {}
    for k, v in rp.headers:      # as urllib3 does: repeated headers joined
        for k2 in d:
            if k2.lower() == k.lower():
                d[k2] += ', ' + v
                break
        else:
            d[k] = v
    r.headers = RDict(d)
    r.raw = six.BytesIO(rp.body)
    r.raw.read_chunked = None
    r._content, r._content_consumed = rp.body, True
    return r


class Sender(object):
    """one client of one kind; .send(pair, **kw) -> (wire, response)"""
    def __init__(self, kind, security=None, **kw):
        self.kind = kind
        self.log = []
        self.reply = Reply()
        if kind == 'requests':
            self.client = RequestsClient(security, **kw)
        elif kind == 'flask':
            app = flask.Flask('echo')
            app.wsgi_app = self._wsgi
            self.client = FlaskTestClient(app.test_client(), security)
        else:
            self.client = loop().call(lambda: TornadoClient(security))

    def _wsgi(self, environ, start_response):
        ln = int(environ.get('CONTENT_LENGTH') or 0)
        body = environ['wsgi.input'].read(ln) if ln else b''
        hs = []
        for k, v in environ.items():
            if k.startswith('HTTP_') and k != 'HTTP_CONTENT_TYPE':
                hs.append(('access_token' if k == 'HTTP_ACCESS_TOKEN' else k[5:].replace('_', '-').title(), v))     # WSGI does not tell _ from -
        if environ.get('CONTENT_TYPE'):
            hs.append(('Content-Type', environ['CONTENT_TYPE']))
        self.log.append(wire(environ['REQUEST_METHOD'], environ['wsgi.url_scheme'], environ['HTTP_HOST'], environ['RAW_URI'], environ['QUERY_STRING'], hs, body))
        return WResponse(self.reply.body, status=self.reply.status, headers=self.reply.headers)(environ, start_response)

    def send(self, pair, reply=None, **kw):
        """raises what the client raises"""
        if reply is not None:
            self.reply = reply
        n = len(self.log)
        if self.kind == 'requests':
            old = requests.adapters.HTTPAdapter.send
            requests.adapters.HTTPAdapter.send = _send
            _Patched.log, _Patched.reply = self.log, self.reply
            try:
                resp = self.client.request(pair, **kw)
            finally:
                requests.adapters.HTTPAdapter.send = old
        elif self.kind == 'flask':
            resp = self.client.request(pair, **kw)
        else:
            resp = loop().run(self.log, self.reply, lambda: self.client.request(pair, **kw))
        return (self.log[-1] if len(self.log) == n + 1 else {'sent': len(self.log) - n}), resp


# ------------------------------------------------------------------ tornado
class _Loop(object):
    """an HTTP server and the client in one event loop of this process; whatever
    host the client connects to, it reaches that server"""
    def __init__(self):
        asyncio.set_event_loop(asyncio.new_event_loop())
        self.loop = IOLoop.current()
        self.pid = os.getpid()
        from tornado.httpserver import HTTPServer
        self.srv = HTTPServer(self.handle)
        sock = socket.socket()
        sock.bind(('127.0.0.1', 0))
        sock.listen(64)
        sock.setblocking(False)
        self.addr = sock.getsockname()
        self.loop.run_sync(lambda: self._add(sock))
        me = self

        async def connect(self_, host, port, *a, **kw):
            me.tls = kw.get('ssl_options') is not None
            st = IOStream(socket.socket())
            await st.connect(me.addr)
            return st
        tcpclient.TCPClient.connect = connect

    async def _add(self, sock):
        self.srv.add_socket(sock)

    def handle(self, req):
        u = req.uri
        path, _, query = u.partition('?')
        self.log.append(wire(req.method, 'https' if self.tls else 'http', req.headers.get('Host'), path, query, list(req.headers.get_all()), req.body))
        from tornado.httputil import ResponseStartLine, HTTPHeaders
        h = HTTPHeaders()
        for k, v in self.reply.headers:
            h.add(k, v)
        h['Content-Length'] = str(len(self.reply.body))
        req.connection.write_headers(ResponseStartLine('HTTP/1.1', self.reply.status, 'x'), h, self.reply.body)
        req.connection.finish()

    def call(self, f):
        async def g():
            return f()
        return self.loop.run_sync(g)

    def run(self, log, reply, f):
        self.log, self.reply = log, reply
        return self.loop.run_sync(f, timeout=10)


_loop = None


def loop():
    global _loop
    if _loop is None or _loop.pid != os.getpid():
        _loop = _Loop()
    return _loop
