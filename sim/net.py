"""A stand-in for the `requests` package (not installed here): responses and
failures are scripted."""
import json
import sys
import types


def install(script):
    """script(url) -> ('ok', text) | ('status', code, text) | ('raise', class name)."""
    m = types.ModuleType('requests')
    ex = types.ModuleType('requests.exceptions')

    class RequestException(IOError):
        def __init__(self, *a, response=None, request=None):
            self.response, self.request = response, request
            super().__init__(*a)
    ex.RequestException = RequestException
    for n, bases in (('HTTPError', ()), ('ConnectionError', ()), ('Timeout', ()), ('TooManyRedirects', ()),
                     ('ChunkedEncodingError', ()), ('SSLError', ()), ('ContentDecodingError', ())):
        setattr(ex, n, type(n, (RequestException,), {}))
    ex.ReadTimeout = type('ReadTimeout', (ex.Timeout,), {})
    ex.ConnectTimeout = type('ConnectTimeout', (ex.ConnectionError, ex.Timeout), {})

    class Response:
        def __init__(self, url, code, text):
            self.url, self.status_code, self._text = url, code, text
            self.headers, self.encoding, self.apparent_encoding = {}, 'utf-8', 'utf-8'
            self.reason = {200: 'OK', 404: 'Not Found', 500: 'Internal Server Error', 503: 'Service Unavailable'}.get(code, '')
            self.history, self.closed = [], False

        @property
        def ok(self):
            return self.status_code < 400

        @property
        def text(self):
            return self._text

        @property
        def content(self):
            return self._text.encode('utf8')

        def json(self, **kw):
            return json.loads(self._text)

        def raise_for_status(self):
            if self.status_code >= 400:
                raise ex.HTTPError('%d Error: %s for url: %s' % (self.status_code, self.reason, self.url), response=self)

        def iter_content(self, n=1, decode_unicode=False):
            b = self.content
            for i in range(0, len(b), n or 1):
                yield b[i:i + n]

        def iter_lines(self, *a, **kw):
            return iter(self._text.splitlines())

        def close(self):
            self.closed = True

        def __bool__(self):
            return self.ok

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    def request(method, url, **kw):
        r = script(url)
        if r[0] == 'raise':
            raise getattr(ex, r[1])('simulated ' + r[1])
        return Response(url, *((200, r[1]) if r[0] == 'ok' else r[1:]))

    class Session:
        def request(self, method, url, **kw):
            return request(method, url, **kw)

        def get(self, url, **kw):
            return request('GET', url, **kw)

        def mount(self, *a):
            pass

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    m.request, m.Session, m.session, m.Response, m.exceptions = request, Session, Session, Response, ex
    m.get = lambda url, **kw: request('GET', url, **kw)
    m.codes = types.SimpleNamespace(ok=200, not_found=404)
    for n, v in vars(ex).items():
        if isinstance(v, type):
            setattr(m, n, v)
    sys.modules['requests'] = m
    sys.modules['requests.exceptions'] = ex
