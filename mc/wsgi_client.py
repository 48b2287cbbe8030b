"""A boring WSGI client that checks nothing and hides nothing."""
import io
import sys


def environ(path='/', method='GET', query='', body=b'', headers=(),
            scheme='http', host='example.com', script='', **extra):
    env = {
        'REQUEST_METHOD': method,
        'SCRIPT_NAME': script,
        'PATH_INFO': path.encode('utf-8').decode('latin1'),
        'QUERY_STRING': query,
        'SERVER_NAME': host.split(':')[0],
        'SERVER_PORT': host.partition(':')[2] or (
            '443' if scheme == 'https' else '80'),
        'HTTP_HOST': host,
        'SERVER_PROTOCOL': 'HTTP/1.1',
        'wsgi.version': (1, 0),
        'wsgi.url_scheme': scheme,
        'wsgi.input': io.BytesIO(body),
        'wsgi.errors': sys.stderr,
        'wsgi.multithread': True,
        'wsgi.multiprocess': False,
        'wsgi.run_once': False,
    }
    if body:
        env['CONTENT_LENGTH'] = str(len(body))
    for name, value in headers:
        key = name.upper().replace('-', '_')
        if key not in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
            key = 'HTTP_' + key
        env[key] = value
    env.update(extra)
    return env


class Result:
    def __init__(self):
        self.status = None
        self.headers = None
        self.chunks = []
        self.error = None
        self.started = 0

    @property
    def body(self):
        return b''.join(self.chunks)

    @property
    def code(self):
        return self.status and int(self.status.split(' ')[0])

    def get(self, name, default=None):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return default

    def getlist(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def summary(self):
        return (self.status, sorted(self.headers or ()), self.body,
                self.error)


def call(app, env, stop_after=None, close=True, catch=True):
    """Run a request like a server.  ``stop_after`` stops reading after so
    many chunks, as if the client went away."""
    result = Result()

    def start_response(status, headers, exc_info=None):
        result.started += 1
        result.status = status
        result.headers = list(headers)
        return result.chunks.append

    iterable = None
    try:
        iterable = app(env, start_response)
        if stop_after != 0:
            for chunk in iterable:
                result.chunks.append(chunk)
                if stop_after is not None and len(
                        result.chunks) >= stop_after:
                    break
    except Exception as e:
        if not catch:
            raise
        result.error = e
    finally:
        if close and hasattr(iterable, 'close'):
            try:
                iterable.close()
            except Exception as e:
                if not catch:
                    raise
                result.error = result.error or e
    return result
