"""Network stand-in: every request of the `requests` library is answered by a function of the check."""
import contextlib

import requests
import requests.adapters


def response(request, status=200, content=b'', ctype='text/html', reason=None, encoding=None):
    r = requests.Response()
    r.status_code = status
    r._content = content
    r._content_consumed = True
    r.url = request.url
    r.request = request
    r.headers['Content-Type'] = ctype
    r.reason = reason
    r.encoding = encoding
    return r


@contextlib.contextmanager
def serve(handler):
    """handler(prepared_request) -> Response; yields the list of the requests made."""
    seen = []
    real = requests.adapters.HTTPAdapter.send

    def send(self, request, **kw):
        seen.append(request)
        return handler(request)

    requests.adapters.HTTPAdapter.send = send
    try:
        yield seen
    finally:
        requests.adapters.HTTPAdapter.send = real
