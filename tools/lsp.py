"""Drives the built language server over stdio, in a scratch directory."""
import json
import os
import queue
import shutil
import subprocess
import tempfile
import threading
import time
import urllib.parse

BIN = os.path.join(os.getcwd(), 'target', 'debug', 'jinja-lsp')


def uri_of(path):
    return 'file://' + urllib.parse.quote(path, safe="/~!$&'()*+,;=:@-._")


class Lsp(object):
    def __init__(self, files=None, config=None, client=None, cwd_files=None, start=True):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='jlsp'))
        self.templates = os.path.join(self.root, 'templates')
        self.src = os.path.join(self.root, 'src')
        self.cwd = os.path.join(self.root, 'cwd')
        for d in (self.templates, self.src, self.cwd):
            os.makedirs(d)
        for n, t in (files or {}).items():
            self.write(n, t)
        for n, t in (cwd_files or {}).items():
            with open(os.path.join(self.cwd, n), 'w') as f:
                f.write(t.replace('@T', self.templates).replace('@S', self.src))
        self.err = open(os.path.join(self.root, 'stderr'), 'wb')
        self.p = subprocess.Popen([BIN], cwd=self.cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err)
        self.q = queue.Queue()
        self.msgs = []
        self.n = 0
        self.diags = {}
        self.count = {}
        self.logs = []
        threading.Thread(target=self._read, daemon=True).start()
        if start:
            self.start(config, client)

    def start(self, config=None, client=None):
        opts = {'templates': self.templates, 'backend': [self.src], 'lang': 'rust'} if config is None else config
        params = {'processId': None, 'rootUri': None, 'capabilities': {}}
        if opts is not False:
            params['initializationOptions'] = opts
        if client:
            params['clientInfo'] = {'name': client}
        self.caps = self.request('initialize', params)
        self.notify('initialized', {})

    def write(self, name, text):
        p = os.path.join(self.root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        return p

    def uri(self, name):
        return uri_of(os.path.join(self.root, name))

    def _read(self):
        f = self.p.stdout
        while True:
            n = None
            while True:
                l = f.readline()
                if not l:
                    self.q.put(None)
                    return
                l = l.strip()
                if not l:
                    break
                if l.lower().startswith(b'content-length:'):
                    n = int(l.split(b':')[1])
            if n is None:
                self.q.put({'bad': True})
                continue
            self.q.put(json.loads(f.read(n)))

    def send(self, m):
        m['jsonrpc'] = '2.0'
        b = json.dumps(m).encode()
        self.p.stdin.write(b'Content-Length: %d\r\n\r\n' % len(b) + b)
        self.p.stdin.flush()

    def notify(self, method, params):
        self.send({'method': method, 'params': params})

    def _take(self, timeout):
        try:
            m = self.q.get(timeout=timeout)
        except queue.Empty:
            return None
        if m is None:
            raise RuntimeError('server ended')
        if m.get('method') == 'textDocument/publishDiagnostics':
            u = m['params']['uri']
            self.diags[u] = m['params']['diagnostics']
            self.count[u] = self.count.get(u, 0) + 1
        elif m.get('method') == 'window/logMessage':
            self.logs.append(m['params']['message'])
        elif 'id' in m and 'method' in m:
            self.send({'id': m['id'], 'result': None})
        return m

    def request(self, method, params, timeout=20):
        self.n += 1
        i = self.n
        self.send({'id': i, 'method': method, 'params': params})
        end = time.time() + timeout
        while time.time() < end:
            m = self._take(max(0.01, end - time.time()))
            if m is not None and m.get('id') == i and 'method' not in m:
                if 'error' in m:
                    raise RuntimeError('error answer: %s' % m['error'])
                return m.get('result')
        raise RuntimeError('no answer to %s' % method)

    def pump(self, seconds):
        end = time.time() + seconds
        while time.time() < end:
            self._take(max(0.01, end - time.time()))

    def until(self, f, timeout=20):
        end = time.time() + timeout
        while not f():
            if time.time() > end:
                return False
            self._take(0.1)
        return True

    def wait_diags(self, uri, after=0, timeout=20):
        self.until(lambda: self.count.get(uri, 0) > after, timeout)
        return self.diags.get(uri)

    # documents
    def open(self, uri, text, lang='jinja'):
        self.notify('textDocument/didOpen', {'textDocument': {'uri': uri, 'languageId': lang, 'version': 1, 'text': text}})

    def change(self, uri, *changes):
        out = []
        for c in changes:
            if isinstance(c, str):
                out.append({'text': c})
            else:
                (l1, c1, l2, c2), t = c
                out.append({'range': {'start': {'line': l1, 'character': c1}, 'end': {'line': l2, 'character': c2}}, 'text': t})
        self.notify('textDocument/didChange', {'textDocument': {'uri': uri, 'version': 2}, 'contentChanges': out})

    def save(self, uri):
        self.notify('textDocument/didSave', {'textDocument': {'uri': uri}})

    def at(self, uri, line, ch):
        return {'textDocument': {'uri': uri}, 'position': {'line': line, 'character': ch}}

    def hover(self, uri, line, ch):
        return self.request('textDocument/hover', self.at(uri, line, ch))

    def definition(self, uri, line, ch):
        return self.request('textDocument/definition', self.at(uri, line, ch))

    def completion(self, uri, line, ch, kind=1):
        p = self.at(uri, line, ch)
        p['context'] = {'triggerKind': kind}
        return self.request('textDocument/completion', p)

    def symbols(self, uri):
        return self.request('textDocument/documentSymbol', {'textDocument': {'uri': uri}})

    def actions(self, uri, line, ch, line2=None, ch2=None):
        return self.request('textDocument/codeAction', {'textDocument': {'uri': uri}, 'context': {'diagnostics': []},
                            'range': {'start': {'line': line, 'character': ch}, 'end': {'line': line if line2 is None else line2, 'character': ch if ch2 is None else ch2}}})

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        finally:
            self.err.close()
            shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
