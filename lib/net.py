"""The real HTTPS layer and the real program over the loopback network, and clients and
servers of another make (Python's) to face them."""
import os, random, select, socket, ssl, subprocess, tempfile, threading, time, json
import drv, build
ENV = dict(drv.ENV, BRSKI_LOG='/dev/null')
for k in ('SSL_CERT_FILE', 'SSL_CERT_DIR'): ENV.pop(k, None)
LOCK = threading.Lock()
def port(host='127.0.0.1', used=set()):
    """a port nobody listens on, outside those the system hands out"""
    while True:
        with LOCK:
            p = random.SystemRandom().randrange(14000, 31000)
            if p in used: continue
            used.add(p)
        s = socket.socket(socket.AF_INET6 if ':' in host else socket.AF_INET)
        try:
            s.bind((host, p)); return p
        except OSError: continue
        finally: s.close()
class Net:
    """harness/net_main.cpp"""
    def __init__(self, env=None):
        self.err = tempfile.NamedTemporaryFile(prefix='net', suffix='.err')
        self.p = subprocess.Popen([build.build('net', 'asan')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=dict(ENV, **(env or {})))
        self.lock = threading.Lock()
    def calll(self, op, pairs):
        with self.lock:
            try:
                self.p.stdin.write(drv.line(op, pairs).encode() + b'\n'); self.p.stdin.flush()
                l = self.p.stdout.readline()
            except BrokenPipeError: l = b''
            if not l: raise Died(self.stderr())
            return json.loads(l)
    def call(self, op, **kw): return self.calll(op, drv.flat(kw))
    def stderr(self):
        try: self.p.wait(5)
        except subprocess.TimeoutExpired: pass
        return open(self.err.name, 'rb').read()[-3000:].decode('latin1')
    def up(self, host, p, bg):
        """waits for the server started with bg; False when it has ended instead"""
        for _ in range(1500):
            if self.call('ended', bg=bg) is not None: return False
            if listening(host, p): return True
            time.sleep(.01)
        raise RuntimeError('server neither up nor ended')
    def close(self):
        self.p.kill(); self.p.wait(); self.err.close()
class Died(Exception): pass
def listening(host, p):
    s = socket.socket(socket.AF_INET6 if ':' in host else socket.AF_INET); s.settimeout(2)
    try: s.connect((host, p)); return True
    except OSError: return False
    finally: s.close()
def cctx(cert=None, key=None, tls=None):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); c.check_hostname = False; c.verify_mode = ssl.CERT_NONE
    if cert: c.load_cert_chain(cert, key)
    if tls == 12: c.maximum_version = ssl.TLSVersion.TLSv1_2
    return c
def connect(host, p, ctx, timeout=8):
    s = socket.create_connection((host, p), timeout)
    try: return ctx.wrap_socket(s, server_hostname='x')
    except BaseException: s.close(); raise
class Answer:
    def __init__(self, status, headers, body): self.status, self.headers, self.body = status, headers, body
    def get(self, k): return [v for n, v in self.headers if n.lower() == k.lower()]
def read_answer(f, head=False):
    """one answer from the file, None when the connection ends before it"""
    while True:
        l = f.readline(65536)
        if not l: return None
        p = l.split(None, 2)
        if len(p) < 2 or not p[0].startswith(b'HTTP/1.') or not p[1].isdigit(): return Answer(-1, [], l)
        status = int(p[1]); hs = []
        while True:
            l = f.readline(65536)
            if not l: return None
            if l in (b'\r\n', b'\n'): break
            n, _, v = l.partition(b':'); hs.append((n.decode('latin1').strip(), v.decode('latin1').strip()))
        if status == 100: continue
        break
    a = Answer(status, hs, b'')
    if head or status in (204, 304): return a
    n = a.get('Content-Length')
    if n:
        a.body = f.read(int(n[0]))
        if len(a.body) != int(n[0]): return None
    elif 'chunked' in a.get('Transfer-Encoding'):
        while True:
            l = f.readline(); k = int(l.strip() or b'0', 16)
            if not k: f.readline(); break
            a.body += f.read(k); f.readline()
    else: a.body = f.read()
    return a
def http(method, path, body=b'', ct=None, headers=(), framing='length', version='1.1'):
    """the bytes of a request"""
    h = ['%s %s HTTP/%s' % (method, path, version), 'Host: localhost']
    if ct is not None: h.append('Content-Type: ' + ct)
    h += ['%s: %s' % x for x in headers]
    t = body
    if framing == 'length' and (body or method in ('POST', 'PUT', 'PATCH')): h.append('Content-Length: %d' % len(body))
    if framing == 'chunked':
        h.append('Transfer-Encoding: chunked'); n = max(1, len(body) // 3); t = b''
        for i in range(0, len(body), n): t += b'%x\r\n' % len(body[i:i + n]) + body[i:i + n] + b'\r\n'
        t += b'0\r\n\r\n'
    return '\r\n'.join(h).encode('latin1') + b'\r\n\r\n' + t
def ask(host, p, ctx, reqs, timeout=8):
    """reqs: (bytes, is it a HEAD). Returns (server certificate or None, answers)"""
    try: s = connect(host, p, ctx, timeout)
    except (OSError, ssl.SSLError): return None, [None] * len(reqs)
    out = []
    try:
        cert = s.getpeercert(binary_form=True); f = s.makefile('rb')
        for r, head in reqs:
            try:
                s.sendall(r); out.append(read_answer(f, head))
            except (OSError, ssl.SSLError): out.append(None)
        return cert, out
    finally: s.close()
class Server:
    """A TLS server that answers each connection with given bytes, noting what it got"""
    def __init__(self, cert, key, host='127.0.0.1', tls=None, want_client=True):
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); self.ctx.load_cert_chain(cert, key)
        if tls == 12: self.ctx.maximum_version = ssl.TLSVersion.TLSv1_2
        self.want = want_client
        self.sock = socket.socket(); self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.port = port(host); self.sock.bind((host, self.port)); self.sock.listen(50)
        self.got = []; self.reply = b''; self.stop = False
        self.t = threading.Thread(target=self.run, daemon=True); self.t.start()
    def run(self):
        while not self.stop:
            try: c, _ = self.sock.accept()
            except OSError: return
            threading.Thread(target=self.one, args=(c,), daemon=True).start()
    def one(self, c):
        c.settimeout(8); reply = self.reply; g = dict(raw=b'', head=b'', body=b'')
        try:
            s = self.ctx.wrap_socket(c, server_side=True)
        except (OSError, ssl.SSLError): c.close(); return
        try:
            g['client'] = s.getpeercert(binary_form=True)
            f = s.makefile('rb'); n = 0
            while True:
                l = f.readline()
                if not l: break
                g['head'] += l
                if l == b'\r\n': break
                if l.lower().startswith(b'content-length:'): n = int(l.split(b':')[1])
            if g['head']:
                self.got.append(g)
                if reply is not None:
                    g['body'] = f.read(n)
                    g['done'] = True; s.sendall(reply)
        except (OSError, ssl.SSLError, ValueError): pass
        finally:
            try: s.unwrap()
            except (OSError, ssl.SSLError, ValueError): pass
            s.close(); c.close()
    def close(self):
        self.stop = True; self.sock.close()
