"""A simulated network: name lookup, connections and one HTTP server, behind Python's socket module.

Real requests/urllib3/http.client/urllib/pandas code runs on top. A plan decides, per connection, what fails and when.
"""
import io
import socket as _socket

REAL = dict(socket=_socket.socket, getaddrinfo=_socket.getaddrinfo)
RESET = (ConnectionResetError, (104, 'Connection reset by peer'))


class Net:
    """plan: {'dns': code or None, 'conns': [per-connection dict]}; serve(path) -> (status, headers, body bytes)."""

    def __init__(self, serve, conns=(), dns=None, keep=False):
        self.serve, self.conns, self.dns, self.keep = serve, list(conns), dns, keep     # keep: the server keeps connections open
        self.log, self.sockets, self.fired, self.now = [], [], {}, 0.0

    def count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def open_sockets(self):
        return [s.peer for s in self.sockets if not s.really_closed]

    def getaddrinfo(self, host, port, *a, **k):
        self.log.append(('lookup', str(host)))
        if self.dns:
            self.count('dns')
            raise _socket.gaierror(self.dns, 'simulated name lookup failure')
        return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, '', ('192.0.2.1', int(port or 80)))]

    def make(self, *a, **k):
        plan = self.conns[len(self.sockets)] if len(self.sockets) < len(self.conns) else {}
        s = Sock(self, plan)
        self.sockets.append(s)
        return s

    def __enter__(self):
        net = self

        class S(Sock):
            def __new__(cls, *a, **k):
                return net.make()

            def __init__(self, *a, **k):
                pass
        import os
        self.quiet = os.pipe()      # for polls: nothing to read, not closed
        _socket.socket = S
        _socket.getaddrinfo = self.getaddrinfo
        return self

    def __exit__(self, *a):
        import os
        for f in self.quiet:
            os.close(f)
        _socket.socket, _socket.getaddrinfo = REAL['socket'], REAL['getaddrinfo']


class Sock:
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, net, plan):
        self.net, self.plan = net, plan
        self.sent, self.out, self.pos, self.nread = b'', None, 0, 0
        self.timeout, self.closed, self.refs, self.peer = None, False, 0, None

    # -- set-up
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def setblocking(self, f):
        self.timeout = None if f else 0.0

    def bind(self, *a):
        pass

    def getpeername(self):
        return self.peer

    def getsockname(self):
        return ('192.0.2.9', 40000)

    def fileno(self):
        return -1 if self.closed else self.net.quiet[0]

    def connect(self, addr):
        self.peer = addr
        self.net.log.append(('connect', addr[1]))
        f = self.plan.get('connect')
        if f:
            self.net.count('connect ' + f)
            raise {'refused': ConnectionRefusedError(111, 'Connection refused'), 'timeout': TimeoutError(110, 'timed out'),
                   'unreachable': OSError(101, 'Network is unreachable')}[f]

    # -- request
    def sendall(self, data, flags=0):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        if self.plan.get('send') == 'reset':
            self.net.count('reset while sending')
            raise RESET[0](*RESET[1])
        if self.out is not None and self.pos >= self.stop and not self.ending:      # next request
            self.out, self.sent, self.pos = None, b'', 0
        self.sent += bytes(data)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def _answer(self):
        line = self.sent.split(b'\r\n')[0].decode('latin1').split()
        path = line[1] if len(line) > 1 else '/'
        p = self.plan
        status, headers, body = self.net.serve(path)
        if p.get('status'):
            status = p['status']
            self.net.count('http %d' % status)
        if p.get('garbage') is not None:
            self.net.count('garbage answer')
            self.out = b'\x16\x03\x01 not http\r\n\r\n' if p['garbage'] == 'binary' else b'HTTP/1.1 OK nope\r\n\r\n'
        else:
            framing = p.get('framing', 'length')
            keep = self.net.keep and b'connection: close' not in self.sent.lower()
            h = dict(headers, Connection='keep-alive' if keep else 'close')
            if framing == 'length':
                h['Content-Length'] = str(len(body))
                data = body
            else:
                h['Transfer-Encoding'] = 'chunked'
                n = p.get('chunk', 1000)
                data = b''.join(b'%x\r\n%s\r\n' % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n)) + b'0\r\n\r\n'
            head = 'HTTP/1.1 %d %s\r\n%s\r\n' % (status, 'Status', ''.join('%s: %s\r\n' % x for x in h.items()))
            self.out = head.encode() + data
            self.body_at = len(head)
        self.net.log.append(('request', path, status, len(self.out)))
        self.stop = len(self.out)
        self.ending = None
        f = p.get('end')
        if f:      # connection ends early: fraction of the answer that still arrives
            n = int(p.get('frac', 0.5) * len(self.out))
            if p.get('framing') == 'chunked':
                n = min(n, len(self.out) - 5)      # without the final chunk
            self.stop, self.ending = min(n, len(self.out) - 1), f

    # -- answer
    def _recv(self, n):
        if self.closed and self.refs <= 0:
            raise OSError(9, 'Bad file descriptor')
        if self.plan.get('send') == 'reset':
            raise RESET[0](*RESET[1])
        if self.out is None:
            self._answer()
        d = self.plan.get('delay', 0)
        if d:
            self.net.now += d
            if self.timeout is not None and d > self.timeout:
                self.net.count('timeout')
                raise TimeoutError('timed out')
        self.nread += 1
        if self.pos >= self.stop:
            if self.ending == 'reset':
                self.net.count('reset while receiving')
                raise RESET[0](*RESET[1])
            if self.ending == 'eof':
                self.net.count('connection closed early')
            return b''
        k = min(n, self.plan.get('piece', 65536), self.stop - self.pos)
        data = self.out[self.pos:self.pos + k]
        self.pos += k
        return data

    def recv(self, n, flags=0):
        return self._recv(n)

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self._recv(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def makefile(self, mode='r', buffering=None, **k):
        self.refs += 1
        raw = Raw(self)
        return io.BufferedReader(raw, buffering if buffering and buffering > 0 else 8192)

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def detach(self):
        self.closed = True
        return -1

    @property
    def really_closed(self):
        return self.closed and self.refs <= 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b, len(b))

    def close(self):
        if not self.closed:
            self.sock.refs -= 1
        super().close()
