"""ssl.SSLSocket over simulated sockets: the real OpenSSL state machine on memory buffers."""

from __future__ import annotations

import os
import ssl
import typing as t

from . import kernel, net, sync

CERTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "certs")


def cert(name: str) -> str:
    return os.path.join(CERTS, f"{name}.pem")


def server_context(ca: str | None = None, name: str = "server") -> ssl.SSLContext:
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(cert(name))
    if ca:
        ctx.verify_mode = ssl.CERT_REQUIRED
        ctx.load_verify_locations(cert(ca))
    return ctx


def client_context(ca: str | None = "ca", name: str | None = None) -> ssl.SSLContext:
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    if ca:
        ctx.load_verify_locations(cert(ca))
    else:
        ctx.verify_mode = ssl.CERT_NONE
    if name:
        ctx.load_cert_chain(cert(name))
    return ctx


class SimSSLSocket(net.SimSocket):
    """Keeps to what CPython's SSLSocket does around the SSL object."""

    _sslobj: t.Any

    @classmethod
    def wrap(cls, ctx: ssl.SSLContext, sock: net.SimSocket, server_side: bool, do_handshake_on_connect: bool,
             suppress_ragged_eofs: bool, server_hostname: t.Any) -> "SimSSLSocket":
        if server_side and server_hostname:
            raise ValueError("server_hostname can only be specified in client mode")
        if ctx.check_hostname and not server_hostname:
            raise ValueError("check_hostname requires server_hostname")
        s = cls.__new__(cls)
        s._proc = sock._proc
        s._timeout = sock._timeout
        s._io_refs = 0
        s._closed = False
        s._k = sock._k
        s._fd = sock.detach()
        s._type = sock._type
        s._ragged = suppress_ragged_eofs
        s._bin = ssl.MemoryBIO()
        s._bout = ssl.MemoryBIO()
        s._wlock = sync.SimLock()
        s.context = ctx
        s.server_side = server_side
        s._sslobj = None
        try:
            s.getpeername()
        except OSError:
            return s
        try:
            s._sslobj = ctx.wrap_bio(s._bin, s._bout, server_side=server_side, server_hostname=server_hostname)._sslobj
            if do_handshake_on_connect:
                if s._timeout == 0.0:
                    raise ValueError("do_handshake_on_connect should not be specified for non-blocking sockets")
                s.do_handshake()
        except BaseException:
            s.close()
            raise
        return s

    # -- the transport below TLS
    def _flush(self, end: float | None, reader: bool = False) -> None:
        if reader or not self._bout.pending:
            return  # after the handshake only writers have something to send
        with self._wlock:
            while self._bout.pending:
                mv = memoryview(self._bout.read())
                while len(mv):
                    m = self._send_some(mv, self._timeout != 0.0, end)
                    mv = mv[m:]
                    if len(mv):
                        self._sim.point("tls.partial")

    def _fill(self, end: float | None) -> None:
        sim = self._sim
        left = None if end is None else end - sim.now
        if left is not None and left <= 0 and self._timeout != 0.0:
            raise TimeoutError("The read operation timed out")
        saved, self._timeout = self._timeout, left if self._timeout != 0.0 else 0.0
        try:
            # as much as there is: OpenSSL reads records, not requests
            b = bytearray(16384 + 300)
            n = net.SimSocket.recv_into(self, b, len(b))
        finally:
            self._timeout = saved
        if n:
            self._bin.write(bytes(b[:n]))
        else:
            self._bin.write_eof()

    def _pump(self, op: t.Callable[[], t.Any], reader: bool = False) -> t.Any:
        sim = self._sim
        end = None if not self._timeout else sim.now + self._timeout
        while True:
            try:
                r = op()
            except ssl.SSLWantReadError:
                self._flush(end, reader)
                try:
                    self._fill(end)
                except BlockingIOError:
                    raise ssl.SSLWantReadError(ssl.SSL_ERROR_WANT_READ, "The operation did not complete (read)") from None
                continue
            except ssl.SSLError:
                # the alert for the peer
                try:
                    self._flush(end)
                except OSError:
                    pass
                raise
            self._flush(end, reader)
            return r

    # -- SSLSocket
    def _check_connected(self) -> None:
        if self._sslobj is None:
            self.getpeername()

    def do_handshake(self, block: bool = False) -> None:
        self._sim.point("tls.handshake")
        self._check_connected()
        obj = self._sslobj
        if obj is None:
            raise OSError(107, "Transport endpoint is not connected")
        self._pump(obj.do_handshake)

    def _read(self, n: int, buffer: t.Any = None) -> t.Any:
        obj = self._sslobj
        if obj is None:
            raise ValueError("Read on closed or unwrapped SSL socket.")
        try:
            if buffer is not None:
                return self._pump(lambda: obj.read(n, buffer), True)
            return self._pump(lambda: obj.read(n), True)
        except ssl.SSLError as x:
            if x.args[0] == ssl.SSL_ERROR_EOF and self._ragged:
                return 0 if buffer is not None else b""
            raise

    def recv_into(self, buffer: t.Any, nbytes: int = 0, flags: int = 0) -> int:
        self._check_closed()
        if self._sslobj is None:
            return net.SimSocket.recv_into(self, buffer, nbytes, flags)
        n = nbytes or len(memoryview(buffer).cast("B"))
        if n == 0:
            return 0
        return t.cast(int, self._read(n, buffer))

    def recv(self, n: int, flags: int = 0) -> bytes:
        self._check_closed()
        if self._sslobj is None:
            b = bytearray(n)
            m = net.SimSocket.recv_into(self, b, n, flags)
            return bytes(b[:m])
        return t.cast(bytes, self._read(n))

    read = recv

    def _check_closed(self) -> None:
        pass

    def send(self, data: t.Any, flags: int = 0) -> int:
        obj = self._sslobj
        if obj is None:
            return net.SimSocket.send(self, data, flags)
        self._sim.point("send")
        return t.cast(int, self._pump(lambda: obj.write(data)))

    def sendall(self, data: t.Any, flags: int = 0) -> None:
        if self._sslobj is None:
            return net.SimSocket.sendall(self, data, flags)
        mv = memoryview(data).cast("B")
        count = 0
        k = self._kk()
        k.users += 1
        try:
            while count < len(mv):
                count += self.send(mv[count : count + 16384])
        finally:
            k.users -= 1
            k.maybe_release()

    def shutdown(self, how: int) -> None:
        self._sslobj = None
        net.SimSocket.shutdown(self, how)

    def _real_close(self) -> None:
        self._sslobj = None
        net.SimSocket._real_close(self)

    def pending(self) -> int:
        return self._sslobj.pending() if self._sslobj is not None else 0

    def version(self) -> t.Any:
        return self._sslobj.version() if self._sslobj is not None else None

    def getpeercert(self, binary_form: bool = False) -> t.Any:
        return self._sslobj.getpeercert(binary_form) if self._sslobj is not None else None


_real_wrap = ssl.SSLContext.wrap_socket


def _wrap_socket(self: ssl.SSLContext, sock: t.Any, server_side: bool = False, do_handshake_on_connect: bool = True,
                 suppress_ragged_eofs: bool = True, server_hostname: t.Any = None, session: t.Any = None) -> t.Any:
    if isinstance(sock, net.SimSocket) and kernel.in_sim():
        return SimSSLSocket.wrap(self, sock, server_side, do_handshake_on_connect, suppress_ragged_eofs, server_hostname)
    return _real_wrap(self, sock, server_side, do_handshake_on_connect, suppress_ragged_eofs, server_hostname, session)


def install() -> None:
    ssl.SSLContext.wrap_socket = _wrap_socket  # type: ignore[method-assign,assignment]
