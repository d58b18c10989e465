"""A process that has made no call of the code under test; it forks a child for each request, which makes
that single call and reports the outcome: what the call gives alone."""
import datetime as dt
import os
import pickle
import random
import struct

from . import core, spec, vals


def outcome(got, obj, hashes=True):
    """plain, comparable description of an outcome"""
    if type(got) is spec.Exc:
        return ("raises", got.type.__name__)
    if type(got) in vals.NAME:
        return ("value", vals.enc(got), str(obj), repr(obj), hash(obj) if hashes else None)
    if isinstance(got, (dt.datetime, dt.time)) and got.tzinfo is None and got.fold:
        got = got.replace(fold=0)       # without meaning, and not part of equality
    if isinstance(got, dt.datetime) and type(got.tzinfo) is dt.timezone:
        got = got.replace(tzinfo=dt.timezone(got.utcoffset()), fold=0)      # without the abbreviation, likewise
    return ("value", repr(got), type(got).__name__, None, None)


def run(W, build, call, hashes=True):
    name, args, kw = call
    rng = random.Random(0)
    try:
        ra, rk = [build(a, rng) for a in args], {k: build(v, rng) for k, v in kw.items()}
    except core.BuildError:
        return None
    got, obj = core.observe(W, name, ra, rk)
    return outcome(got, obj, hashes)


def _rd(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def _recv(fd):
    h = _rd(fd, 8)
    return None if h is None else pickle.loads(_rd(fd, struct.unpack("<Q", h)[0]))


def _send(fd, x):
    b = pickle.dumps(x)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class Alone:
    def __init__(self, W):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for fd in range(3, 256):
                    if fd not in (r1, w2):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                self._serve(W, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def ask(self, calls, tz):
        """outcomes of the calls, each in its own process"""
        _send(self.w, (calls, tz))
        return _recv(self.r)

    @staticmethod
    def _serve(W, rfd, wfd):
        while True:
            q = _recv(rfd)
            if q is None:
                return
            calls, tz = q
            out = []
            for c in calls:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        core.set_tz(tz)
                        _send(w, run(W, core.Builder(W, direct=True), c))
                    finally:
                        os._exit(0)
                os.close(w)
                out.append(_recv(r))
                os.close(r)
                os.waitpid(pid, 0)
            _send(wfd, out)
