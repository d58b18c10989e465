"""A separate process under another hash seed and timezone: loads pickles, says what it saw, pickles again.

frames: 8-byte length + pickle of (op, payload); answers the same way.
"""
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile


def _read(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    return f.read(struct.unpack("<Q", h)[0])


def _write(f, b):
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


class Peer:
    """loc: a locale the process runs under; .locale is None if it can't be had here; settings: of the interpreter differ, too"""

    def __init__(self, tz="Asia/Tokyo", hashseed="12345", flags=(), loc=None, settings=False):
        env = dict(os.environ, VERIF_PEER_SETTINGS="1" if settings else "", TZ=tz, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1")
        self.locale, self.dir = None, None
        if loc:
            self.dir = tempfile.mkdtemp(prefix="verif-locale-")
            try:
                subprocess.run(["localedef", "-c", "-i", loc, "-f", "UTF-8", os.path.join(self.dir, loc + ".UTF-8")],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                env.update(LOCPATH=self.dir, LC_ALL=loc + ".UTF-8")
            except (OSError, subprocess.SubprocessError):
                pass
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, "-B", *flags, "-m", "mon.peer"], cwd=root, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        if loc and "LOCPATH" in env:
            self.locale = self.ask("locale", None)

    def ask(self, op, payload):
        _write(self.p.stdin, pickle.dumps((op, payload)))
        b = _read(self.p.stdout)
        if b is None:
            raise RuntimeError("peer process ended")
        return pickle.loads(b)

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def _settings():
    """of this process, which no result may depend on"""
    import calendar
    import decimal
    for c in (decimal.DefaultContext, decimal.getcontext()):
        c.prec, c.rounding = 4, decimal.ROUND_UP
        c.traps[decimal.Inexact] = False
    calendar.setfirstweekday(calendar.SUNDAY)


def main():
    import time
    time.tzset()
    if os.environ.get("VERIF_PEER_SETTINGS"):
        _settings()
    from . import alone, core, spec, vals
    W = core.load()
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        b = _read(sys.stdin.buffer)
        if b is None:
            out.close()
            return
        op, x = pickle.loads(b)
        try:
            if op == "unpickle":
                # list of (pickle of a value, protocol to answer in)
                r = []
                for data, proto in x:
                    try:
                        o = pickle.loads(data)
                        r.append((vals.snap(o), str(o), type(o).__module__, pickle.dumps(o, proto), None))
                    except Exception as e:
                        r.append((None, None, None, None, repr(e)))
            elif op == "calls":
                # list of (operation, model args, kwargs): outcomes as plain data
                r = []
                bld = core.Builder(W, direct=True)
                for call in x:
                    r.append(alone.run(W, bld, call, hashes=False))
            elif op == "locale":
                import locale
                try:
                    r = locale.setlocale(locale.LC_ALL, "")
                except locale.Error:
                    r = None
            elif op == "tz":
                core.set_tz(x)
                r = None
            else:
                raise ValueError(op)
            _write(out, pickle.dumps(r))
        except BaseException as e:
            _write(out, pickle.dumps(e))
            raise


if __name__ == "__main__":
    main()
