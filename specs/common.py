"""shared pieces of the bounded stand-ins"""
import json
import os
import signal
import time
import traceback


class TooLong(BaseException):
    pass


def _alarm(*a):
    raise TooLong()


class limit(object):
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s, 1.0)     # again, in case the first one is swallowed

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


_SRC = []


def unknown_name(e, tb):
    """an attribute the harness asks for which occurs nowhere in the source: renamed, nothing can be said"""
    import re
    if not isinstance(e, AttributeError) or '/aaf2/' in tb[-1].filename:
        return False
    m = re.search(r"attribute '(\w+)'", str(e))
    name = getattr(e, 'name', None) or (m and m.group(1))
    if not name or 'NoneType' in str(e):
        return False
    if not _SRC:
        import aaf2
        d = os.path.dirname(aaf2.__file__)
        _SRC.append('\n'.join(open(os.path.join(r, f), encoding='utf-8').read() for r, _, fs in os.walk(d) for f in fs if f.endswith('.py')))
    return not re.search(r'\b%s\b' % re.escape(name), _SRC[0])


class Renamed(Exception):
    pass


def guarded(check, inp, tlimit=30):
    """run one concrete case; an exception of the code under test or a hang is a finding"""
    try:
        with limit(tlimit):
            return check(inp)
    except TooLong:
        return 'did not terminate within %d s' % tlimit
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if unknown_name(e, tb):
            raise Renamed(str(e))
        where = [f for f in tb if '/aaf2/' in f.filename]
        w = where[-1] if where else tb[-1]
        return 'raised %s: %s (at %s:%s %s)' % (type(e).__name__, e, os.path.basename(w.filename), w.lineno, w.name)


def drive(rng, budget, tier, gen, check, nq=2000, nt=100000, tlimit=30, shrink=None, keyof=None):
    """gen(rng, i) -> JSON-able input or None (stop); check(input) -> None | text"""
    end = time.time() + budget
    n, seen, samples = 0, set(), []
    cap = nq if tier == 'quick' else nt
    viols, keys = [], set()
    while time.time() < end and n < cap:
        inp = gen(rng, n)
        if inp is None:
            break
        n += 1
        seen.add(hash(repr(inp)))
        try:
            r = guarded(check, inp, tlimit)
        except Renamed as e:
            samples.append('stopped, the harness does not fit the code: %s' % e)
            break
        if r:
            k = keyof(inp, r) if keyof else None
            if k is not None:
                if k not in keys:
                    keys.add(k)
                    viols.append(dict(what=r, input=inp, key=k))
                continue
            if shrink:
                inp, r = minimise(inp, r, check, shrink, tlimit)
            viols.append(dict(what=r, input=inp))
            break
        if len(samples) < 1:
            s = repr(inp)
            samples.append(s[:300])
    return dict(evaluations=n, distinct=len(seen), samples=samples, violations=viols)


def minimise(inp, r, check, shrink, tlimit, budget=8):
    end = time.time() + budget
    again = True
    while again and time.time() < end:
        again = False
        for c in shrink(inp):
            if time.time() > end:
                break
            try:
                x = guarded(check, c, tlimit)
            except Renamed:
                x = None
            if x:
                inp, r, again = c, x, True
                break
    return inp, r


def drop_chunks(ops):
    """candidate shorter operation lists"""
    n = len(ops)
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            yield ops[:i] + ops[i + size:]
        if size == 1:
            break
        size //= 2


def scratch():
    """a private scratch directory path, created"""
    import tempfile
    d = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='pv_', dir=d)


def tmpfile():
    import tempfile
    d = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.TemporaryFile(dir=d)


class Mem(object):
    """an unbuffered-looking in-memory binary file which is not a BytesIO (the
    container treats BytesIO objects as always newly created)"""

    def __init__(self, data=b'', mode='rb+'):
        import io
        self.b = io.BytesIO(data)
        self.mode = mode

    def read(self, *a): return self.b.read(*a)
    def readinto(self, b): return self.b.readinto(b)
    def write(self, d): return self.b.write(d)
    def seek(self, *a): return self.b.seek(*a)
    def tell(self): return self.b.tell()
    def truncate(self, n=None):
        # like a real file: shortens or extends with zeros
        n = self.b.tell() if n is None else n
        have = len(self.b.getbuffer())
        if have < n:
            pos = self.b.tell()
            self.b.seek(have)
            self.b.write(bytes(n - have))
            self.b.seek(pos)
        else:
            self.b.truncate(n)
        return n

    def flush(self): pass
    def close(self): pass
    def getvalue(self): return self.b.getvalue()


class AafFiles(object):
    """AAF files of one case in a private scratch directory that is removed at the end"""

    def __enter__(self):
        self.d = scratch()
        self.open_files = []
        return self

    def __exit__(self, *a):
        import shutil
        for f in self.open_files:
            try:
                f.f.close()
            except Exception:
                pass
        shutil.rmtree(self.d, ignore_errors=True)
        return False

    def path(self, name):
        return os.path.join(self.d, name)

    def open(self, name, mode='wb+', **k):
        import aaf2
        f = aaf2.open(self.path(name), mode, **k)
        self.open_files.append(f)
        return f
