"""datetime for texts and instants with unknown parts (exact seconds)."""
import calendar
import datetime as real
import re

from . import sym
from .sym import SymInt, SymReal, cur, is_sym

EPOCH = real.datetime(1970, 1, 1)


class Span:
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s.toreal() if isinstance(self.s, SymInt) else self.s

    def __neg__(self):
        return Span(-self.s)

    def __mul__(self, k):
        return Span(self.s * k)

    __rmul__ = __mul__

    def __add__(self, o):
        return Span(self.s + o.total_seconds()) if hasattr(o, "total_seconds") else NotImplemented

    def __radd__(self, o):
        if isinstance(o, real.datetime):
            return Instant((o.replace(tzinfo=None) - EPOCH).total_seconds() + self.s)
        return self.__add__(o)

    def __rsub__(self, o):
        if isinstance(o, real.datetime):
            return Instant((o.replace(tzinfo=None) - EPOCH).total_seconds() - self.s)
        return (-self).__add__(o)

    def __truediv__(self, o):
        return self.s / (o.total_seconds() if hasattr(o, "total_seconds") else o)

    def __sub__(self, o):
        return Span(self.s - o.total_seconds()) if hasattr(o, "total_seconds") else NotImplemented


class Instant:
    """Seconds since 1970."""

    def __init__(self, s, tz=None):
        self.s = s

    def __add__(self, o):
        return Instant(self.s + o.total_seconds())

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Instant):
            return Span(self.s - o.s)
        if isinstance(o, real.datetime):
            return Span(self.s - (o.replace(tzinfo=None) - EPOCH).total_seconds())
        return Instant(self.s - o.total_seconds())

    def timestamp(self):
        return self.s

    def replace(self, **kw):
        if set(kw) - {"tzinfo"}:
            raise sym.Unsupported("datetime.replace")
        return self


def _number(s):
    v = cur().untoken(s)
    if v is None:
        raise ValueError("time data does not match format")
    return v


def _field(s, lo, hi):
    if not 1 <= len(s) <= 2:
        raise ValueError("time data does not match format")
    v = int(s) if s.isdigit() and not sym.has_tok(s) else _number(s)
    if isinstance(v, SymReal):
        raise sym.Unsupported("date field")
    if bool(v < lo) or bool(v > hi):
        raise ValueError("time data does not match format")
    return v


def strptime(s, fmt):
    if not sym.has_tok(s):
        return real.datetime.strptime(s, fmt)
    if fmt not in ("%Y:%m:%d %H:%M:%S.%f", "%Y:%m:%d %H:%M:%S"):
        raise sym.Unsupported("strptime " + fmt)
    m = re.fullmatch(r"(\d{4}:\d{1,2}:\d{1,2})\s+([^:]*):([^:]*):([^:]*)", s)
    if not m:
        raise ValueError("time data does not match format")
    day = (real.datetime.strptime(m.group(1), "%Y:%m:%d") - EPOCH).total_seconds()
    h, mi = _field(m.group(2), 0, 23), _field(m.group(3), 0, 59)
    sec = m.group(4)
    tok = cur().tokens.get(sec)
    if isinstance(tok, SymReal) and fmt.endswith("%f"):
        # a number printed with its decimals
        if bool(tok < 0) or bool(tok >= 60):
            raise ValueError("time data does not match format")
        v = tok
    else:
        ip, dot, fp = sec.partition(".")
        if bool(dot) != fmt.endswith("%f") or (dot and not 1 <= len(fp) <= 6):
            raise ValueError("time data does not match format")
        v = _field(ip, 0, 59)
        if fp:
            f = _number(fp) if sym.has_tok(fp) else int(fp)
            v = v + (f.toreal() if is_sym(f) else float(f)) / 10.0 ** len(fp)
    return Instant(day + h * 3600 + mi * 60 + v)


class _DT(type(real.datetime)):
    pass


class datetime:
    strptime = staticmethod(strptime)

    def __new__(cls, *a, **k):
        return real.datetime(*a, **k)

    def __class_getitem__(cls, k):
        return cls


for _n in ("utcnow", "now", "fromtimestamp", "utcfromtimestamp", "min", "max"):
    setattr(datetime, _n, getattr(real.datetime, _n))


class timedelta:
    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        s = seconds + 60 * minutes + 3600 * hours + 86400 * days + 604800 * weeks
        if is_sym(microseconds) or microseconds:
            s = s + microseconds / 1e6
        if is_sym(milliseconds) or milliseconds:
            s = s + milliseconds / 1e3
        return Span(s) if is_sym(s) else real.timedelta(seconds=s)


class Module:
    datetime = datetime
    timedelta = timedelta

    def __getattr__(self, n):
        return getattr(real, n)


MODULE = Module()
