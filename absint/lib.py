"""Models of the standard library modules."""

import configparser as _cp
import importlib
import io
import itertools as _it
import json as _json
import logging
import math
import os
import pathlib
import posixpath
import struct as _struct

from . import bdd
from .bdd import conj, disj, neg, implies
from .values import *
from .objects import *
from . import natives as N
from . import methods as M
from .natives import Model, mklist, mkdict, guarded
from .methods import NF, native_call, nat_or_undecided, src_iter, lazy


# --- files -----------------------------------------------------------------------------------


def _chk_open(it, f):
    c = it.truth(f.closed) if not isinstance(f.closed, bool) else (1 if f.closed else 0)
    if c:
        it.may_raise(c, ValueError, "I/O operation on closed file.")


def has_text(s):
    """a snapshot contains text that is not plain ASCII for sure"""
    if isinstance(s, Snap):
        return any(has_text(x) for e in s.items for x in e[1:])
    if isinstance(s, G):
        return any(has_text(x) for _, x in s.alts)
    if isinstance(s, str):
        return not s.isascii()
    if isinstance(s, SStr):
        return any(has_text(p) for p in s.parts)
    return isinstance(s, (Opq, App))


def recode(it, f, x):
    """text as read back in UTF-8 after being written with the file's encoding and newline"""
    enc = getattr(f, "encoding", None)
    if enc in (None, "locale"):
        enc = "utf-8"
    nl = getattr(f, "newline", None)
    if nl in ("\r", "\r\n"):
        x = mkstr([p.replace("\n", nl) if isinstance(p, str) else p for p in sparts(x)])
    if enc == "utf-8":
        return x
    err = getattr(f, "errors", None) or "strict"

    def lit(t):
        try:
            return t.encode(enc, err).decode("utf-8", "surrogateescape")
        except UnicodeEncodeError as e:
            it.raise_(UnicodeEncodeError, *e.args)

    def part(p):
        if isinstance(p, str):
            return lit(p)
        if isinstance(p, G):
            return it.lift(lambda y: mkstr([part(q) for q in sparts(y)]) if isinstance(y, (str, SStr)) else part(y), p)
        if isinstance(p, Json):
            o = p.opts if isinstance(p.opts, dict) else {}
            if lit("0") == "0" and (o.get("ensure_ascii", True) or not has_text(p.snap)):
                return p
        elif isinstance(p, (Fmt, BitCh)) and lit("0") == "0":
            return p
        if err == "strict":
            it.may_raise(bdd.var(("unencodable", enc, key(p))), UnicodeEncodeError, enc, "", 0, 1, "ordinal not in range")
        return Opq(("recode", key(p), enc, err))

    return mkstr([part(p) for p in sparts(x)])


def file_write(it, f, s):
    _chk_open(it, f)
    if not any(c in f.mode for c in "wax+"):
        it.raise_(ValueError, "not writable")
    s = restrict(s, it.pc)
    given = s

    def one(x):
        if "b" in f.mode:
            x = it.bytes_of(x)
            if not isinstance(x, (bytes, ABytes)):
                it.raise_(TypeError, f"a bytes-like object is required, not '{it.tname(x)}'")
        elif not isinstance(x, (str, SStr)):
            if isinstance(x, App):
                return mkstr([Opq(("str", key(x)))])
            it.raise_(TypeError, f"write() argument must be str, not {it.tname(x)}")
        if "b" not in f.mode:
            x = recode(it, f, x)
        return x

    s = it.lift(one, s)
    it.world.inject(it, "write", f.abspath, OSError, 28, "No space left on device")
    f.writes.append((it.pc, s, it.site()))
    f.node.ops.append(("write", it.pc, s, it.site()))
    e = it.effect("write", path=f.abspath, text=s, file=f)
    return N.length(it, given)


def _get_content(it, f):
    if f.content is None:
        f.content = it.world.content(it, f)
    return f.content


def file_read(it, f, n=-1):
    _chk_open(it, f)
    if f.mode[0] != "r" and "+" not in f.mode:
        it.raise_(ValueError, "not readable")
    it.world.inject(it, "read", f.abspath, OSError, 5, "Input/output error")
    c = _get_content(it, f)

    def one(data, p, k):
        total = N.length(it, data)
        if not isinstance(total, int):
            raise Undecided("file length")
        e = total if k is None or k < 0 else min(total, p + k)
        return (it.getitem(data, SliceObj(p, e, None)), e)

    r = it.lift(one, c, restrict(f.pos, it.pc), it.concretize(n))
    if isinstance(r, G):
        np_ = merge([(g, x[1]) for g, x in r.alts])
        v = merge([(g, x[0]) for g, x in r.alts])
    else:
        v, np_ = r
    f.pos = it.upd(f.pos, np_, f.birth)
    it.effect("read", path=f.abspath, file=f, data=v)
    return v


def file_readline(it, f, *a):
    _chk_open(it, f)
    c = _get_content(it, f)

    def one(data, p):
        if isinstance(data, str):
            i = data.find("\n", p)
            e = len(data) if i < 0 else i + 1
            return (data[p:e], e)
        if isinstance(data, bytes):
            i = data.find(b"\n", p)
            e = len(data) if i < 0 else i + 1
            return (data[p:e], e)
        raise Undecided("readline on symbolic data")

    r = it.lift(one, c, restrict(f.pos, it.pc))
    if isinstance(r, G):
        raise Undecided("readline position")
    f.pos = it.upd(f.pos, r[1], f.birth)
    return r[0]


def file_iter(it, f):
    def gen():
        while True:
            l = file_readline(it, f)
            if not l:
                return
            yield it.pc, l

    return lazy(it, gen())


def file_close(it, f):
    f.closed = it.upd(f.closed, True, f.birth)
    it.effect("close", path=f.abspath, file=f)


def file_seek(it, f, off, whence=0):
    _chk_open(it, f)

    def one(o, w):
        if w == 0:
            return o
        if w == 1:
            return it.binop("Add", restrict(f.pos, it.pc), o)
        return N.length(it, _get_content(it, f)) + o

    p = it.lift(one, it.concretize(off), whence)
    f.pos = it.upd(f.pos, p, f.birth)
    return p


def file_attr(it, f, name):
    if name in ("name",):
        return f.path
    if name == "mode":
        return f.mode
    if name == "closed":
        return restrict(f.closed, it.pc)
    if name == "encoding":
        return f.encoding or "utf-8"
    tab = {
        "write": file_write,
        "read": file_read,
        "read1": file_read,
        "readline": file_readline,
        "readlines": lambda it_, o: N.list_from(it_, file_iter(it_, o)),
        "writelines": lambda it_, o, ls: [guarded(it_, g, lambda: file_write(it_, o, x)) for g, x in it_.entries(ls)] and None,
        "close": file_close,
        "flush": lambda it_, o: _chk_open(it_, o),
        "seek": file_seek,
        "tell": lambda it_, o: restrict(o.pos, it_.pc),
        "readable": lambda it_, o: o.mode[0] == "r" or "+" in o.mode,
        "writable": lambda it_, o: any(c in o.mode for c in "wax+"),
        "seekable": lambda it_, o: True,
        "fileno": lambda it_, o: 100,
        "isatty": lambda it_, o: False,
        "readinto": file_readinto,
        "truncate": lambda it_, o, *a: _undec("truncate"),
        "__enter__": lambda it_, o: ctx_enter(it_, o),
        "__exit__": lambda it_, o, *a: file_close(it_, o),
        "__iter__": lambda it_, o: file_iter(it_, o),
        "__next__": lambda it_, o: it_.next_(file_iter(it_, o)),
    }
    return M.bindm(tab, f, name)


def file_readinto(it, f, buf):
    if not isinstance(buf, ByteArr):
        raise Undecided("readinto")
    v = file_read(it, f, N.length(it, buf.val))

    def one(x, old):
        n = N.length(it, x)
        return (mkbytes(tuple(belems(x)) + tuple(belems(old))[n:]), n)

    r = it.lift(one, v, restrict(buf.val, it.pc))
    if isinstance(r, G):
        M.ba_set(it, buf, merge([(g, t[0]) for g, t in r.alts]))
        return merge([(g, t[1]) for g, t in r.alts])
    M.ba_set(it, buf, r[0])
    return r[1]


def _undec(what):
    raise Undecided(what)


class MemFile(Model):
    """io.StringIO / io.BytesIO"""

    real = io.StringIO

    def __init__(self, it, init=None, newline=None, binary=False):
        self.binary = binary
        self.data = init if init is not None else (b"" if binary else "")
        self.pos = 0
        self.birth = it.pc

    def m_write(self, it, s):
        self.data = it.upd(self.data, it.binop("Add", self.data, it.bytes_of(s) if self.binary else s), self.birth)
        return N.length(it, s)

    def m_writelines(self, it, ls):
        for g, x in it.entries(ls):
            guarded(it, g, lambda: self.m_write(it, x))

    def m_truncate(self, it, *a):
        raise Undecided("truncate")

    def m_getvalue(self, it):
        return restrict(self.data, it.pc)

    m_getbuffer = m_getvalue

    def m_read(self, it, n=-1):
        def one(d, p, k):
            tot = N.length(it, d)
            e = tot if k is None or k < 0 else min(tot, p + k)
            return (it.getitem(d, SliceObj(p, e, None)), e)

        r = it.lift(one, restrict(self.data, it.pc), restrict(self.pos, it.pc), it.concretize(n))
        if isinstance(r, G):
            self.pos = it.upd(self.pos, merge([(g, t[1]) for g, t in r.alts]), self.birth)
            return merge([(g, t[0]) for g, t in r.alts])
        self.pos = it.upd(self.pos, r[1], self.birth)
        return r[0]

    def m_seek(self, it, p, w=0):
        if w:
            raise Undecided("seek")
        self.pos = it.upd(self.pos, p, self.birth)
        return p

    def m_tell(self, it):
        return restrict(self.pos, it.pc)

    def m_close(self, it):
        return None

    m_flush = m_close

    def enter(self, it):
        return self

    def m___enter__(self, it):
        return self


# --- context managers --------------------------------------------------------------------------


def ctx_enter(it, cm):
    if isinstance(cm, FileObj):
        _chk_open(it, cm)
        return cm
    if isinstance(cm, Instance):
        f, _ = cm.cls.lookup("__enter__")
        if f is UNBOUND:
            it.raise_(TypeError, f"'{cm.cls.name}' object does not support the context manager protocol")
        return it.call(it.getattr(cm, "__enter__"), [])
    if isinstance(cm, CtxInst):
        e = it.pull(cm.gen)
        if e is None:
            it.raise_(RuntimeError, "generator didn't yield")
        g, v = e
        if not implies(it.pc, g):
            it.may_raise(neg(g), RuntimeError, "generator didn't yield")
        return v
    if isinstance(cm, GenericCtx):
        if cm.kind == "closing":
            return cm.data
        if cm.kind == "null":
            return cm.data
        if cm.kind == "exitstack":
            return cm
        return None
    if isinstance(cm, Model):
        return cm.enter(it)
    if isinstance(cm, NativeObj):
        return cm
    if isinstance(cm, (bytes, ABytes)):
        return cm  # memoryview
    it.raise_(TypeError, f"'{it.tname(cm)}' object does not support the context manager protocol")


def ctx_exit(it, cm, exc):
    """exc: None, Instance or G of these; returns truthy to suppress"""
    if isinstance(cm, FileObj):
        file_close(it, cm)
        return False
    if isinstance(cm, Instance):
        f = it.getattr(cm, "__exit__")

        def one(e):
            if e is None:
                it.call(f, [None, None, None])
                return False
            return it.call(f, [e.cls, e, None])

        return it.lift(one, restrict(exc, it.pc))
    if isinstance(cm, CtxInst):
        gt = cm.gen.src
        exg = 0
        ealts = []
        for g, e in alts(exc):
            if e is not None:
                k = conj(g, it.pc)
                if k:
                    exg = disj(exg, k)
                    ealts.append((k, e))
        if gt is None or gt.done:
            return False
        gt.inject = ealts
        try:
            r = next(gt)
        except StopIteration:
            r = None
        if r is not None and conj(r[0], it.pc):
            it.may_raise(r[0], RuntimeError, "generator didn't stop")
        return mkbool(exg) if exg else False
    if isinstance(cm, GenericCtx):
        if cm.kind == "closing":
            it.call(it.getattr(cm.data, "close"), [])
            return False
        if cm.kind == "suppress":
            n = 0
            for g, e in alts(exc):
                if e is not None and any(it.exc_match(e, c) for c in cm.data):
                    n = disj(n, conj(g, it.pc))
            return mkbool(n)
        if cm.kind == "exitstack":
            sup = 0
            cur = exc
            while cm.data:
                g, kind, x = cm.data.pop()
                full = it.pc
                p = conj(full, g)
                if not p:
                    continue
                it.pc = p
                try:
                    if kind == "cm":
                        r = ctx_exit(it, x, restrict(cur, it.pc))
                        if r is not False and r is not None:
                            s = conj(it.truth(r), it.pc)
                            if s:
                                sup = disj(sup, s)
                                cur = merge([(conj(h, neg(s)), e) for h, e in alts(cur) if conj(h, neg(s))] + [(s, None)])
                    else:
                        it.call(x[0], x[1], x[2])
                    q = it.pc
                except PathDead:
                    q = 0
                it.pc = disj(bdd.diff(full, p), q)
                if not it.pc:
                    # the remaining callbacks still run on the raising paths
                    raise PathDead()
            return mkbool(sup) if sup else False
        return False
    if isinstance(cm, Model):
        return cm.exit(it, exc)
    return False


def ctx_attr(it, cm, name):
    if name == "__enter__":
        return NF(name, lambda it_: ctx_enter(it_, cm))
    if name == "__exit__":
        def ex(it_, t=None, e=None, tb=None):
            return ctx_exit(it_, cm, e)

        return NF(name, ex)
    if isinstance(cm, GenericCtx) and cm.kind == "exitstack":
        if name == "enter_context":
            def ent(it_, x):
                v = ctx_enter(it_, x)
                cm.data.append((it_.pc, "cm", x))
                return v

            return NF(name, ent)
        if name == "callback":
            def cb(it_, f, *a, **k):
                cm.data.append((it_.pc, "cb", (f, list(a), k)))
                return f

            return NF(name, cb)
        if name == "push":
            def pu(it_, x):
                cm.data.append((it_.pc, "cm", x))
                return x

            return NF(name, pu)
        if name == "close":
            return NF(name, lambda it_: ctx_exit(it_, cm, None))
        if name == "pop_all":
            def pa(it_):
                n = GenericCtx("exitstack", cm.data)
                cm.data = []
                return n

            return NF(name, pa)
    return UNBOUND


# --- json -----------------------------------------------------------------------------------------


def jkey(it, k):
    k = restrict(k, it.pc)
    if isinstance(k, G):
        return it.lift(lambda x: jkey(it, x), k)
    if isinstance(k, (str, SStr)):
        return k
    if k is None:
        return "null"
    if isinstance(k, bool):
        return "true" if k else "false"
    if isinstance(k, (int, float)):
        return _json.dumps(k)
    if isinstance(k, Num):
        return mkstr([Fmt(k, "")])
    if isinstance(k, B):
        return it.branch(k.n, lambda: "true", lambda: "false")
    if isinstance(k, App):
        return mkstr([Opq(("str", key(k)))])
    it.raise_(TypeError, f"keys must be str, int, float, bool or None, not {it.tname(k)}")


class Snap:
    """frozen JSON container: kind 'd' [(g, k, v)] / 'l' [(g, v)]"""

    def __init__(self, kind, items, site=None):
        self.kind = kind
        self.items = items
        self.site = site

    def __repr__(self):
        if self.kind == "d":
            return "{" + ", ".join(f"{show(k)}: {show(v)}" for _, k, v in self.items[:6]) + "}"
        return "[" + ", ".join(show(v) for _, v in self.items[:6]) + "]"


def snapshot(it, v, default=None, depth=0):
    v = restrict(v, it.pc)
    if isinstance(v, G):
        return it.lift(lambda x: snapshot(it, x, default, depth), v)
    if depth > 60:
        it.raise_(ValueError, "Circular reference detected")
    if v is None or isinstance(v, (bool, int, float, str, SStr, Num, B, App)):
        return v
    if isinstance(v, DictObj):
        out = []
        for e in list(v.e):
            g = conj(e.g, it.pc)
            if not g:
                continue
            full = it.pc
            it.pc = g
            try:
                k = jkey(it, e.k)
                x = snapshot(it, e.v, default, depth + 1)
                p = it.pc
                out.append((1 if p == full else p, k, x))
            except PathDead:
                p = 0
            it.pc = disj(bdd.diff(full, g), p)
            if not it.pc:
                raise PathDead()
        return Snap("d", out)
    if isinstance(v, (ListObj, tuple)):
        out = []
        for g, y in [(1, y) for y in v] if isinstance(v, tuple) else [tuple(q) for q in v.e]:
            g = conj(g, it.pc)
            if not g:
                continue
            full = it.pc
            it.pc = g
            try:
                x = snapshot(it, y, default, depth + 1)
                p = it.pc
                out.append((1 if p == full else p, x))
            except PathDead:
                p = 0
            it.pc = disj(bdd.diff(full, g), p)
            if not it.pc:
                raise PathDead()
        return Snap("l", out)
    if isinstance(v, EnumMember) and isinstance(v.value, (int, str, float)):
        pass
    if default is not None:
        return snapshot(it, it.call(default, [v]), default, depth + 1)
    it.raise_(TypeError, f"Object of type {it.tname(v)} is not JSON serializable")


def snap_native(s):
    """Snap -> python object, or raise ValueError when symbolic"""
    if isinstance(s, Snap):
        if s.kind == "d":
            out = {}
            for g, k, v in s.items:
                if g != 1 or not isinstance(k, str):
                    raise ValueError
                out[k] = snap_native(v)
            return out
        out = []
        for g, v in s.items:
            if g != 1:
                raise ValueError
            out.append(snap_native(v))
        return out
    if s is None or isinstance(s, (bool, int, float, str)):
        return s
    raise ValueError


def json_dumps(it, obj, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None, default=None, sort_keys=False, **kw):
    if cls is not None:
        if isinstance(cls, ClassObj) and cls.lookup("default")[0] is not UNBOUND:
            enc = N.new_instance(it, cls)
            default = it.getattr(enc, "default")
        else:
            raise Undecided("json encoder class")

    def go(ind, asc, sep, sk):
        s = snapshot(it, obj, default)
        if isinstance(s, G) and len(s.alts) > 1:
            return it.lift(lambda x: done(x, ind, asc, sep, sk), s)
        return done(s, ind, asc, sep, sk)

    def done(s, ind, asc, sep, sk):
        opts = {"indent": ind, "ensure_ascii": bool(asc), "separators": sep, "sort_keys": bool(sk), "text": None, "site": it.site()}
        try:
            opts["text"] = _json.dumps(snap_native(s), indent=ind, ensure_ascii=bool(asc), separators=sep, sort_keys=bool(sk))
        except ValueError:
            pass
        return SStr([Json(s, opts)])

    return it.lift(go, restrict(indent, it.pc), ensure_ascii, separators, sort_keys)


def json_dump(it, obj, fp, **kw):
    it.call(it.getattr(fp, "write"), [json_dumps(it, obj, **kw)])


def json_loads(it, s, **kw):
    def one(x):
        if isinstance(x, SStr):
            if len(x.parts) == 1 and isinstance(x.parts[0], Json):
                return unsnap(it, x.parts[0].snap)
            r = M.render(x)
            if r is None:
                raise Undecided("json.loads of symbolic text")
            x = r
        if isinstance(x, (bytes, str)):
            try:
                return N.wrap(it, _json.loads(x))
            except ValueError as e:
                it.raise_(type(e), *e.args)
        raise Undecided("json.loads")

    return it.lift(one, s)


def unsnap(it, s):
    if isinstance(s, G):
        return it.lift(lambda x: unsnap(it, x), s)
    if isinstance(s, Snap):
        if s.kind == "d":
            d = DictObj(it.pc)
            for g, k, v in s.items:
                guarded(it, g, lambda: N.dict_set(it, d, k, unsnap(it, v)))
            return d
        l = ListObj((), it.pc)
        l.e = [[g, unsnap(it, v)] for g, v in s.items]
        return l
    return s


# --- logging -----------------------------------------------------------------------------------


LV = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARNING": 30, "WARN": 30, "INFO": 20, "DEBUG": 10, "NOTSET": 0}


class Formatter(Model):
    real = logging.Formatter

    def __init__(self, it, fmt=None, datefmt=None, style="%", **k):
        self.fmt = fmt


class Handler(Model):
    real = logging.StreamHandler

    def __init__(self, it, stream=None):
        self.birth = it.pc
        self.level = 0
        self.fmt = None
        self.stream = stream
        self.file = None
        self.closed = False
        self.cls_name = type(self).__name__
        it.world.handlers.append(self)

    def m_setLevel(self, it, lv):
        self.level = it.upd(self.level, level_no(it, lv), self.birth)

    def m_setFormatter(self, it, f):
        self.fmt = it.upd(self.fmt, f, self.birth)

    def m_addFilter(self, it, f):
        raise Undecided("log filter")

    def m_flush(self, it):
        return None

    def m_close(self, it):
        if self.file is not None:
            file_close(it, self.file)
        self.closed = it.upd(self.closed, True, self.birth)

    def attr(self, it, name):
        if name == "level":
            return restrict(self.level, it.pc)
        if name == "formatter":
            return restrict(self.fmt, it.pc)
        if name == "stream":
            return self.file if self.file is not None else self.stream
        if name == "baseFilename" and self.file is not None:
            return self.file.abspath
        return super().attr(it, name)


class StreamHandler(Handler):
    pass


class NullHandler(Handler):
    def m_setLevel(self, it, lv):
        pass


class FileHandler(Handler):
    def __init__(self, it, filename, mode="a", encoding=None, delay=False, errors=None):
        super().__init__(it)
        self.mode = mode
        self.path = filename
        f = it.world.open(it, filename, mode, encoding)
        if isinstance(f, G):
            raise Undecided("log file path")
        self.file = f


def level_no(it, lv):
    def one(x):
        if isinstance(x, int):
            return x
        if isinstance(x, str) and x in LV:
            return LV[x]
        it.raise_(ValueError, f"Unknown level: {x!r}")

    return it.lift(one, lv)


class Logger(Model):
    real = logging.Logger

    def __init__(self, it, name, level=0):
        self.name = name
        self.level = level
        self.handlers = ListObj((), 1)
        self.propagate = True
        self.disabled = False

    def attr(self, it, name):
        if name == "handlers":
            return self.handlers
        if name == "name":
            return self.name
        if name == "level":
            return self.level
        if name == "propagate":
            return self.propagate
        if name == "disabled":
            return self.disabled
        if name == "parent" or name == "root":
            return get_logger(it, None)
        return super().attr(it, name)

    def setattr(self, it, name, v):
        if name in ("propagate", "disabled"):
            setattr(self, name, it.upd(getattr(self, name), v, 1))
        elif name == "handlers":
            self.handlers = v
        else:
            raise Undecided(f"logger.{name}")

    def m_setLevel(self, it, lv):
        self.level = it.upd(self.level, level_no(it, lv), 1)

    def m_addHandler(self, it, h):
        n = it.contains(self.handlers, h)
        guarded(it, neg(n), lambda: M.l_append(it, self.handlers, h))

    def m_removeHandler(self, it, h):
        n = conj(it.pc, it.contains(self.handlers, h))
        if n:
            guarded(it, n, lambda: M.l_remove(it, self.handlers, h))

    def m_hasHandlers(self, it):
        return mkbool(it.truth(self.handlers))

    def m_getEffectiveLevel(self, it):
        return self.level or 30

    def m_isEnabledFor(self, it, lv):
        return mkbool(it.compare("GtE", lv, self.level or 30))

    def emit(self, it, lv, msg, args, kw):
        msg = N.to_str(it, msg)
        if args:
            a = args[0] if len(args) == 1 and isinstance(args[0], DictObj) else tuple(args)
            msg = it.lift(lambda m: N.percent_format(it, m, a), msg)

        def one(level, mylevel):
            if not isinstance(level, int):
                it.raise_(TypeError, "level must be an integer")
            eff = mylevel or 30
            if level < eff:
                it.effect("log", logger=self.name, level=level, msg=msg, to=[])
                return
            to = []
            for g, h in self.handlers.e:
                k = conj(g, it.pc)
                if not k:
                    continue
                hl = h.level
                if isinstance(hl, G):
                    raise Undecided("handler level")
                if level >= hl:
                    to.append((k, h))
                    if isinstance(h, FileHandler):
                        cl = it.truth(h.closed)
                        if conj(k, cl):
                            # a closed append handler silently reopens its file
                            full = it.pc
                            it.pc = conj(k, cl)
                            it.effect("log_closed", path=h.file.abspath, msg=msg)
                            it.pc = full
            it.effect("log", logger=self.name, level=level, msg=msg, to=to)

        it.lift(one, restrict(lv, it.pc), restrict(self.level, it.pc))

    def m_log(self, it, lv, msg, *a, **k):
        self.emit(it, lv, msg, a, k)

    def m_getChild(self, it, s):
        return get_logger(it, f"{self.name}.{s}")


for _n, _l in (("debug", 10), ("info", 20), ("warning", 30), ("warn", 30), ("error", 40), ("exception", 40), ("critical", 50), ("fatal", 50)):
    setattr(Logger, "m_" + _n, lambda self, it, msg, *a, _l=_l, **k: self.emit(it, _l, msg, a, k))


def get_logger(it, name=None):
    def one(n):
        w = it.world
        n = n or "root"
        if n not in w.loggers:
            w.loggers[n] = Logger(it, n, 30 if n == "root" else 0)
        return w.loggers[n]

    return it.lift(one, name)


def log_shutdown(it, *a):
    it.effect("log_shutdown")
    for h in it.world.handlers:
        if isinstance(h, Handler) and h.file is not None:
            g = conj(h.birth, it.pc)
            if g:
                guarded(it, g, lambda: h.m_close(it))


def mod_logging(it):
    a = {k: v for k, v in LV.items()}
    a.update(
        getLogger=NF("getLogger", get_logger),
        addLevelName=NF("addLevelName", lambda it_, lv, n: it_.world.level_names.__setitem__(lv, n)),
        getLevelName=NF("getLevelName", lambda it_, lv: it_.world.level_names.get(lv, {v: k for k, v in LV.items() if k not in ("FATAL", "WARN")}.get(lv, f"Level {lv}"))),
        StreamHandler=StreamHandler, FileHandler=FileHandler, NullHandler=NullHandler, Formatter=Formatter,
        Handler=Handler, Logger=Logger,
        shutdown=NF("shutdown", log_shutdown),
        disable=NF("disable", lambda it_, *x: _undec("logging.disable")),
        captureWarnings=NF("captureWarnings", lambda it_, x: None),
    )
    for n in ("debug", "info", "warning", "error", "exception", "critical"):
        a[n] = NF(n, lambda it_, msg, *x, _n=n, **k: getattr(get_logger(it_), "m_" + _n)(it_, msg, *x, **k))
    a["log"] = NF("log", lambda it_, lv, msg, *x, **k: get_logger(it_).m_log(it_, lv, msg, *x, **k))

    def basic(it_, **k):
        lg = get_logger(it_)
        if "level" in k:
            lg.m_setLevel(it_, k["level"])
        if "filename" in k:
            lg.m_addHandler(it_, FileHandler(it_, k["filename"], k.get("filemode", "a")))
        else:
            lg.m_addHandler(it_, StreamHandler(it_))

    a["basicConfig"] = NF("basicConfig", basic)
    h = NativeMod("logging.handlers", {})
    a["handlers"] = h
    return a


# --- os and friends --------------------------------------------------------------------------------


def purepath(name, f):
    """pure function over path texts"""
    def impl(it, *args):
        ps = [it.world.path(it, a) for a in args]

        def one(*xs):
            try:
                return N.wrap(it, f(*xs))
            except Exception as e:
                it.raise_(type(e), *e.args)

        return it.lift(one, *ps)

    return NF(name, impl)


def path_join(it, *args):
    vals = []
    for a in args:
        a = restrict(a, it.pc)
        vals.append(a)
    if any(isinstance(a, SStr) for a in vals):
        out = []
        for a in vals:
            if isinstance(a, str) and a.startswith("/"):
                out = []
            if out and not (isinstance(out[-1], str) and out[-1].endswith("/")):
                out.append("/")
            out.append(a)
        return it.concat_parts(out)
    ps = [it.world.path(it, a) for a in vals]
    return it.lift(lambda *xs: posixpath.join(*xs), *ps)


def wq(f):
    """world query -> bool"""
    def impl(it, p):
        p = it.world.path(it, p)
        return it.lift(lambda x: restrict(mkbool(conj(f(it.world, x), it.pc)), it.pc), p)

    return impl


def os_listdir(it, path="."):
    def one(p):
        l = ListObj((), it.pc)
        ents = it.world.listdir(it, p)
        l.e = [[1 if implies(l.birth, g) else g, n] for g, n in ents]
        return l

    return it.lift(one, it.world.path(it, path))


def os_walk(it, top, **k):
    def one(p):
        out = []

        def rec(d):
            ents = it.world.listdir(it, d)
            ds = [n for g, n in ents if it.world.g_isdir(posixpath.join(d, n))]
            fs = [n for g, n in ents if it.world.g_isfile(posixpath.join(d, n))]
            if any(g != 1 for g, _ in ents):
                raise Undecided("walk over conditional tree")
            out.append((d, mklist(it, ds), mklist(it, fs)))
            for x in ds:
                rec(posixpath.join(d, x))

        rec(p)
        return IterObj([(1, x) for x in out], None, it.pc)

    return it.lift(one, it.world.path(it, top))


def glob_glob(it, pattern, recursive=False, root_dir=None, **k):
    import fnmatch

    w = it.world

    def one(p):
        ents = [(n.exists, n.path) for n in w.files.values()] + [(g, d) for d, g in w.dirs.items()]
        a = w.abs(p)
        pp = a.split("/")
        l = ListObj((), it.pc)
        for g, path in sorted(ents, key=lambda x: x[1]):
            q = path.split("/")
            if len(q) == len(pp) and all(fnmatch.fnmatchcase(x, y) for x, y in zip(q, pp)) and conj(g, it.pc):
                name = path if p.startswith("/") else posixpath.relpath(path, w.cwd)
                l.e.append([1 if implies(l.birth, g) else g, name])
        return l

    if recursive:
        raise Undecided("recursive glob")
    return it.lift(one, w.path(it, pattern))


def os_makedirs(it, name, mode=0o777, exist_ok=False):
    it.world.mkdir(it, name, True, bool(it.native(exist_ok)))


def os_remove(it, path, **k):
    it.world.remove(it, path)


class Environ(Model):
    real = type(os.environ)

    def m_get(self, it, k, d=None):
        return d

    def m___getitem__(self, it, k):
        it.raise_(KeyError, k)

    def m___contains__(self, it, k):
        return False


def os_attrs(it):
    pth = {}
    for n in ("basename", "dirname", "splitext", "split", "normpath", "isabs", "commonpath", "commonprefix", "normcase", "splitdrive"):
        pth[n] = purepath(n, getattr(posixpath, n))
    pth["join"] = NF("join", path_join)
    w = it.world
    for n in ("abspath", "realpath"):
        pth[n] = purepath(n, lambda x: it.world.abs(x))
    pth["expanduser"] = purepath("expanduser", lambda x: x)
    pth["expandvars"] = pth["expanduser"]
    pth["relpath"] = purepath("relpath", lambda x, s=None: posixpath.relpath(it.world.abs(x), it.world.abs(s) if s else it.world.cwd))
    pth["exists"] = NF("exists", wq(lambda w_, p: w_.g_exists(p)))
    pth["lexists"] = pth["exists"]
    pth["isfile"] = NF("isfile", wq(lambda w_, p: w_.g_isfile(p)))
    pth["isdir"] = NF("isdir", wq(lambda w_, p: w_.g_isdir(p)))
    pth["islink"] = NF("islink", lambda it_, p: False)
    pth["sep"] = "/"
    pth["extsep"] = "."
    pth["pathsep"] = ":"
    pth["getsize"] = NF("getsize", getsize)
    pmod = NativeMod("os.path", pth)
    a = {
        "path": pmod,
        "sep": "/",
        "linesep": "\n",
        "extsep": ".",
        "curdir": ".",
        "pardir": "..",
        "name": "posix",
        "devnull": "/dev/null",
        "SEEK_SET": 0,
        "SEEK_CUR": 1,
        "SEEK_END": 2,
        "environ": Environ(),
        "getenv": NF("getenv", lambda it_, k, d=None: d),
        "getcwd": NF("getcwd", lambda it_: it_.world.cwd),
        "chdir": NF("chdir", lambda it_, p: _undec("chdir")),
        "listdir": NF("listdir", os_listdir),
        "scandir": NF("scandir", os_scandir),
        "stat": NF("stat", os_stat),
        "walk": NF("walk", os_walk),
        "makedirs": NF("makedirs", os_makedirs),
        "mkdir": NF("mkdir", lambda it_, p, mode=0: it_.world.mkdir(it_, p)),
        "remove": NF("remove", os_remove),
        "unlink": NF("unlink", os_remove),
        "rmdir": NF("rmdir", lambda it_, p: it_.world.rmdir(it_, p)),
        "rename": NF("rename", lambda it_, s, d: it_.world.rename(it_, s, d)),
        "replace": NF("replace", lambda it_, s, d: it_.world.rename(it_, s, d)),
        "fspath": NF("fspath", lambda it_, p: it_.world.path(it_, p)),
        "getpid": NF("getpid", lambda it_: 1),
        "fsync": NF("fsync", lambda it_, x: None),
        "access": NF("access", lambda it_, p, m=0: wq(lambda w_, q: w_.g_exists(q))(it_, p)),
        "R_OK": 4,
        "W_OK": 2,
        "F_OK": 0,
        "PathLike": Path,
        "error": it.exc_class(OSError),
        "system": NF("system", lambda it_, c: _undec("os.system")),
    }
    return a


def getsize(it, p):
    def one(x):
        n = it.world.files.get(it.world.abs(x))
        it.may_raise(neg(n.exists if n else 0), FileNotFoundError, 2, "No such file or directory", x)
        if n.ops:
            raise Undecided("getsize of written file")
        return N.length(it, n.content)

    return it.lift(one, it.world.path(it, p))


class Record(Model):
    """read-only library record; anything but the listed attributes gives no answer"""

    def __init__(self, what, **fields):
        self.what, self.fields = what, fields

    def attr(self, it, name):
        if name in self.fields:
            v = self.fields[name]
            return v(it) if callable(v) and not isinstance(v, NativeFn) else v
        raise Undecided(f"{self.what}.{name}")

    def enter(self, it):
        return self

    def m___iter__(self, it):
        return it.get_iter(self.fields["items"])

    def m___fspath__(self, it):
        return self.fields["path"]


def os_stat(it, p, **k):
    def one(x):
        w = it.world
        it.may_raise(neg(w.g_exists(x)), FileNotFoundError, 2, "No such file or directory", x)
        return Record("stat_result", st_size=lambda i2: getsize(i2, x))

    return it.lift(one, it.world.path(it, p))


def os_scandir(it, path="."):
    def one(p):
        ents = []
        for g, n in it.world.listdir(it, p):
            q = posixpath.join(p, n)
            ents.append((g, Record(
                "DirEntry", name=n, path=q,
                is_file=NF("is_file", lambda i2, q=q, **k: wq(lambda w, x: w.g_isfile(x))(i2, q)),
                is_dir=NF("is_dir", lambda i2, q=q, **k: wq(lambda w, x: w.g_isdir(x))(i2, q)),
                is_symlink=False, stat=NF("stat", lambda i2, q=q, **k: os_stat(i2, q)),
            )))
        return IterObj(ents, None, it.pc)

    return it.lift(one, it.world.path(it, path))


class Path(Model):
    real = pathlib.Path

    @staticmethod
    def make(it, *parts, **k):
        return it.lift(lambda *xs: Path(it, *xs), *[it.world.path(it, p) for p in parts])

    def __init__(self, it, *parts):
        ps = [it.world.path(it, p) for p in parts]
        if any(isinstance(p, G) for p in ps):
            raise Undecided("guarded Path")

        self.p = pathlib.PurePosixPath(*ps)
        self.pathtext = str(self.p)

    def vkey(self):
        return ("path", self.pathtext)

    @staticmethod
    def c_cwd(it):
        return Path(it, it.world.cwd)

    def text(self, it):
        return self.pathtext

    def attr(self, it, name):
        if name in ("name", "stem", "suffix", "root", "anchor"):
            return getattr(self.p, name)
        if name in ("parts",):
            return self.p.parts
        if name == "suffixes":
            return mklist(it, self.p.suffixes)
        if name == "parent":
            return Path(it, str(self.p.parent))
        if name == "parents":
            return tuple(Path(it, str(x)) for x in self.p.parents)
        return super().attr(it, name)

    def m_exists(self, it):
        return wq(lambda w, p: w.g_exists(p))(it, self.pathtext)

    def m_is_file(self, it):
        return wq(lambda w, p: w.g_isfile(p))(it, self.pathtext)

    def m_is_dir(self, it):
        return wq(lambda w, p: w.g_isdir(p))(it, self.pathtext)

    def m_is_absolute(self, it):
        return self.p.is_absolute()

    def m_mkdir(self, it, mode=0, parents=False, exist_ok=False):
        it.world.mkdir(it, self.pathtext, bool(parents), bool(exist_ok))

    def m_open(self, it, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return it.world.open(it, self.pathtext, mode, encoding, newline, errors)

    def m_joinpath(self, it, *a):
        return Path.make(it, self.pathtext, *a)

    def m___truediv__(self, it, o):
        return it.lift(lambda x: Path(it, self.pathtext, x), it.world.path(it, o))

    def m___rtruediv__(self, it, o):
        return Path.make(it, o, self.pathtext)

    def m_with_suffix(self, it, s):
        return it.lift(lambda x: Path(it, str(self.p.with_suffix(x))), s)

    def m_with_name(self, it, s):
        return it.lift(lambda x: Path(it, str(self.p.with_name(x))), s)

    def m_with_stem(self, it, s):
        return it.lift(lambda x: Path(it, str(self.p.with_stem(x))), s)

    def m_unlink(self, it, missing_ok=False):
        it.world.remove(it, self.pathtext, bool(missing_ok))

    def m_rmdir(self, it):
        it.world.rmdir(it, self.pathtext)

    def m_resolve(self, it, strict=False):
        return Path(it, it.world.abs(self.pathtext))

    m_absolute = m_resolve

    def m_expanduser(self, it):
        return self

    def m_as_posix(self, it):
        return self.pathtext

    def m___fspath__(self, it):
        return self.pathtext

    def m___str__(self, it):
        return self.pathtext

    def m___eq__(self, it, o):
        return isinstance(o, Path) and o.p == self.p

    def m_read_bytes(self, it):
        f = it.world.open(it, self.pathtext, "rb")
        v = file_read(it, f)
        file_close(it, f)
        return v

    def m_read_text(self, it, encoding=None, errors=None):
        f = it.world.open(it, self.pathtext, "r", encoding)
        v = file_read(it, f)
        file_close(it, f)
        return v

    def m_write_text(self, it, s, encoding=None, errors=None, newline=None):
        f = it.world.open(it, self.pathtext, "w", encoding)
        file_write(it, f, s)
        file_close(it, f)

    def m_write_bytes(self, it, s):
        f = it.world.open(it, self.pathtext, "wb")
        file_write(it, f, s)
        file_close(it, f)

    def m_iterdir(self, it):
        l = os_listdir(it, self.pathtext)
        return IterObj([(g, Path(it, self.pathtext, n)) for g, n in l.e], None, it.pc)

    def m_glob(self, it, pat):
        l = glob_glob(it, self.pathtext + "/" + pat)
        return IterObj([(g, Path(it, n)) for g, n in l.e], None, it.pc)

    def m_relative_to(self, it, o):
        try:
            return Path(it, str(self.p.relative_to(it.world.path(it, o))))
        except ValueError as e:
            it.raise_(ValueError, str(e))

    def m_stat(self, it):
        return os_stat(it, self.pathtext)

    def m_touch(self, it, *a, **k):
        file_close(it, it.world.open(it, self.pathtext, "a"))

    def m_rename(self, it, d):
        it.world.rename(it, self.pathtext, d)

    m_replace = m_rename


# --- console ----------------------------------------------------------------------------------------


class Stream(Model):
    real = io.TextIOWrapper

    def __init__(self, name):
        self.name = name

    def m_write(self, it, s):
        it.effect("print", text=s, stream=self.name)
        return N.length(it, s)

    def m_writelines(self, it, ls):
        for g, x in it.entries(ls):
            guarded(it, g, lambda: self.m_write(it, x))

    def m_flush(self, it):
        return None

    def m_isatty(self, it):
        return False

    def m_close(self, it):
        return None

    def m_read(self, it, *a):
        return ""

    def m_readline(self, it, *a):
        return ""


# --- itertools ----------------------------------------------------------------------------------------


def it_chain(it, *vs):
    def gen():
        for v in vs:
            yield from src_iter(it, v)

    return lazy(it, gen())


def it_chain_from(it, vs):
    def gen():
        for g, v in src_iter(it, vs):
            for h, x in src_iter(it, v):
                k = conj(g, h)
                if k:
                    yield k, x

    return lazy(it, gen())


def it_count(it, start=0, step=1):
    def gen():
        k = start
        while True:
            yield it.pc, k
            k = it.binop("Add", k, step)

    return lazy(it, gen())


def it_repeat(it, v, times=None):
    def gen():
        n = it.native(times) if times is not None else None
        i = 0
        while n is None or i < n:
            i += 1
            yield 1, v

    return lazy(it, gen())


def it_islice(it, v, *a):
    ns = [it.native(x) for x in a]
    s = slice(*ns)
    start, stop, step = s.start or 0, s.stop, s.step or 1

    def gen():
        i = 0
        src = src_iter(it, v)
        while stop is None or i < stop:
            try:
                g, x = next(src)
            except StopIteration:
                return
            if not implies(it.pc, g):
                raise Undecided("islice over guarded sequence")
            if i >= start and (i - start) % step == 0:
                yield g, x
            i += 1

    return lazy(it, gen())


def it_accumulate(it, v, func=None, *, initial=None):
    def gen():
        acc = initial
        first = initial is None
        if not first:
            yield it.pc, acc
        for g, x in src_iter(it, v):
            if not implies(it.pc, g):
                raise Undecided("accumulate over guarded sequence")
            if first:
                acc = x
                first = False
            else:
                acc = it.call(func, [acc, x]) if func is not None else it.binop("Add", acc, x)
            yield it.pc, acc

    return lazy(it, gen())


def it_real(name):
    f = getattr(_it, name)

    def impl(it, *vs, **k):
        ls = [it.to_list(v) if not isinstance(v, int) else v for v in vs]
        kk = {n: it.native(x) for n, x in k.items()}
        return IterObj([(1, x) for x in f(*ls, **kk)], None, it.pc)

    return NF(name, impl)


def it_takewhile(it, f, v, drop=False):
    def gen():
        alive = it.pc if not drop else 0
        for g, x in src_iter(it, v):
            p = conj(it.pc, g)
            if not p:
                continue
            full = it.pc
            it.pc = p
            n = it.truth(it.call(f, [x]))
            it.pc = disj(bdd.diff(full, p), it.pc)
            if drop:
                alive = disj(alive, bdd.diff(p, n))
            else:
                alive = bdd.diff(alive, bdd.diff(p, n))
                if not conj(alive, it.pc):
                    return
            k = conj(alive, p)
            if k:
                yield k, x

    return lazy(it, gen())


def it_starmap(it, f, v):
    return M.b_map(it, NF("star", lambda it_, t: it_.call(f, it_.to_list(t))), v)


def it_zip_longest(it, *vs, fillvalue=None):
    ls = [it.to_list(v) for v in vs]
    return IterObj([(1, x) for x in _it.zip_longest(*ls, fillvalue=fillvalue)], None, it.pc)


def it_groupby(it, v, key=None):
    vals = it.to_list(v)
    from .interp import NotConcrete

    try:
        ks = [it.native(it.call(key, [x]) if key is not None else x) for x in vals]
    except NotConcrete:
        raise Undecided("groupby on symbolic data")
    out = []
    for k, idx in _it.groupby(range(len(vals)), lambda i: ks[i]):
        out.append((1, (N.wrap(it, k), IterObj([(1, vals[i]) for i in idx], None, it.pc))))
    return IterObj(out, None, it.pc)


def it_tee(it, v, n=2):
    ent = it.entries(v)
    return tuple(IterObj(list(ent), None, it.pc) for _ in range(n))


def it_compress(it, data, sel):
    ds, ss = it.to_list(data), it.to_list(sel)
    return IterObj([(conj(it.truth(s), it.pc), d) for d, s in zip(ds, ss) if conj(it.truth(s), it.pc)], None, it.pc)


def it_pairwise(it, v):
    ls = it.to_list(v)
    return IterObj([(1, x) for x in zip(ls, ls[1:])], None, it.pc)


def mod_itertools(it):
    chain = NF("chain", it_chain)
    chain.attrs = {"from_iterable": NF("from_iterable", it_chain_from)}
    a = {
        "chain": chain, "count": NF("count", it_count), "repeat": NF("repeat", it_repeat), "islice": NF("islice", it_islice),
        "accumulate": NF("accumulate", it_accumulate), "takewhile": NF("takewhile", it_takewhile),
        "dropwhile": NF("dropwhile", lambda it_, f, v: it_takewhile(it_, f, v, True)),
        "starmap": NF("starmap", it_starmap), "zip_longest": NF("zip_longest", it_zip_longest),
        "groupby": NF("groupby", it_groupby), "tee": NF("tee", it_tee), "compress": NF("compress", it_compress),
        "pairwise": NF("pairwise", it_pairwise),
        "filterfalse": NF("filterfalse", lambda it_, f, v: M.b_filter(it_, NF("nf", lambda i2, x: mkbool(neg(i2.truth(x if f is None else i2.call(f, [x]))))), v)),
        "cycle": NF("cycle", it_cycle),
    }
    a["product"] = NF("product", it_product)
    for n in ("permutations", "combinations", "combinations_with_replacement", "batched"):
        if hasattr(_it, n):
            a[n] = it_real(n)
    return a


def it_product(it, *vs, repeat=1):
    cols = [list(src_iter(it, v)) for v in vs] * it.native(repeat)

    def gen():
        rows = [(it.pc, ())]
        for c in cols:
            rows = [(h, t + (x,)) for g, t in rows for k, x in c for h in (conj(g, k),) if h]
            if len(rows) > 20000:
                raise Undecided("product of long sequences")
        for g, t in rows:
            yield g, t

    return lazy(it, gen())


def it_cycle(it, v):
    vals = it.to_list(v)

    def gen():
        while vals:
            for x in vals:
                yield 1, x

    return lazy(it, gen())


# --- functools -----------------------------------------------------------------------------------------


def f_wraps(it, wrapped, *a, **k):
    def deco(it_, f):
        if isinstance(f, FuncObj):
            f.attrs["__wrapped__"] = wrapped
            for n in ("__name__", "__doc__", "__qualname__"):
                v = it_.getattr(wrapped, n, None)
                f.attrs[n] = v
            if isinstance(wrapped, FuncObj) and wrapped.attrs.get("__isabstractmethod__"):
                f.attrs["__isabstractmethod__"] = True
        return f

    return NF("wraps", deco)


def f_reduce(it, f, v, *init):
    acc = init[0] if init else UNBOUND
    for g, x in it.entries(v):
        if acc is UNBOUND:
            if not implies(it.pc, g):
                raise Undecided("reduce over guarded sequence")
            acc = x
            continue
        if implies(it.pc, g):
            acc = it.call(f, [acc, x])
        else:
            a0 = acc
            acc = it.branch(g, lambda: it.call(f, [a0, x]), lambda: a0)
    if acc is UNBOUND:
        it.raise_(TypeError, "reduce() of empty iterable with no initial value")
    return acc


def f_lru(it, *a, **k):
    if a and isinstance(a[0], (FuncObj, StaticM)):
        return CacheFn(a[0])
    return NF("lru_cache", lambda it_, f: CacheFn(f))


class SingleDispatch(Model):
    def __init__(self, f):
        self.f = f
        self.reg = []

    def m_register(self, it, cls, func=None):
        if func is not None:
            self.reg.append((cls, func))
            return func
        if isinstance(cls, FuncObj):
            a = (cls.node.args.posonlyargs + cls.node.args.args)[:1]
            if not a or a[0].annotation is None:
                raise Undecided("singledispatch by annotation")
            t = it.ev(a[0].annotation, cls.scope)
            for c in t if isinstance(t, tuple) else (t,):
                self.reg.append((c, cls))
            return cls

        def deco(it_, f):
            self.reg.append((cls, f))
            return f

        return NF("register", deco)

    def call(self, it, args, kwargs):
        def one(x):
            best = None
            for c, f in self.reg:
                if N.subclass_(it, N.classof(it, x), c, x):
                    if best is None or N.subclass_(it, c, best[0]):
                        best = (c, f)
            return it.call(best[1] if best else self.f, [x] + list(args[1:]), kwargs)

        return it.lift(one, restrict(args[0], it.pc))


def mod_functools(it):
    def partial(it_, f, *a, **k):
        return PartialObj(f, list(a), k)

    def partialmethod(it_, f, *a, **k):
        p = PartialObj(f, list(a), k)
        p.method = True
        return p

    return {
        "wraps": NF("wraps", f_wraps), "partial": NF("partial", partial), "partialmethod": NF("partialmethod", partialmethod),
        "reduce": NF("reduce", f_reduce), "lru_cache": NF("lru_cache", f_lru), "cache": NF("cache", lambda it_, f: CacheFn(f)),
        "cached_property": NF("cached_property", lambda it_, f: CachedProp(f)),
        "total_ordering": NF("total_ordering", total_ordering),
        "update_wrapper": NF("update_wrapper", lambda it_, w, f, *a, **k: it_.call(f_wraps(it_, f), [w])),
        "singledispatch": NF("singledispatch", lambda it_, f: SingleDispatch(f)),
        "cmp_to_key": NF("cmp_to_key", lambda it_, f: _undec("cmp_to_key")),
    }


def total_ordering(it, cls):
    if "__lt__" in cls.ns:
        lt = cls.ns["__lt__"]

        def mk(name, g):
            f = NativeFn(name, lambda it_, a, k: g(it_, a[0], a[1]))
            f.method = True
            cls.ns.setdefault(name, f)

        mk("__gt__", lambda i, a, b: mkbool(conj(neg(i.truth(i.call(lt, [a, b]))), neg(i.eq(a, b)))))
        mk("__le__", lambda i, a, b: mkbool(disj(i.truth(i.call(lt, [a, b])), i.eq(a, b))))
        mk("__ge__", lambda i, a, b: mkbool(neg(i.truth(i.call(lt, [a, b])))))
        return cls
    raise Undecided("total_ordering")


# --- operator ------------------------------------------------------------------------------------------


def mod_operator(it):
    a = {}
    for n, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("pow", "Pow"), ("lshift", "LShift"), ("rshift", "RShift"), ("and_", "BitAnd"), ("or_", "BitOr"), ("xor", "BitXor"), ("concat", "Add"), ("iadd", "Add"), ("ior", "BitOr"), ("ixor", "BitXor")):
        a[n] = NF(n, lambda it_, x, y, _o=op: it_.binop(_o, x, y))
    for n, op in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot")):
        a[n] = NF(n, lambda it_, x, y, _o=op: mkbool(it_.compare(_o, x, y)))
    a["contains"] = NF("contains", lambda it_, x, y: mkbool(it_.contains(x, y)))
    a["not_"] = NF("not_", lambda it_, x: mkbool(neg(it_.truth(x))))
    a["truth"] = NF("truth", lambda it_, x: mkbool(it_.truth(x)))
    a["neg"] = NF("neg", lambda it_, x: it_.binop("Mult", x, -1))
    a["index"] = NF("index", lambda it_, x: x)
    a["getitem"] = NF("getitem", lambda it_, x, i: it_.getitem(x, i))
    a["setitem"] = NF("setitem", lambda it_, x, i, v: it_.setitem(x, i, v))

    def itemgetter(it_, *ks):
        if len(ks) == 1:
            return NF("itemgetter", lambda i2, o: i2.getitem(o, ks[0]))
        return NF("itemgetter", lambda i2, o: tuple(i2.getitem(o, k) for k in ks))

    def attrgetter(it_, *ks):
        def get(i2, o, path):
            for n in path.split("."):
                o = i2.getattr(o, n)
            return o

        if len(ks) == 1:
            return NF("attrgetter", lambda i2, o: get(i2, o, ks[0]))
        return NF("attrgetter", lambda i2, o: tuple(get(i2, o, k) for k in ks))

    a["itemgetter"] = NF("itemgetter", itemgetter)
    a["attrgetter"] = NF("attrgetter", attrgetter)
    a["methodcaller"] = NF("methodcaller", lambda it_, n, *x, **k: NF(n, lambda i2, o: i2.call(i2.getattr(o, n), x, k)))
    return a


# --- struct -------------------------------------------------------------------------------------------


_SZ = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "x": 1, "?": 1, "c": 1, "s": 1}


def _fmt_items(fmt):
    order = "little"
    std = False
    if fmt and fmt[0] in "<>!=@":
        order = {"<": "little", ">": "big", "!": "big", "=": "little", "@": "little"}[fmt[0]]
        std = fmt[0] != "@"
        fmt = fmt[1:]
    out = []
    num = ""
    for c in fmt:
        if c.isdigit():
            num += c
            continue
        if c.isspace():
            continue
        if c not in _SZ:
            raise Undecided(f"struct format {c}")
        n = int(num) if num else 1
        num = ""
        if c == "s":
            out.append((c, n))
        else:
            out += [(c, _SZ[c])] * n
    if not std and len({s for _, s in out}) > 1:
        raise Undecided("native struct alignment")
    return order, out


def st_unpack(it, fmt, b, offset=0, exact=True):
    fmt = it.native(fmt)
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order, items = _fmt_items(fmt)
    size = sum(s for _, s in items)

    def one(x, off):
        e = belems(it.bytes_of(x))
        if (len(e) != size) if exact else (len(e) - off < size):
            it.raise_(_struct.error, f"unpack requires a buffer of {size} bytes")
        out = []
        p = off
        for c, s in items:
            y = mkbytes(e[p : p + s])
            p += s
            if c == "x":
                continue
            if c in "sc":
                out.append(y)
            elif c == "?":
                out.append(mkbool(it.truth(y.e[0] if isinstance(y, ABytes) else y[0])))
            else:
                out.append(N.from_bytes_int(it, y, order, c.islower()))
        return tuple(out)

    return it.lift(one, restrict(b, it.pc), it.concretize(offset))


def st_pack(it, fmt, *vals):
    order, items = _fmt_items(it.native(fmt))
    out = b""
    vs = list(vals)
    for c, s in items:
        if c == "x":
            out = it.binop("Add", out, bytes(s))
            continue
        v = vs.pop(0)
        if c in "sc":
            y = it.bytes_of(v)
        else:
            y = it.lift(lambda q: N.to_bytes_int(it, q, s, order, c.islower()), restrict(v, it.pc))
        out = it.binop("Add", out, y)
    return out


class Struct(Model):
    real = _struct.Struct

    def __init__(self, it, fmt):
        self.fmt = it.native(fmt)

    def attr(self, it, name):
        if name == "size":
            return sum(s for _, s in _fmt_items(self.fmt)[1])
        if name == "format":
            return self.fmt
        return super().attr(it, name)

    def m_unpack(self, it, b):
        return st_unpack(it, self.fmt, b)

    def m_unpack_from(self, it, b, offset=0):
        return st_unpack(it, self.fmt, b, offset, False)

    def m_pack(self, it, *v):
        return st_pack(it, self.fmt, *v)


# --- collections ----------------------------------------------------------------------------------------


def c_defaultdict(it, factory=None, *a, **k):
    d = M.call_type(it, dict, list(a), k)
    d.default_factory = factory
    return d


def c_namedtuple(it, name, fields, defaults=(), **k):
    fs = it.native(fields)
    if isinstance(fs, str):
        fs = fs.replace(",", " ").split()
    c = ClassObj(it.native(name), [it.object_cls], {}, it.cur.module.name if it.cur else "m")
    c.natbase = None
    c.ntfields = list(fs)
    ds = it.to_list(defaults) if defaults else []
    for f, d in zip(fs[len(fs) - len(ds):], ds):
        c.ns[f] = d
    return c


def c_counter(it, v=None, **k):
    d = DictObj(it.pc)
    d.default_factory = NF("zero", lambda it_: 0)
    if v is not None:
        for g, x in it.entries(v):
            guarded(it, g, lambda: N.dict_set(it, d, x, it.binop("Add", N.dict_get(it, d, x, 0), 1)))
    return d


def c_deque(it, v=(), maxlen=None):
    if maxlen is not None:
        if not isinstance(maxlen, int):
            raise Undecided("deque maxlen")
        return it.call(it.import_module("builtins@").ns["bounded"], [v, maxlen])
    return N.list_from(it, v)


def mod_collections(it):
    return {
        "OrderedDict": dict, "defaultdict": NF("defaultdict", c_defaultdict), "namedtuple": NF("namedtuple", c_namedtuple),
        "Counter": NF("Counter", c_counter), "deque": NF("deque", c_deque), "abc": NativeMod("collections.abc", {}, stub_fallback),
        "UserDict": it.import_module("builtins@").ns["dict_"], "UserList": it.import_module("builtins@").ns["list_"],
    }


def stub_fallback(it, name):
    return TypeStub(name)


# --- typing / abc / dataclasses / enum -------------------------------------------------------------------


def mod_typing(it):
    a = {
        "TYPE_CHECKING": False,
        "cast": NF("cast", lambda it_, t, v: v),
        "NamedTuple": TypeStub("NamedTuple"),
        "overload": NF("overload", lambda it_, f: f),
        "final": NF("final", lambda it_, f: f),
        "no_type_check": NF("no_type_check", lambda it_, f: f),
        "runtime_checkable": NF("runtime_checkable", lambda it_, f: f),
        "override": NF("override", lambda it_, f: f),
        "TypeVar": NF("TypeVar", lambda it_, *x, **k: TypeStub("TypeVar")),
        "NewType": NF("NewType", lambda it_, n, t: t),
        "get_type_hints": NF("get_type_hints", lambda it_, *x, **k: _undec("get_type_hints")),
        "assert_never": NF("assert_never", lambda it_, x: it_.raise_(AssertionError, "Expected code to be unreachable")),
    }
    return a


def mod_abc(it):
    abc = ClassObj("ABC", [it.object_cls], {}, "abc")
    abc.isabc = True

    def abstractmethod(it_, f):
        g = f
        while isinstance(g, (StaticM, ClassM)):
            g = g.f
        if isinstance(g, PropertyObj):
            g = g.fget
        if isinstance(g, FuncObj):
            g.attrs["__isabstractmethod__"] = True
        return f

    return {
        "ABC": abc, "ABCMeta": TypeStub("ABCMeta"), "abstractmethod": NF("abstractmethod", abstractmethod),
        "abstractproperty": NF("abstractproperty", lambda it_, f: PropertyObj(abstractmethod(it_, f))),
    }


def mod_dataclasses(it):
    def dataclass(it_, cls=None, **k):
        if cls is not None:
            return N.make_dataclass(it_, cls, {})
        opts = {n: it_.native(v) for n, v in k.items()}
        return NF("dataclass", lambda i2, c: N.make_dataclass(i2, c, opts))

    def field(it_, *, default=UNBOUND, default_factory=UNBOUND, init=True, repr=True, hash=None, compare=True, metadata=None, kw_only=False):
        return FieldSpec(default, None if default_factory is UNBOUND else default_factory, it_.native(init), it_.native(kw_only), it_.native(compare), it_.native(repr))

    def asdict(it_, v, *, dict_factory=None):
        return it_.lift(lambda x: asdict1(it_, x, dict_factory), restrict(v, it_.pc))

    def asdict1(it_, x, df):
        if not (isinstance(x, Instance) and N.is_dc(x)):
            it_.raise_(TypeError, "asdict() should be called on dataclass instances")
        return N.asdict(it_, x, df)

    def astuple(it_, v, **k):
        def one(x):
            def rec(y):
                y = restrict(y, it_.pc)
                if isinstance(y, Instance) and N.is_dc(y):
                    return tuple(rec(it_.getattr(y, f)) for f in N.dc_fields(y))
                if isinstance(y, tuple):
                    return tuple(rec(z) for z in y)
                if isinstance(y, ListObj):
                    l = ListObj((), it_.pc)
                    l.e = [[g, rec(z)] for g, z in y.e]
                    return l
                return y

            return rec(x)

        return it_.lift(one, v)

    def fields(it_, v):
        def one(x):
            if N.dc_fields(x) is None:
                it_.raise_(TypeError, "must be called with a dataclass type or instance")
            return tuple(N.field_objs(it_, x))

        return it_.lift(one, restrict(v, it_.pc))

    def replace(it_, v, **k):
        def one(x):
            kw = {}
            for f in N.dc_fields(x):
                kw[f] = k[f] if f in k else it_.getattr(x, f)
            return N.instantiate(it_, x.cls, [], kw)

        return it_.lift(one, restrict(v, it_.pc))

    return {
        "dataclass": NF("dataclass", dataclass), "field": NF("field", field), "asdict": NF("asdict", asdict),
        "astuple": NF("astuple", astuple), "fields": NF("fields", fields), "replace": NF("replace", replace),
        "is_dataclass": NF("is_dataclass", lambda it_, v: it_.lift(lambda x: N.is_dc(x), restrict(v, it_.pc))),
        "MISSING": TypeStub("MISSING"), "KW_ONLY": TypeStub("KW_ONLY"), "InitVar": TypeStub("InitVar"),
        "FrozenInstanceError": it.exc_class(AttributeError), "Field": TypeStub("Field"),
    }


def mod_enum(it):
    a = {}
    for n, k in (("Enum", "enum"), ("IntEnum", "int"), ("StrEnum", "str"), ("Flag", "flag"), ("IntFlag", "int")):
        c = ClassObj(n, [it.object_cls], {}, "enum")
        c.enumkind = k
        a[n] = c
    a["auto"] = NF("auto", lambda it_: TypeStub("auto"))
    a["unique"] = NF("unique", lambda it_, c: c)
    return a


# --- contextlib -----------------------------------------------------------------------------------------


def mod_contextlib(it):
    ac = ClassObj("AbstractContextManager", [it.object_cls], {}, "contextlib")
    en = NativeFn("__enter__", lambda it_, a, k: a[0])
    en.method = True
    ac.ns["__enter__"] = en

    class Redirect(Model):
        def __init__(self, it_, *a):
            pass

        def enter(self, it_):
            return None

    return {
        "contextmanager": NF("contextmanager", lambda it_, f: CtxGen(f)),
        "closing": NF("closing", lambda it_, o: GenericCtx("closing", o)),
        "suppress": NF("suppress", lambda it_, *ex: GenericCtx("suppress", list(ex))),
        "nullcontext": NF("nullcontext", lambda it_, v=None: GenericCtx("null", v)),
        "ExitStack": NF("ExitStack", lambda it_: GenericCtx("exitstack", [])),
        "AbstractContextManager": ac,
        "ContextDecorator": ClassObj("ContextDecorator", [it.object_cls], {}, "contextlib"),
        "redirect_stdout": Redirect,
        "redirect_stderr": Redirect,
    }


# --- copy ------------------------------------------------------------------------------------------------


def mod_copy(it):
    return {
        "copy": NF("copy", lambda it_, v: it_.lift(lambda x: N.shallow_copy(it_, x), restrict(v, it_.pc))),
        "deepcopy": NF("deepcopy", lambda it_, v, memo=None: N.deepcopy(it_, v, {})),
    }


# --- configparser / argparse -------------------------------------------------------------------------------


def cp_text(it, path, encoding=None):
    w = it.world
    n = w.files.get(w.abs(path))
    if n is None:
        return None
    ex = conj(n.exists, it.pc)
    if not ex:
        return None
    if ex != it.pc:
        raise Undecided("conditionally existing configuration file")
    c = n.content
    if n.ops:
        raise Undecided("configuration file written by the program")
    if isinstance(c, bytes):
        c = c.decode("utf-8")
    if not isinstance(c, str):
        raise Undecided("symbolic configuration text")
    return c


def cp_read(it, o, filenames, encoding=None):
    fs = it.native(filenames) if not isinstance(filenames, Path) else filenames.pathtext
    single = isinstance(fs, (str, bytes))
    out = []
    for p in [fs] if single else fs:
        t = cp_text(it, p)
        if t is None:
            continue
        it.effect("open", path=it.world.abs(p), mode="r", file=None, encoding=encoding)
        try:
            o.obj.read_string(t, p)
        except Exception as e:
            it.raise_(type(e), *[str(x) for x in e.args])
        out.append(p)
    return mklist(it, out)


def cp_read_file(it, o, f, source=None):
    if isinstance(f, FileObj):
        t = file_read(it, f)
        if isinstance(t, str):
            try:
                o.obj.read_string(t, f.path)
            except Exception as e:
                it.raise_(type(e), *[str(x) for x in e.args])
            return None
    raise Undecided("read_file")


def ap_parse(it, o, args=None, namespace=None):
    import contextlib
    import io

    av = it.native(args) if args is not None else [str(x) for x in it.world.argv[1:]]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf):
            r = o.obj.parse_args(av)
    except SystemExit as e:
        it.effect("print", text=buf.getvalue(), stream="stderr")
        it.raise_(SystemExit, *e.args)
    return NativeObj(r)


def ap_help(it, o, *a, **k):
    it.effect("print", text=o.obj.format_help())


def ap_error(it, o, msg):
    it.effect("print", text=msg, stream="stderr")
    it.raise_(SystemExit, 2)


def nativeobj_attr(it, o, name):
    import argparse

    x = o.obj
    if isinstance(x, _cp.RawConfigParser):
        tab = {"read": cp_read, "read_file": cp_read_file}
    elif isinstance(x, argparse.ArgumentParser):
        tab = {"parse_args": ap_parse, "print_help": ap_help, "print_usage": ap_help, "error": ap_error, "exit": lambda it_, o_, status=0, message=None: it_.raise_(SystemExit, status)}
    else:
        return None
    f = tab.get(name)
    if f is None:
        return None
    return NativeFn(name, lambda it_, a, k: f(it_, o, *a, **k))


# --- sys / time ------------------------------------------------------------------------------------------


class SysMod:
    pass


def mod_sys(it):
    import sys as _sys

    w = it.world
    return {
        "argv": mklist(it, list(w.argv) if w else ["prog"]),
        "exit": NF("exit", M.b_exit),
        "stdout": Stream("stdout"),
        "stderr": Stream("stderr"),
        "stdin": Stream("stdin"),
        "path": mklist(it, ["/repo"]),
        "version_info": tuple(_sys.version_info[:3]),
        "platform": "linux",
        "byteorder": "little",
        "maxsize": _sys.maxsize,
        "float_info": NativeObj(_sys.float_info),
        "modules": DictObj(1),
        "version": _sys.version,
        "getrecursionlimit": NF("g", lambda it_: 1000),
        "setrecursionlimit": NF("s", lambda it_, n: None),
        "exc_info": NF("exc_info", lambda it_: _exc_info(it_)),
        "getsizeof": NF("getsizeof", lambda it_, o: App("sizeof", (0,))),
        "intern": NF("intern", lambda it_, s: s),
        "_getframe": NF("_getframe", lambda it_, *a: _undec("_getframe")),
    }


def _exc_info(it):
    e = it.current_exc[-1] if it.current_exc else None
    if e is None:
        return (None, None, None)
    return (it.lift(lambda x: x.cls, e), e, None)


_tick = [0]


def clock(name):
    def impl(it, *a):
        _tick[0] += 1
        return App("clock", (name, _tick[0]))

    return NF(name, impl)


def mod_time(it):
    a = {n: clock(n) for n in ("time", "perf_counter", "monotonic", "process_time", "time_ns", "perf_counter_ns", "monotonic_ns")}
    a["sleep"] = NF("sleep", lambda it_, s: None)
    a["strftime"] = NF("strftime", lambda it_, *x: mkstr([Opq(("clock", "strftime"))]))
    return a


def mod_math(it):
    a = {}
    for n in dir(math):
        v = getattr(math, n)
        if n.startswith("_"):
            continue
        if callable(v):
            if n in ("prod", "fsum"):
                continue
            a[n] = M.math1(n)
        else:
            a[n] = v
    a["fsum"] = NF("fsum", lambda it_, v: M.to_float(it_, M.b_sum(it_, v)))
    a["prod"] = NF("prod", lambda it_, v, start=1: f_reduce(it_, NF("mul", lambda i2, x, y: i2.binop("Mult", x, y)), v, start))
    return a


def mod_traceback(it):
    return {
        "format_exc": NF("format_exc", lambda it_, *a, **k: mkstr([Opq(("traceback", it_.ncalls))])),
        "print_exc": NF("print_exc", lambda it_, *a, **k: it_.effect("print", text="traceback", stream="stderr") and None),
        "format_exception": NF("format_exception", lambda it_, *a, **k: mklist(it_, [mkstr([Opq(("traceback", it_.ncalls))])])),
        "print_stack": NF("print_stack", lambda it_, *a, **k: None),
    }


def mod_warnings(it):
    return {
        "warn": NF("warn", lambda it_, *a, **k: None), "simplefilter": NF("simplefilter", lambda it_, *a, **k: None),
        "filterwarnings": NF("filterwarnings", lambda it_, *a, **k: None),
    }


def mod_shutil(it):
    return {
        "rmtree": NF("rmtree", lambda it_, p, ignore_errors=False, onerror=None, **k: it_.world.remove_tree(it_, p, bool(it_.native(ignore_errors)))),
        "copy": NF("copy", lambda it_, *a: _undec("shutil.copy")),
        "move": NF("move", lambda it_, s, d: it_.world.rename(it_, s, d)),
        "copyfile": NF("copyfile", lambda it_, *a: _undec("shutil.copyfile")),
    }


def mod_io(it):
    a = {
        "StringIO": MemFile,
        "BytesIO": NF("BytesIO", lambda it_, init=b"": MemFile(it_, init, binary=True)),
        "open": it.builtins["open"],
        "SEEK_SET": 0, "SEEK_CUR": 1, "SEEK_END": 2,
        "DEFAULT_BUFFER_SIZE": 8192,
        "UnsupportedOperation": it.exc_class(OSError),
    }
    import io

    for n in ("TextIOWrapper", "BufferedReader", "BufferedWriter", "IOBase", "TextIOBase", "RawIOBase", "BufferedIOBase", "FileIO"):
        a[n] = getattr(io, n)
    return a


def mod_datetime(it):
    return None


PURE = {
    "re", "string", "textwrap", "unicodedata", "binascii", "base64", "zlib", "bisect", "heapq", "statistics", "fractions",
    "decimal", "numbers", "keyword", "calendar", "hashlib", "cmath", "types", "argparse", "configparser", "datetime", "locale",
    "pprint", "random", "uuid", "gettext", "inspect", "array", "csv", "locale", "errno", "stat", "codecs", "weakref", "gc", "threading", "queue", "signal", "platform", "atexit", "pickle",
}


def real_module(it, name):
    m = importlib.import_module(name)

    def fallback(it_, n):
        if not hasattr(m, n):
            return UNBOUND
        x = getattr(m, n)
        if (name, n) in (("types", "SimpleNamespace"), ("threading", "Lock"), ("threading", "RLock")):
            return it_.import_module("builtins@").ns["Lock" if name == "threading" else n]
        if name == "configparser" and n in ("ConfigParser", "RawConfigParser") and it_.world.symini:
            from . import ini

            return NF(n, lambda i2, *a, **k: ini.SymConfig(i2, *a, **k))
        if isinstance(x, type):
            if issubclass(x, BaseException):
                return it_.exc_class(x)
            return x
        if x is None or isinstance(x, (bool, int, float, str, bytes, tuple, dict, list, set, frozenset)):
            return N.wrap(it_, x)
        if callable(x):
            if name in ("random", "uuid", "platform", "signal", "atexit", "gc", "threading", "pickle", "inspect"):
                return NF(n, lambda i2, *a, **k: _undec(f"{name}.{n}"))
            return NativeFn(n, lambda i2, a, k: nat_or_undecided(i2, x, a, k, f"{name}.{n}"))
        return NativeObj(x)

    return NativeMod(name, {}, fallback)


def mod_bisect(it):
    import bisect as _b

    def locate(op, f):
        def go(it_, seq, x, *a, **k):
            seq = restrict(seq, it_.pc)
            if isinstance(seq, (ListObj, tuple)) and not a and not k:
                ent = [(1, y) for y in seq] if isinstance(seq, tuple) else [tuple(y) for y in seq.e]
                if all(implies(it_.pc, g) and isinstance(y, (int, float)) for g, y in ent) and all(p[1] <= q[1] for p, q in zip(ent, ent[1:])):
                    n = 0
                    for _, y in ent:
                        n = add(n, bit_num(conj(it_.pc, it_.compare(op, y, x))))
                    return restrict(n, it_.pc)
            return nat_or_undecided(it_, f, [seq, x] + list(a), k, "bisect")

        return go

    out = {n: NF(n, locate("Lt" if n == "bisect_left" else "LtE", getattr(_b, n))) for n in ("bisect_left", "bisect_right", "bisect")}
    for n in ("insort", "insort_left", "insort_right"):
        out[n] = NF(n, lambda it_, *a, **k: _undec("insort"))
    return out


def st_iter_unpack(it, f, b):
    size = sum(s for _, s in _fmt_items(it.native(f))[1])

    def one(x):
        n = it.native(N.length(it, x))
        if size == 0 or n % size:
            it.raise_(_struct.error, "iterative unpacking requires a buffer of a multiple of %d bytes" % size)
        return IterObj([(1, st_unpack(it, f, x, i, False)) for i in range(0, n, size)], None, it.pc)

    return it.lift(one, restrict(b, it.pc))


def native_module(it, name):
    if name == "os":
        return NativeMod("os", os_attrs(it))
    if name == "os.path" or name == "posixpath":
        return it.getattr(it.get_module("os"), "path")
    if name == "collections.abc":
        return NativeMod(name, {}, stub_fallback)
    if name == "typing" or name == "typing_extensions":
        return NativeMod(name, mod_typing(it), stub_fallback)
    if name == "logging.handlers":
        return NativeMod(name, {})
    tab = {
        "abc": mod_abc, "dataclasses": mod_dataclasses, "enum": mod_enum, "functools": mod_functools, "itertools": mod_itertools,
        "operator": mod_operator, "math": mod_math, "collections": mod_collections, "contextlib": mod_contextlib, "copy": mod_copy,
        "logging": mod_logging, "sys": mod_sys, "time": mod_time, "traceback": mod_traceback, "warnings": mod_warnings,
        "shutil": mod_shutil, "io": mod_io,
    }
    if name in tab:
        return NativeMod(name, tab[name](it))
    if name == "bisect":
        return NativeMod(name, mod_bisect(it))
    if name == "json":
        return NativeMod("json", {
            "dumps": NF("dumps", json_dumps), "dump": NF("dump", json_dump), "loads": NF("loads", json_loads),
            "load": NF("load", lambda it_, f, **k: json_loads(it_, it_.call(it_.getattr(f, "read"), []))),
            "JSONEncoder": _json_encoder(it), "JSONDecodeError": it.exc_class(_json.JSONDecodeError),
        })
    if name == "struct":
        return NativeMod("struct", {
            "unpack": NF("unpack", st_unpack), "pack": NF("pack", st_pack), "Struct": Struct,
            "unpack_from": NF("unpack_from", lambda it_, f, b, offset=0: st_unpack(it_, f, b, offset, False)),
            "calcsize": NF("calcsize", lambda it_, f: sum(s for _, s in _fmt_items(it_.native(f))[1])),
            "iter_unpack": NF("iter_unpack", st_iter_unpack),
            "error": it.exc_class(_struct.error),
        })
    if name == "glob":
        return NativeMod("glob", {
            "glob": NF("glob", glob_glob), "iglob": NF("iglob", lambda it_, p, **k: it_.get_iter(glob_glob(it_, p, **k))),
        })
    if name == "pathlib":
        return NativeMod("pathlib", {"Path": Path, "PurePath": Path, "PosixPath": Path, "PurePosixPath": Path})
    if name == "__future__":
        return NativeMod(name, {}, stub_fallback)
    if name in PURE:
        return real_module(it, name)
    try:
        import importlib.util

        known = importlib.util.find_spec(name) is not None
    except Exception:
        known = False
    if not known:
        it.raise_(ModuleNotFoundError, f"No module named '{name}'")
    return NativeMod(name, {}, lambda it_, n: _undec(f"library {name}.{n}"))


def _json_encoder(it):
    c = ClassObj("JSONEncoder", [it.object_cls], {}, "json")

    def default(it_, a, k):
        it_.raise_(TypeError, f"Object of type {it_.tname(a[1])} is not JSON serializable")

    f = NativeFn("default", default)
    f.method = True
    c.ns["default"] = f
    return c
