"""Configuration files with abstract content: which sections and options are
present, and their values, are all unknown of the analysis."""

import configparser as _cp

from . import bdd
from .bdd import conj, disj, neg, implies
from .values import *
from .objects import *
from . import natives as N
from .natives import Model

BOOL = _cp.RawConfigParser.BOOLEAN_STATES
_NO = object()


class Ini:
    """abstract file content: {section: (guard, {option: (guard, text)})}"""

    def __init__(self, secs):
        self.secs = secs

    @staticmethod
    def parse(text):
        p = _cp.ConfigParser()
        p.read_string(text)
        return Ini({s: (1, {k: (1, v) for k, v in p.items(s)}) for s in p.sections()})


class Sec:
    def __init__(self):
        self.g = 0
        self.opts = {}  # name -> [present guard, value]


class SymConfig(Model):
    def __init__(self, it, *a, **k):
        if a or any(x not in ("interpolation", "inline_comment_prefixes", "comment_prefixes", "default_section") for x in k):
            raise Undecided("ConfigParser options")
        self.secs = {}

    # --- reading

    def load(self, it, ini):
        for s, (g, opts) in ini.secs.items():
            here = conj(it.pc, g)
            if not here:
                continue
            sec = self.secs.setdefault(s, Sec())
            sec.g = disj(sec.g, here)
            for o, (h, v) in opts.items():
                w = conj(here, h)
                if not w:
                    continue
                old = sec.opts.get(o)
                if old is None:
                    sec.opts[o] = [w, v]
                else:
                    keep = bdd.diff(old[0], w)
                    old[1] = merge([(w, v), (keep, old[1])]) if keep else v
                    old[0] = disj(old[0], w)

    def m_read(self, it, filenames, encoding=None):
        from . import lib

        fs = it.native(filenames) if not hasattr(filenames, "pathtext") else filenames.pathtext
        out = ListObj((), it.pc)
        for p in [fs] if isinstance(fs, (str, bytes)) else fs:
            n = it.world.files.get(it.world.abs(p))
            ex = conj(n.exists, it.pc) if n else 0
            if not ex:
                continue
            c = n.content
            if not isinstance(c, Ini):
                if n.ops or not isinstance(c, (str, bytes)):
                    raise Undecided("configuration text")
                c = Ini.parse(c if isinstance(c, str) else c.decode())
            full = it.pc
            it.pc = ex
            it.effect("open", path=it.world.abs(p), mode="r", file=None, encoding=encoding)
            self.load(it, c)
            it.pc = full
            out.e.append([ex, p])
        return out

    def m_read_file(self, it, f, source=None):
        c = f.node.content if isinstance(f, FileObj) else None
        if not isinstance(c, Ini):
            raise Undecided("read_file")
        self.load(it, c)

    # --- queries

    def m_sections(self, it):
        l = ListObj((), it.pc)
        l.e = [[1 if implies(it.pc, s.g) else conj(s.g, it.pc), n] for n, s in self.secs.items() if conj(s.g, it.pc)]
        return l

    def m_defaults(self, it):
        return N.wrap(it, {})

    def hsec(self, name):
        s = self.secs.get(name) if isinstance(name, str) else None
        return s.g if s else 0

    def hopt(self, sec, opt):
        s = self.secs.get(sec)
        if not isinstance(opt, str):
            raise Undecided("symbolic option name")
        o = s.opts.get(opt.lower()) if s else None
        return conj(s.g, o[0]) if o else 0

    def m_has_section(self, it, sec):
        return mkbool(self.hsec(sec))

    def m_has_option(self, it, sec, opt):
        return mkbool(self.hopt(sec, opt))

    def m___contains__(self, it, sec):
        if sec == "DEFAULT":
            return True
        return mkbool(self.hsec(sec))

    def m___iter__(self, it):
        l = self.m_sections(it)
        l.e.insert(0, [1, "DEFAULT"])
        return l

    def m_keys(self, it):
        return self.m___iter__(it)

    def m___len__(self, it):
        return N.length(it, self.m___iter__(it))

    def m___getitem__(self, it, sec):
        def one(x):
            if x == "DEFAULT":
                return SymSection(self, x)
            it.may_raise(neg(self.hsec(x)), KeyError, x)
            return SymSection(self, x)

        return it.lift(one, sec)

    def olist(self, it, sec):
        s = self.secs.get(sec)
        l = ListObj((), it.pc)
        if s:
            for o, (g, v) in s.opts.items():
                h = conj(conj(s.g, g), it.pc)
                if h:
                    l.e.append([1 if implies(it.pc, h) else h, o])
        return l

    def m_options(self, it, sec):
        it.may_raise(neg(self.hsec(sec)), _cp.NoSectionError, sec)
        return self.olist(it, sec)

    def ilist(self, it, sec):
        s = self.secs[sec]
        l = self.olist(it, sec)
        l.e = [[g, (o, s.opts[o][1])] for g, o in l.e]
        return l

    def m_items(self, it, sec=_NO, *a, **k):
        if sec is _NO or a or k:
            raise Undecided("ConfigParser.items")
        it.may_raise(neg(self.hsec(sec)), _cp.NoSectionError, sec)
        return self.ilist(it, sec)

    def value(self, it, sec, opt, conv, fallback, strict):
        """value of an option; fallback (or an error) where it is missing"""

        def one(o):
            h = conj(it.pc, self.hopt(sec, o))
            full = it.pc
            if fallback is _NO and strict:
                it.may_raise(neg(self.hsec(sec)), _cp.NoSectionError, sec)
                it.may_raise(neg(h), _cp.NoOptionError, o, sec)
                return self.conv(it, restrict(self.secs[sec].opts[o.lower()][1], it.pc), conv)
            fb = None if fallback is _NO else fallback
            if not h:
                return fb
            if implies(it.pc, h):
                return self.conv(it, restrict(self.secs[sec].opts[o.lower()][1], it.pc), conv)
            r = []
            rest = bdd.diff(full, h)
            N.guarded(it, h, lambda: r.append((it.pc, self.conv(it, restrict(self.secs[sec].opts[o.lower()][1], it.pc), conv))))
            return merge([(conj(g, it.pc), x) for g, x in r] + [(conj(rest, it.pc), fb)])

        return it.lift(one, opt)

    def conv(self, it, v, conv):
        if conv is None:
            return v
        if conv == "bool":

            def one(x):
                if isinstance(x, str):
                    if x.lower() not in BOOL:
                        it.raise_(ValueError, "Not a boolean: %s" % x)
                    return BOOL[x.lower()]
                raise Undecided("boolean of symbolic text")

            return it.lift(one, v)
        return it.call(int if conv == "int" else float, [v])

    def m_get(self, it, sec, opt, *, raw=False, vars=None, fallback=_NO):
        return self.value(it, sec, opt, None, fallback, True)

    def m_getint(self, it, sec, opt, *, raw=False, vars=None, fallback=_NO):
        return self.value(it, sec, opt, "int", fallback, True)

    def m_getfloat(self, it, sec, opt, *, raw=False, vars=None, fallback=_NO):
        return self.value(it, sec, opt, "float", fallback, True)

    def m_getboolean(self, it, sec, opt, *, raw=False, vars=None, fallback=_NO):
        return self.value(it, sec, opt, "bool", fallback, True)

    def m_clear(self, it):
        if it.pc != 1:
            raise Undecided("conditional clear")
        self.secs.clear()


class SymSection(Model):
    def __init__(self, p, name):
        self.p = p
        self.name = name

    def attr(self, it, name):
        if name == "name":
            return self.name
        if name == "parser":
            return self.p
        return super().attr(it, name)

    def m_get(self, it, opt, fallback=None, **k):
        return self.p.value(it, self.name, opt, None, fallback, False)

    def m_getint(self, it, opt, fallback=None, **k):
        return self.p.value(it, self.name, opt, "int", fallback, False)

    def m_getfloat(self, it, opt, fallback=None, **k):
        return self.p.value(it, self.name, opt, "float", fallback, False)

    def m_getboolean(self, it, opt, fallback=None, **k):
        return self.p.value(it, self.name, opt, "bool", fallback, False)

    def m___getitem__(self, it, opt):
        def one(o):
            it.may_raise(neg(self.p.hopt(self.name, o)), KeyError, o)
            return restrict(self.p.secs[self.name].opts[o.lower()][1], it.pc)

        return it.lift(one, opt)

    def m___contains__(self, it, opt):
        return mkbool(self.p.hopt(self.name, opt))

    def m___iter__(self, it):
        return self.p.olist(it, self.name)

    def m_keys(self, it):
        return self.p.olist(it, self.name)

    def m_items(self, it):
        return self.p.ilist(it, self.name)

    def m_values(self, it):
        l = self.p.ilist(it, self.name)
        l.e = [[g, x[1]] for g, x in l.e]
        return l

    def m___len__(self, it):
        return N.length(it, self.p.olist(it, self.name))
