"""Model of the environment: file system, console, command line."""

import os
import codecs
import posixpath

from . import bdd
from .bdd import conj, disj, neg, implies
from .values import *
from .objects import *


class FNode:
    """A file of the modelled file system."""

    def __init__(self, path, content=b"", exists=1):
        self.path = path
        self.content = content  # initial content
        self.exists = exists  # guard
        self.ops = []  # ("trunc", g, site) | ("write", g, text, site)


class World:
    def __init__(self, files=None, dirs=(), cwd="/w", argv=("prog",), inputs=(), faults=None):
        self.cwd = cwd
        self.files = {}
        self.dirs = {"/": 1}
        self.argv = list(argv)
        self.inputs = list(inputs)
        self.faults = faults  # callable(kind, path) -> guard
        self.nth = {}
        self.symini = any(type(c).__name__ == 'Ini' for c in (files or {}).values())
        self.loggers = {}
        self.handlers = []
        self.level_names = {}
        self.opened = []
        self.mkdirs(cwd)
        for d in dirs:
            self.mkdirs(self.abs(d))
        for p, c in (files or {}).items():
            p = self.abs(p)
            self.mkdirs(posixpath.dirname(p))
            self.files[p] = FNode(p, c)

    def mkdirs(self, p, g=1):
        while p and p != "/":
            self.dirs[p] = disj(self.dirs.get(p, 0), g)
            p = posixpath.dirname(p)

    def abs(self, p):
        return posixpath.normpath(posixpath.join(self.cwd, p))

    def path(self, it, p):
        """abstract path -> text (or G of texts)"""
        from . import natives as N

        p = restrict(p, it.pc)

        def one(x):
            if isinstance(x, str):
                return x
            if isinstance(x, bytes):
                return x.decode()
            if hasattr(x, "pathtext"):
                return x.pathtext
            if isinstance(x, SStr):
                e = it.expand(x, 256)
                if e is not None and e is not x:
                    return it.lift(one, restrict(e, it.pc))
                raise Undecided("path depends on data")
            if isinstance(x, Instance) and x.cls.lookup("__fspath__")[0] is not UNBOUND:
                return it.call(it.getattr(x, "__fspath__"), [])
            it.raise_(TypeError, f"expected str, bytes or os.PathLike object, not {it.tname(x)}")

        return it.lift(one, p)

    def inject(self, it, kind, path, exc, *args):
        """raise the environment's fault, if it may occur here.  The model
        answers a guard, or [(guard, exception type)]"""
        if self.faults is None:
            return
        n = self.nth.get((kind, path), 0)
        self.nth[kind, path] = n + 1
        f = self.faults(kind, path, n)
        if not f:
            return
        if isinstance(f, list):
            for g, e in f:
                it.may_raise(g, e, *(args if issubclass(e, OSError) else ()))
        else:
            it.may_raise(f, exc, *args)

    # --- queries

    def g_isfile(self, p):
        n = self.files.get(self.abs(p))
        return n.exists if n else 0

    def g_isdir(self, p):
        return self.dirs.get(self.abs(p), 0)

    def g_exists(self, p):
        return disj(self.g_isfile(p), self.g_isdir(p))

    # --- opening

    def open(self, it, path, mode="r", encoding=None, newline=None, errors=None):
        p = self.path(it, path)
        return it.lift(lambda x, m, e, n, r: self.open1(it, x, m, e, n, r), p, mode, encoding, newline, errors)

    def open1(self, it, path, mode, encoding=None, newline=None, errors=None):
        if not isinstance(mode, str) or not set(mode) <= set("rwaxbt+"):
            it.raise_(ValueError, f"invalid mode: {mode!r}")
        if isinstance(encoding, str) and encoding != "locale":
            try:
                encoding = codecs.lookup(encoding).name
            except LookupError as e:
                it.raise_(LookupError, *e.args)
        if "b" in mode and (encoding is not None or newline is not None or errors is not None):
            it.raise_(ValueError, "binary mode doesn't take an encoding, errors or newline argument")
        a = self.abs(path)
        self.inject(it, "open", a, OSError, 5, "Input/output error", path)
        it.may_raise(self.g_isdir(a), IsADirectoryError, 21, "Is a directory", path)
        node = self.files.get(a)
        if mode[0] == "r":
            ex = node.exists if node else 0
            it.may_raise(neg(ex), FileNotFoundError, 2, "No such file or directory", path)
        else:
            par = self.dirs.get(posixpath.dirname(a), 0)
            it.may_raise(neg(par), FileNotFoundError, 2, "No such file or directory", path)
            if mode[0] == "x" and node:
                it.may_raise(node.exists, FileExistsError, 17, "File exists", path)
            if node is None:
                node = FNode(a, b"", 0)
                self.files[a] = node
            if mode[0] in "wx":
                node.ops.append(("trunc", it.pc, it.site()))
            node.exists = disj(node.exists, it.pc)
        fo = FileObj(path, mode, None, it.pc)
        fo.node = node
        fo.abspath = a
        fo.encoding = encoding
        fo.newline = newline
        fo.errors = errors
        self.opened.append(fo)
        it.effect("open", path=a, mode=mode, file=fo, encoding=encoding)
        return fo

    def content(self, it, fo):
        """readable content of the file under pc"""
        node = fo.node
        c = node.content
        if node.ops:
            acc = c if not isinstance(c, bytes) or "b" in fo.mode else c
            text = None
            for op in node.ops:
                g = conj(op[1], it.pc)
                if not g:
                    continue
                if g != it.pc:
                    raise Undecided("reading a conditionally written file")
                if op[0] == "trunc":
                    text = ""
                else:
                    if text is None:
                        text = self.totext(c) if "b" not in fo.mode else c
                    if isinstance(op[2], (bytes, ABytes)):
                        text = it.binop("Add", b"" if text == "" else text, op[2])
                    else:
                        text = it.concat_parts([text, op[2]])
            if text is not None:
                return text
        if "b" in fo.mode:
            if isinstance(c, str):
                return c.encode()
            return c
        return self.totext(c)

    def totext(self, c):
        if isinstance(c, bytes):
            return c.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
        return c

    # --- operations

    def mkdir(self, it, path, parents=False, exist_ok=False):
        def one(p):
            a = self.abs(p)
            self.inject(it, "mkdir", a, OSError, 13, "Permission denied", p)
            ex = self.g_isdir(a)
            it.may_raise(self.g_isfile(a), FileExistsError, 17, "File exists", p)
            if not exist_ok:
                it.may_raise(ex, FileExistsError, 17, "File exists", p)
            par = posixpath.dirname(a)
            if not parents:
                it.may_raise(neg(self.g_isdir(par)), FileNotFoundError, 2, "No such file or directory", p)
            new = bdd.diff(it.pc, self.g_isdir(a))
            if new:
                full = it.pc
                it.pc = new
                it.effect("mkdir", path=a)
                it.pc = full
            if parents:
                self.mkdirs(a, it.pc)
            else:
                self.dirs[a] = disj(self.dirs.get(a, 0), it.pc)

        it.lift(one, self.path(it, path))

    def remove_tree(self, it, path, ignore_errors=False):
        def one(p):
            a = self.abs(p)
            full = it.pc
            if ignore_errors is True:
                if self.faults is not None:
                    f = self.faults("rmtree", a, 0)
                    if isinstance(f, list):
                        raise Undecided("interrupt while a tree is removed")
                    it.pc = bdd.diff(it.pc, f)
                if it.pc == 0:
                    it.pc = full
                    return
            else:
                self.inject(it, "rmtree", a, OSError, 13, "Permission denied", p)
                it.may_raise(neg(self.g_isdir(a)), FileNotFoundError, 2, "No such file or directory", p)
            it.effect("rmtree", path=a)
            for d in list(self.dirs):
                if d == a or d.startswith(a.rstrip("/") + "/"):
                    self.dirs[d] = bdd.diff(self.dirs[d], it.pc)
            for n in self.files.values():
                if n.path.startswith(a.rstrip("/") + "/"):
                    n.exists = bdd.diff(n.exists, it.pc)
                    n.ops.append(("trunc", it.pc, it.site()))
            if ignore_errors is True:
                it.pc = full

        it.lift(one, self.path(it, path))

    def remove(self, it, path, missing_ok=False):
        def one(p):
            a = self.abs(p)
            self.inject(it, "remove", a, OSError, 13, "Permission denied", p)
            n = self.files.get(a)
            ex = n.exists if n else 0
            if not missing_ok:
                it.may_raise(neg(ex), FileNotFoundError, 2, "No such file or directory", p)
            full = it.pc
            k = conj(it.pc, ex)
            if k:
                it.pc = k
                it.effect("remove", path=a)
                n.exists = bdd.diff(n.exists, k)
                n.ops.append(("trunc", k, it.site()))
                it.pc = full

        it.lift(one, self.path(it, path))

    def rmdir(self, it, path):
        def one(p):
            a = self.abs(p)
            it.may_raise(neg(self.g_isdir(a)), FileNotFoundError, 2, "No such file or directory", p)
            busy = 0
            for d, g in self.dirs.items():
                if posixpath.dirname(d) == a and d != a:
                    busy = disj(busy, g)
            for n in self.files.values():
                if posixpath.dirname(n.path) == a:
                    busy = disj(busy, n.exists)
            it.may_raise(busy, OSError, 39, "Directory not empty", p)
            it.effect("rmdir", path=a)
            self.dirs[a] = bdd.diff(self.dirs[a], it.pc)

        it.lift(one, self.path(it, path))

    def rename(self, it, src, dst):
        def one(s, d):
            a, b = self.abs(s), self.abs(d)
            it.effect("rename", path=a, dst=b)
            if a in self.files:
                n = self.files[a]
                it.may_raise(neg(n.exists), FileNotFoundError, 2, "No such file or directory", s)
                if it.pc != 1 and not implies(n.exists, it.pc):
                    raise Undecided("conditional rename")
                m = FNode(b, n.content, n.exists)
                m.ops = n.ops
                self.files[b] = m
                n.exists = bdd.diff(n.exists, it.pc)
                n.ops = []
            elif a in self.dirs:
                raise Undecided("rename of a directory")
            else:
                it.raise_(FileNotFoundError, 2, "No such file or directory", s)

        it.lift(one, self.path(it, src), self.path(it, dst))

    def listdir(self, it, path):
        """[(guard, name)]"""
        a = self.abs(path)
        it.may_raise(neg(self.g_isdir(a)), FileNotFoundError, 2, "No such file or directory", path)
        out = []
        for d, g in sorted(self.dirs.items()):
            if posixpath.dirname(d) == a and d != a and g:
                out.append((g, posixpath.basename(d)))
        for n in sorted(self.files):
            if posixpath.dirname(n) == a and self.files[n].exists:
                out.append((self.files[n].exists, posixpath.basename(n)))
        return out

    # --- observables

    def written(self, path):
        """[(guard, text, site)] surviving writes of a file"""
        n = self.files.get(path)
        if n is None:
            return []
        out = []
        for op in n.ops:
            if op[0] == "trunc":
                out = [(bdd.diff(g, op[1]), t, s) for g, t, s in out]
                out = [x for x in out if x[0]]
            else:
                out.append((op[1], op[2], op[3]))
        return out
