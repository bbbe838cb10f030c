"""Abstract interpreter over the syntax trees of the repository.

Nothing of the repository is imported or executed.  Every statement is
evaluated once per control context in the abstract domain of values.py; the
store is joined at every merge point (guarded values), loops run until their
continuation guard is empty.
"""

import ast
import os
import threading
import time
import builtins as pyb

from . import bdd
from .bdd import conj, disj, neg, implies
from . import values
from .values import *
from .values import _is_pow2
from .objects import *


class NotConcrete(Exception):
    pass


class NTuple(tuple):
    cls = None


MAX_LOOP = 60000


# --- source loading -------------------------------------------------------------------


class _Mangler(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    def m(self, name):
        if self.cls and name and name.startswith("__") and not name.endswith("__"):
            c = self.cls[-1].lstrip("_")
            return f"_{c}{name}" if c else name
        return name

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.cls.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.cls.pop()
        return node

    def visit_Name(self, node):
        node.id = self.m(node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.m(node.attr)
        return node

    def visit_FunctionDef(self, node):
        node.orig_name = node.name
        self.generic_visit(node)
        node.name = self.m(node.name)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arg(self, node):
        self.generic_visit(node)
        node.arg = self.m(node.arg)
        return node

    def visit_keyword(self, node):
        self.generic_visit(node)
        node.arg = self.m(node.arg)
        return node

    def visit_Global(self, node):
        node.names = [self.m(x) for x in node.names]
        return node

    visit_Nonlocal = visit_Global


PRELUDE = "builtins@"


class Source:
    """Parsed repository (shared by all scenarios of a run)."""

    def __init__(self, root):
        self.root = root
        self.trees = {}
        self.missing = set()
        self.fscope = {}

    def find(self, modname):
        if modname == PRELUDE:
            return PRELUDE, False
        rel = modname.replace(".", "/")
        p = os.path.join(self.root, rel)
        if os.path.isfile(p + ".py"):
            return rel + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return rel + "/__init__.py", True
        if os.path.isdir(p) and any(f.endswith(".py") for f in os.listdir(p)):
            return rel, None  # namespace package
        return None, False

    def tree(self, rel):
        t = self.trees.get(rel)
        if t is None:
            at = os.path.join(self.root, rel) if rel != PRELUDE else os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.txt")
            with open(at, encoding="utf-8") as f:
                src = f.read()
            t = ast.parse(src, rel)
            t = _Mangler().visit(t)
            self.trees[rel] = t
        return t


class FInfo:
    __slots__ = ("locals", "globals", "nonlocals", "isgen", "nested")


def finfo(node):
    fi = getattr(node, "_finfo", None)
    if fi is not None:
        return fi
    fi = FInfo()
    fi.locals, fi.globals, fi.nonlocals = set(), set(), set()
    fi.isgen = False
    fi.nested = False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        fi.locals.add(x.arg)
    if a.vararg:
        fi.locals.add(a.vararg.arg)
    if a.kwarg:
        fi.locals.add(a.kwarg.arg)

    def walk(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi.locals.add(n.name)
            fi.nested = True
            for d in n.decorator_list:
                walk(d)
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                walk(d)
            return
        if isinstance(n, ast.ClassDef):
            fi.locals.add(n.name)
            fi.nested = True
            return
        if isinstance(n, ast.Lambda):
            fi.nested = True
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            fi.isgen = True
        if isinstance(n, ast.Global):
            fi.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            fi.nonlocals.update(n.names)
        elif isinstance(n, ast.NamedExpr):
            fi.locals.add(n.target.id)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if not comp:
                fi.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            fi.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                fi.locals.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            fi.locals.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            fi.locals.add(n.rest)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            fi.nested = fi.nested or isinstance(n, ast.GeneratorExp)
            for g in n.generators:
                walk(g.target, True)
                walk(g.iter, comp)
                for c in g.ifs:
                    walk(c, comp)
            if isinstance(n, ast.DictComp):
                walk(n.key, comp)
                walk(n.value, comp)
            else:
                walk(n.elt, comp)
            return
        for ch in ast.iter_child_nodes(n):
            walk(ch, comp)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    fi.locals -= fi.globals
    fi.locals -= fi.nonlocals
    node._finfo = fi
    return fi


class Scope:
    __slots__ = ("vars", "parent", "module", "birth", "kind", "info", "func", "returns", "loops", "try_depth", "yield_to", "self0", "cls")

    def __init__(self, kind, parent, module, birth, info=None, func=None):
        self.kind = kind
        self.parent = parent
        self.module = module
        self.birth = birth
        self.info = info
        self.func = func
        self.vars = {}
        self.returns = []
        self.loops = []
        self.try_depth = 0
        self.yield_to = None
        self.self0 = None
        self.cls = None


class LoopCtx:
    __slots__ = ("brk", "cont")

    def __init__(self):
        self.brk = 0
        self.cont = 0


class GenThread:
    """Generator function evaluated as a coroutine of the interpreter."""

    def __init__(self, interp, scope, body):
        self.it = interp
        self.scope = scope
        self.body = body
        self.started = False
        self.done = False
        self.resume_ev = threading.Semaphore(0)
        self.yield_ev = threading.Semaphore(0)
        self.item = None
        self.err = None
        self.alive = 1
        self.sinks = [None]
        self.stack = []
        scope.yield_to = self
        self.retval = None
        self.kill = False
        self.inject = []
        self.sent = None

    def __iter__(self):
        return self

    def _run(self):
        self.resume_ev.acquire()
        it = self.it
        if self.kill:
            self.done = True
            self.yield_ev.release()
            return
        try:
            it.cur = self.scope.func
            it.curscope = self.scope
            it.ex_block(self.body, self.scope)
        except PathDead:
            it.pc = 0
        except GeneratorExit:
            pass
        except BaseException as e:  # propagate to the consumer
            self.err = e
        rets = [g for g, _ in self.scope.returns]
        self.retval = list(self.scope.returns)
        pc = it.pc
        for g in rets:
            pc = disj(pc, g)
        it.pc = pc
        self.done = True
        self.yield_ev.release()

    def __next__(self):
        if self.done:
            raise StopIteration
        it = self.it
        if not self.started:
            self.started = True
            self.scope.birth = it.pc
            self.pc_base = it.pc
            threading.stack_size(64 * 1024 * 1024)
            t = threading.Thread(target=self._run, daemon=True)
            t.start()
        sinks, stack, cur, line = it.sinks, it.stack, it.cur, it.line
        cscope, cexc = it.curscope, it.current_exc
        self.sinks[0] = sinks[-1]
        it.sinks = self.sinks
        it.stack = stack + self.stack
        self.alive = it.pc
        self.resume_ev.release()
        self.yield_ev.acquire()
        it.sinks, it.stack, it.cur, it.line = sinks, stack, cur, line
        it.curscope, it.current_exc = cscope, cexc
        if self.err is not None:
            e, self.err = self.err, None
            raise e
        if self.done:
            it.pc = conj(it.pc, self.alive) if it.pc else it.pc
            if it.pc == 0:
                raise PathDead()
            raise StopIteration
        g, v = self.item
        # consumer continues in everything that was alive and did not raise
        return g, v

    def do_yield(self, v):
        it = self.it
        g = conj(it.pc, self.alive)
        if g == 0:
            return
        self.item = (g, v)
        pc = it.pc
        mysinks = it.sinks
        cur, line = it.cur, it.line
        cscope, cexc = it.curscope, it.current_exc
        it.pc = self.alive
        self.yield_ev.release()
        self.resume_ev.acquire()
        if self.kill:
            raise GeneratorExit
        # alive was set by __next__ to the consumer's pc
        it.sinks = mysinks
        it.cur, it.line = cur, line
        it.curscope, it.current_exc = cscope, cexc
        it.pc = conj(pc, self.alive)
        inj, self.inject = self.inject, []
        for h, e in inj:
            h = conj(h, it.pc)
            if h:
                it.sinks[-1].append((h, e))
                it.pc = bdd.diff(it.pc, h)
        sent, self.sent = self.sent, None
        if it.pc == 0:
            raise PathDead()
        return sent


def gbits(v):
    """a choice of many non-negative integers as one bit vector (exact)"""
    if not isinstance(v, G) or len(v.alts) < 5 and all(type(x) is int for _, x in v.alts):
        return v
    rows = []
    for g, x in v.alts:
        if type(x) is not int and not isinstance(x, Num):
            return v
        r = to_bits(x)
        if r is None or r[1] or len(r[0]) > 128:
            return v
        rows.append((g, r[0]))
    bits = [0] * max(len(r) for _, r in rows)
    for g, r in rows:
        for i, b in enumerate(r):
            if b:
                bits[i] = disj(bits[i], conj(g, b))
    return from_bits(bits)


class Unmodelled:
    def __init__(self, what):
        self.what = what

    def get(self, *a):
        raise Undecided(self.what)


def unmodelled(what):
    def call(it, args, kwargs):
        raise Undecided(what)

    f = NativeFn(what, call)
    f.attrs = Unmodelled(what)
    return f


class Interp:
    def __init__(self, source, world=None):
        from . import natives

        self.src = source
        self.pc = 1
        self.modules = {}
        self.sinks = [[]]
        self.stack = []
        self.cur = None
        self.line = 0
        self.effects = []
        self.world = world
        self.functions = set()
        self.nstmts = 0
        self.ncalls = 0
        self.njoins = 0
        self.exc_cache = {}
        self.object_cls = ClassObj("object", [], {}, "builtins", object)
        self.natives = natives
        self.builtins = natives.make_builtins(self)
        self.natmods = {}
        if world is not None:
            world.it = self

    # --- small helpers -------------------------------------------------------------

    def site(self):
        f = self.cur
        if f is None:
            return "<driver>"
        return f"{f.module.file}:{self.line} {f.qual}"

    def callstack(self):
        out = [self.site()]
        for f, ln in reversed(self.stack):
            if f is not None:
                out.append(f"{f.module.file}:{ln} {f.qual}")
        return out

    def effect(self, kind, **data):
        if self.pc == 0:
            raise PathDead()
        e = Effect(kind, self.pc, data, self.callstack())
        self.effects.append(e)
        return e

    def exc_class(self, pytype):
        c = self.exc_cache.get(pytype)
        if c is None:
            if pytype is object:
                return self.object_cls
            bases = [self.exc_class(b) for b in pytype.__bases__]
            c = ClassObj(pytype.__name__, bases, {}, pytype.__module__, pytype)
            self.exc_cache[pytype] = c
        return c

    def make_exc(self, pytype, *args):
        cls = pytype if isinstance(pytype, ClassObj) else self.exc_class(pytype)
        i = Instance(cls, self.pc)
        i.attrs["args"] = tuple(args)
        if cls.native and issubclass(cls.native, OSError):
            i.attrs["errno"] = args[0] if len(args) > 1 else None
            i.attrs["strerror"] = args[1] if len(args) > 1 else None
            i.attrs["filename"] = args[2] if len(args) > 2 else None
        return i

    def throw(self, exc):
        """raise exc on the whole current pc"""
        exc.sites.setdefault("raised", self.site())
        self.sinks[-1].append((self.pc, exc))
        sc = self.curscope
        if sc is not None and sc.try_depth == 0 and sc.info is not None and not sc.info.nested and sc.yield_to is None:
            sc.birth = bdd.diff(sc.birth, self.pc)
        self.pc = 0
        raise PathDead()

    curscope = None
    deadline = None

    def raise_(self, pytype, *args):
        self.throw(self.make_exc(pytype, *args))

    def may_raise(self, node, pytype, *args):
        c = conj(self.pc, node)
        if c == 0:
            return
        if c == self.pc:
            self.raise_(pytype, *args)
        exc = self.make_exc(pytype, *args)
        exc.birth = c
        exc.sites["raised"] = self.site()
        self.sinks[-1].append((c, exc))
        self.pc = bdd.diff(self.pc, c)

    def lift(self, f, *args):
        """Apply f to every feasible combination of alternatives."""
        if not any(type(a) is G for a in args):
            return f(*args)
        combos = [(self.pc, ())]
        for a in args:
            if type(a) is G:
                nxt = []
                for g, vs in combos:
                    for h, x in a.alts:
                        k = conj(g, h)
                        if k:
                            nxt.append((k, vs + (x,)))
                combos = nxt
            else:
                combos = [(g, vs + (a,)) for g, vs in combos]
        cov = 0
        for g, _ in combos:
            cov = disj(cov, g)
        if cov != self.pc:
            # a value that exists on part of the path only: the analysis lost track, give no answer
            raise Undecided("value defined on part of the path")
        if len(combos) == 1:
            self.pc = combos[0][0]
            return f(*combos[0][1])
        if len(combos) > 5000:
            raise Undecided("too many alternatives")
        return self.split(combos, lambda vs: f(*vs))

    def split(self, combos, f):
        """Evaluate f per (guard, payload); join."""
        res = []
        after = 0
        for g, vs in combos:
            self.pc = g
            try:
                r = f(vs)
            except PathDead:
                continue
            if self.pc == 0:
                continue
            res.append((self.pc, r))
            after = disj(after, self.pc)
        self.pc = after
        if after == 0:
            raise PathDead()
        self.njoins += 1
        return merge(res)

    def branch(self, node, ft, ff):
        """Evaluate ft under node, ff under not node; join values."""
        t = conj(self.pc, node)
        f = bdd.diff(self.pc, node)
        if f == 0:
            return ft()
        if t == 0:
            return ff()
        return self.split([(t, ft), (f, ff)], lambda fn: fn())

    def concretize(self, v, limit=1100):
        """int-like value -> value/G of native ints under pc"""
        v = restrict(v, self.pc)
        if isinstance(v, G):
            out = []
            for g, x in v.alts:
                k = conj(g, self.pc)
                if not k:
                    continue
                if isinstance(x, Num):
                    out += enum_values(x, k, limit)
                elif isinstance(x, B):
                    out += [(conj(k, x.n), 1), (bdd.diff(k, x.n), 0)]
                else:
                    out.append((k, x))
            return merge(out)
        if isinstance(v, Num):
            return merge(enum_values(v, self.pc, limit))
        if isinstance(v, B):
            return merge([(conj(self.pc, v.n), 1), (bdd.diff(self.pc, v.n), 0)])
        return v

    # --- store --------------------------------------------------------------------

    def upd(self, old, new, birth):
        """value after writing `new` under pc"""
        if implies(birth, self.pc):
            return new
        npc = neg(self.pc)
        parts = [(self.pc, new)]
        if isinstance(old, G):
            parts += [(conj(g, npc), x) for g, x in old.alts]
        else:
            parts.append((conj(npc, birth) if old is UNBOUND else npc, old))
        if isinstance(old, G):
            parts = [p for p in parts if p[0]]
        try:
            return merge(parts)
        except PathDead:
            return new

    def bound(self, v, exc, msg):
        """resolve UNBOUND alternatives"""
        v = restrict(v, self.pc)
        if v is UNBOUND:
            self.raise_(exc, msg)
        if isinstance(v, G) and any(x is UNBOUND for _, x in v.alts):
            ug = 0
            for g, x in v.alts:
                if x is UNBOUND:
                    ug = disj(ug, g)
            self.may_raise(ug, exc, msg)
            v = merge([(g, x) for g, x in v.alts if x is not UNBOUND])
            v = restrict(v, self.pc)
        return v

    def lookup(self, name, sc):
        s = sc
        first = True
        while s is not None:
            if s.kind == "class" and not first:
                s = s.parent
                continue
            if s.info is not None and name in s.info.globals:
                break
            if name in s.vars:
                return self.bound(s.vars[name], UnboundLocalError if first else NameError, f"name '{name}' is not defined")
            if s.info is not None and name in s.info.locals:
                self.raise_(UnboundLocalError, f"cannot access local variable '{name}'")
            if s.kind != "comp":
                first = False
            s = s.parent
        ns = sc.module.ns
        if name in ns:
            return self.bound(ns[name], NameError, f"name '{name}' is not defined")
        if name in self.builtins:
            return self.builtins[name]
        self.raise_(NameError, f"name '{name}' is not defined")

    def assign_name(self, name, v, sc):
        s = sc
        if s.kind == "comp":
            # comprehension target
            s.vars[name] = v
            return
        if s.info is not None and name in s.info.globals or s.kind == "module":
            ns = sc.module.ns
            ns[name] = self.upd(ns.get(name, UNBOUND), v, 1)
            return
        if s.info is not None and name in s.info.nonlocals:
            p = s.parent
            while p is not None:
                if p.kind == "func" and name in p.info.locals:
                    p.vars[name] = self.upd(p.vars.get(name, UNBOUND), v, p.birth)
                    return
                p = p.parent
            raise Undecided("nonlocal")
        s.vars[name] = self.upd(s.vars.get(name, UNBOUND), v, s.birth)

    # --- modules ------------------------------------------------------------------

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.import_module(name.rpartition(".")[0])
        rel, pkg = self.src.find(name)
        if rel is None:
            return None
        m = ModuleObj(name, rel)
        m.ns["__name__"] = name
        m.ns["__file__"] = os.path.join(self.src.root, rel)
        self.modules[name] = m
        if pkg is not None:
            m.ispkg = pkg
            tree = self.src.tree(rel)
            sc = Scope("module", None, m, 1)
            save = (self.pc, self.cur, self.line)
            self.pc = 1
            mf = FuncObj.__new__(FuncObj)
            mf.module, mf.qual, mf.name, mf.attrs = m, "<module>", "<module>", {}
            self.stack.append((self.cur, self.line))
            self.cur = mf
            try:
                self.ex_block(tree.body, sc)
                ok = self.pc
            finally:
                self.stack.pop()
                self.pc, self.cur, self.line = save
            if ok != 1:
                raise Undecided(f"module {name} does not load: {self.sinks[-1][-1:]} ")
        else:
            m.ispkg = True
        if "." in name:
            par, _, leaf = name.rpartition(".")
            self.modules[par].ns[leaf] = m
        return m

    def get_module(self, name):
        m = self.import_module(name)
        if m is not None:
            return m
        if name not in self.natmods:
            self.natmods[name] = self.natives.native_module(self, name)
        return self.natmods[name]

    def ex_Import(self, s, sc):
        for al in s.names:
            m = self.get_module(al.name)
            if al.asname:
                self.assign_name(al.asname, m, sc)
            else:
                top = al.name.split(".")[0]
                self.assign_name(top, self.get_module(top), sc)

    def ex_ImportFrom(self, s, sc):
        base = s.module or ""
        if s.level:
            pkg = sc.module.name
            if not getattr(sc.module, "ispkg", False):
                pkg = pkg.rpartition(".")[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            base = pkg + ("." + base if base else "")
        if base == "__future__":
            return
        m = self.get_module(base)
        for al in s.names:
            if al.name == "*":
                names = m.ns.get("__all__") if isinstance(m, ModuleObj) else None
                if names is not None:
                    names = [x for _, x in names.e] if isinstance(names, ListObj) else list(names)
                else:
                    names = [n for n in m.ns if not n.startswith("_")]
                for n in names:
                    self.assign_name(n, self.getattr(m, n), sc)
                continue
            sub_ = None
            if isinstance(m, ModuleObj):
                if al.name in m.ns:
                    v = m.ns[al.name]
                else:
                    sub_ = self.import_module(base + "." + al.name)
                    if sub_ is None:
                        self.raise_(ImportError, f"cannot import name {al.name}")
                    v = sub_
            else:
                try:
                    v = self.getattr(m, al.name)
                except Undecided as e:
                    v = unmodelled(str(e))  # matters only where it is used
            self.assign_name(al.asname or al.name, v, sc)

    # --- statements ------------------------------------------------------------------

    def ex_block(self, stmts, sc):
        prev = self.curscope
        self.curscope = sc
        try:
            for s in stmts:
                if self.pc == 0:
                    return
                try:
                    self.ex(s, sc)
                except PathDead:
                    self.pc = 0
                    return
        finally:
            self.curscope = prev

    def ex(self, s, sc):
        self.line = s.lineno
        self.nstmts += 1
        if self.deadline is not None and not self.nstmts & 255 and time.monotonic() > self.deadline:
            raise Undecided("analysis budget exhausted")
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__} at {self.site()}")
        m(s, sc)

    def ex_Pass(self, s, sc):
        pass

    def ex_Expr(self, s, sc):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, sc)

    def ex_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def ex_AnnAssign(self, s, sc):
        if sc.kind == "class" and isinstance(s.target, ast.Name):
            sc.cls["ann"][s.target.id] = s.annotation
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc), sc)

    def ex_AugAssign(self, s, sc):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, sc)
            v = self.inplace(op, old, self.ev(s.value, sc))
            self.assign_name(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            old = self.getattr(o, t.attr)
            v = self.inplace(op, old, self.ev(s.value, sc))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            i = self.ev(t.slice, sc)
            old = self.getitem(o, i)
            v = self.inplace(op, old, self.ev(s.value, sc))
            self.setitem(o, i, v)
        else:
            raise Undecided("augassign target")

    def inplace(self, op, a, b):
        if isinstance(a, G) and any(isinstance(x, (ListObj, SetObj, DictObj, ByteArr)) for _, x in a.alts):
            return self.lift(lambda x: self.inplace(op, x, b), a)
        if isinstance(a, ListObj) and op == "Add":
            self.call(self.getattr(a, "extend"), [b])
            return a
        if isinstance(a, ByteArr) and op == "Add":
            a.val = self.upd(a.val, self.binop("Add", a.val, self.bytes_of(b)), a.birth)
            return a
        if isinstance(a, SetObj) and op in ("BitOr", "Sub", "BitAnd"):
            nm = {"BitOr": "update", "Sub": "difference_update", "BitAnd": "intersection_update"}[op]
            self.call(self.getattr(a, nm), [b])
            return a
        if isinstance(a, DictObj) and op == "BitOr":
            self.call(self.getattr(a, "update"), [b])
            return a
        if isinstance(a, Instance):
            nm = {"Add": "__iadd__", "Sub": "__isub__", "BitOr": "__ior__"}.get(op)
            if nm:
                f, _ = a.cls.lookup(nm)
                if f is not UNBOUND:
                    return self.call(self.getattr(a, nm), [b])
        return self.binop(op, a, b)

    def ex_Return(self, s, sc):
        v = self.ev(s.value, sc) if s.value is not None else None
        f = sc
        while f.kind == "comp":
            f = f.parent
        f.returns.append((self.pc, v))
        if f.try_depth == 0 and not f.info.nested and f.yield_to is None:
            f.birth = bdd.diff(f.birth, self.pc)
        self.pc = 0

    def ex_If(self, s, sc):
        c = self.truth(self.ev(s.test, sc))
        t = conj(self.pc, c)
        f = bdd.diff(self.pc, c)
        if f == 0:
            self.ex_block(s.body, sc)
            return
        if t == 0:
            self.ex_block(s.orelse, sc)
            return
        self.pc = t
        self.ex_block(s.body, sc)
        p1 = self.pc
        self.pc = f
        self.ex_block(s.orelse, sc)
        self.pc = disj(self.pc, p1)
        self.njoins += 1

    def ex_While(self, s, sc):
        ctx = LoopCtx()
        sc.loops.append(ctx)
        exits = 0
        n = 0
        while self.pc:
            n += 1
            if n > MAX_LOOP:
                raise Undecided(f"loop bound at {self.site()}")
            try:
                c = self.truth(self.ev(s.test, sc))
            except PathDead:
                self.pc = 0
                break
            exits = disj(exits, bdd.diff(self.pc, c))
            self.pc = conj(self.pc, c)
            if not self.pc:
                break
            self.ex_block(s.body, sc)
            self.pc = disj(self.pc, ctx.cont)
            ctx.cont = 0
        sc.loops.pop()
        self.pc = exits
        if s.orelse and self.pc:
            self.ex_block(s.orelse, sc)
        self.pc = disj(self.pc, ctx.brk)

    def ex_For(self, s, sc):
        itv = self.ev(s.iter, sc)
        itv = restrict(itv, self.pc)
        if isinstance(itv, G):
            after = 0
            for g, x in itv.alts:
                p = conj(self.pc, g)
                if p:
                    after = disj(after, self._with_pc(p, lambda x=x: self.for_one(s, x, sc)))
            self.pc = after
            return
        self.for_one(s, itv, sc)

    def _with_pc(self, p, f):
        save = self.pc
        self.pc = p
        try:
            f()
            r = self.pc
        except PathDead:
            r = 0
        self.pc = save
        return r

    def for_one(self, s, itv, sc):
        it = self.get_iter(itv)
        ctx = LoopCtx()
        sc.loops.append(ctx)
        n = 0
        while self.pc:
            n += 1
            if n > MAX_LOOP:
                raise Undecided(f"loop bound at {self.site()}")
            try:
                e = self.pull(it)
            except PathDead:
                self.pc = 0
                break
            if e is None:
                break
            g, v = e
            skip = bdd.diff(self.pc, g)
            self.pc = conj(self.pc, g)
            if self.pc:
                try:
                    self.assign(s.target, restrict(v, self.pc), sc)
                    self.ex_block(s.body, sc)
                except PathDead:
                    self.pc = 0
            self.pc = disj(disj(self.pc, ctx.cont), skip)
            ctx.cont = 0
        sc.loops.pop()
        if s.orelse and self.pc:
            self.ex_block(s.orelse, sc)
        self.pc = disj(self.pc, ctx.brk)

    def ex_Break(self, s, sc):
        c = sc.loops[-1]
        c.brk = disj(c.brk, self.pc)
        self.pc = 0

    def ex_Continue(self, s, sc):
        c = sc.loops[-1]
        c.cont = disj(c.cont, self.pc)
        self.pc = 0

    def ex_Assert(self, s, sc):
        c = self.truth(self.ev(s.test, sc))
        bad = bdd.diff(self.pc, c)
        ok = conj(self.pc, c)
        if bad:
            self.pc = bad
            try:
                args = [self.ev(s.msg, sc)] if s.msg else []
                self.raise_(AssertionError, *args)
            except PathDead:
                pass
            self.pc = ok
            if not ok:
                raise PathDead()

    def ex_Raise(self, s, sc):
        if s.exc is None:
            ex = None
            p = sc
            ex = self.current_exc[-1] if self.current_exc else None
            if ex is None:
                self.raise_(RuntimeError, "No active exception to reraise")
        else:
            ex = self.ev(s.exc, sc)
        cause = self.ev(s.cause, sc) if s.cause is not None else None

        def go(e):
            if isinstance(e, ClassObj):
                e = self.call(e, [])
            if not isinstance(e, Instance):
                self.raise_(TypeError, "exceptions must derive from BaseException")
            if s.cause is not None:
                e.attrs["__cause__"] = cause
            self.throw(e)

        self.lift(go, restrict(ex, self.pc))

    current_exc = ()

    def ex_Delete(self, s, sc):
        for t in s.targets:
            self.delete(t, sc)

    def delete(self, t, sc):
        if isinstance(t, ast.Name):
            if t.id in sc.vars:
                sc.vars[t.id] = self.upd(sc.vars[t.id], UNBOUND, sc.birth)
            elif t.id in sc.module.ns:
                sc.module.ns[t.id] = UNBOUND
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)

            def da(x):
                if isinstance(x, Instance) and t.attr in x.attrs:
                    x.attrs[t.attr] = self.upd(x.attrs[t.attr], UNBOUND, x.birth)
                else:
                    self.raise_(AttributeError, t.attr)

            self.lift(da, o)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            i = self.ev(t.slice, sc)
            self.delitem(o, i)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, sc)
        else:
            raise Undecided("del")

    def ex_Global(self, s, sc):
        pass

    ex_Nonlocal = ex_Global

    def ex_FunctionDef(self, s, sc):
        f = self.make_func(s, sc)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, sc), [f])
        self.assign_name(s.name, f, sc)

    def make_func(self, s, sc):
        defaults = [self.ev(d, sc) for d in s.args.defaults]
        kwd = {}
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.ev(d, sc)
        name = getattr(s, "orig_name", getattr(s, "name", "<lambda>"))
        if sc.kind == "class":
            qual = sc.cls["qual"] + "." + name
            owner = sc.cls
        elif sc.func is not None:
            qual = sc.func.qual + "." + name
            owner = getattr(sc.func, "owner", None)
        else:
            qual = name
            owner = None
        parent = sc
        f = FuncObj(s, parent, self, sc.module, qual, defaults, kwd, owner)
        return f

    def ex_ClassDef(self, s, sc):
        bases = [self.ev(b, sc) for b in s.bases]
        kwargs = {k.arg: self.ev(k.value, sc) for k in s.keywords}
        qual = (sc.cls["qual"] + "." + s.name) if sc.kind == "class" else s.name
        cs = Scope("class", sc, sc.module, self.pc, None, sc.func)
        holder = {"qual": qual, "ann": {}, "cls": None}
        cs.cls = holder
        cs.vars["__module__"] = sc.module.name
        cs.vars["__qualname__"] = qual
        self.ex_block(s.body, cs)
        if self.pc == 0:
            raise PathDead()
        c = self.natives.build_class(self, s.name, bases, dict(cs.vars), sc.module, qual, holder, kwargs)
        holder["cls"] = c
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d, sc), [c])
        self.assign_name(s.name, c, sc)

    def ex_With(self, s, sc):
        self._with(s, 0, sc)

    def _with(self, s, i, sc):
        if i >= len(s.items):
            self.ex_block(s.body, sc)
            return
        item = s.items[i]
        cm = restrict(self.ev(item.context_expr, sc), self.pc)
        v = self.lift(lambda x: self.natives.ctx_enter(self, x), cm)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, sc)

        def body():
            self._with(s, i + 1, sc)

        self.protected(sc, body, lambda exc: self.lift(lambda x: self.natives.ctx_exit(self, x, exc), restrict(cm, self.pc)), True)

    def protected(self, sc, body, final, is_with=False):
        """Run body; then final() on every exit; reinstate exits."""
        f = sc
        saved_returns = f.returns
        f.returns = []
        lc = f.loops[-1] if f.loops else None
        if lc is not None:
            sb, scn = lc.brk, lc.cont
            lc.brk, lc.cont = 0, 0
        self.sinks.append([])
        f.try_depth += 1
        entry = self.pc
        try:
            body()
        except PathDead:
            self.pc = 0
        f.try_depth -= 1
        excs = self.sinks.pop()
        rets = f.returns
        f.returns = saved_returns
        if lc is not None:
            nb, nc = lc.brk, lc.cont
            lc.brk, lc.cont = sb, scn
        else:
            nb = nc = 0
        normal = self.pc
        allpc = disj(normal, disj(nb, nc))
        for g, _ in rets:
            allpc = disj(allpc, g)
        exg = 0
        for g, _ in excs:
            exg = disj(exg, g)
        allpc = disj(allpc, exg)
        if allpc == 0:
            self.pc = 0
            return
        self.pc = allpc
        suppress = 0
        if is_with:
            excv = None
            if excs:
                excv = merge([(g, e) for g, e in excs] + ([(bdd.diff(allpc, exg), None)] if bdd.diff(allpc, exg) else []))
            try:
                r = final(excv)
                if excs and self.pc:
                    suppress = conj(self.truth(r), exg)
            except PathDead:
                self.pc = 0
        else:
            try:
                final(None)
            except PathDead:
                self.pc = 0
        after = self.pc
        for g, v in rets:
            k = conj(g, after)
            if k:
                f.returns.append((k, v))
        if lc is not None:
            lc.brk = disj(lc.brk, conj(nb, after))
            lc.cont = disj(lc.cont, conj(nc, after))
        for g, e in excs:
            k = bdd.diff(conj(g, after), suppress)
            if k:
                self.sinks[-1].append((k, e))
        self.pc = disj(conj(normal, after), conj(suppress, after))

    def ex_Try(self, s, sc):
        if s.finalbody:
            self.protected(sc, lambda: self.try_core(s, sc), lambda _: self.ex_block(s.finalbody, sc))
        else:
            self.try_core(s, sc)

    def try_core(self, s, sc):
        if not s.handlers:
            self.ex_block(s.body, sc)
            if s.orelse and self.pc:
                self.ex_block(s.orelse, sc)
            return
        self.sinks.append([])
        sc.try_depth += 1
        self.ex_block(s.body, sc)
        sc.try_depth -= 1
        excs = self.sinks.pop()
        ok = self.pc
        if s.orelse and ok:
            self.ex_block(s.orelse, sc)
            ok = self.pc
        pending = excs
        after = ok
        for h in s.handlers:
            if not pending:
                break
            union = 0
            for g, _ in pending:
                union = disj(union, g)
            self.pc = union
            if h.type is None:
                ct = None
            else:
                try:
                    ct = self.ev(h.type, sc)
                except PathDead:
                    pending = []
                    break
            hit, miss = [], []
            for g, e in pending:
                if ct is None or self.exc_match(e, ct):
                    hit.append((g, e))
                else:
                    miss.append((g, e))
            pending = miss
            if not hit:
                continue
            p = 0
            for g, _ in hit:
                p = disj(p, g)
            self.pc = p
            ev = merge(hit)
            if h.name:
                self.assign_name(h.name, ev, sc)
            old = self.current_exc
            self.current_exc = tuple(old) + (ev,)
            self.ex_block(h.body, sc)
            self.current_exc = old
            after = disj(after, self.pc)
        for g, e in pending:
            self.sinks[-1].append((g, e))
        self.pc = after

    def exc_match(self, e, ct):
        if isinstance(ct, tuple):
            return any(self.exc_match(e, c) for c in ct)
        if isinstance(ct, ClassObj):
            return e.cls.issub(ct)
        if isinstance(ct, type) and issubclass(ct, BaseException):
            return e.cls.issub(self.exc_class(ct))
        raise Undecided("except type")

    def ex_Match(self, s, sc):
        subj = self.ev(s.subject, sc)
        rem = self.pc
        after = 0
        for case in s.cases:
            if not rem:
                break
            self.pc = rem
            binds = {}
            c = conj(self.pc, self.match_pat(case.pattern, subj, sc, binds))
            if not c:
                continue
            self.pc = c
            for n, v in binds.items():
                self.assign_name(n, v, sc)
            if case.guard is not None:
                g = self.truth(self.ev(case.guard, sc))
                c = conj(self.pc, g)
                self.pc = c
            rem = bdd.diff(rem, c)
            if c:
                self.ex_block(case.body, sc)
                after = disj(after, self.pc)
        self.pc = disj(after, rem)

    def match_pat(self, p, v, sc, binds):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, sc))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            c = 1
            if p.pattern is not None:
                c = self.match_pat(p.pattern, v, sc, binds)
            if p.name:
                binds[p.name] = v
            return c
        if isinstance(p, ast.MatchOr):
            c = 0
            for q in p.patterns:
                c = disj(c, self.match_pat(q, v, sc, binds))
            return c
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, sc)
            c = self.isinstance_(v, cls)
            if not conj(self.pc, c):
                return 0
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                save = self.pc
                self.pc = conj(self.pc, c)
                x = self.getattr(v, a)
                c = conj(c, self.match_pat(q, x, sc, binds))
                self.pc = save
            if p.patterns:
                if len(p.patterns) == 1 and cls in (int, str, float, bytes, bool, list, tuple, dict, set):
                    c = conj(c, self.match_pat(p.patterns[0], v, sc, binds))
                elif isinstance(cls, ClassObj) and cls.dc:
                    for a, q in zip(cls.dc["fields"], p.patterns):
                        c = conj(c, self.match_pat(q, self.getattr(v, a), sc, binds))
                else:
                    raise Undecided("class pattern")
            return c
        if isinstance(p, ast.MatchSequence):
            def one(x):
                if isinstance(x, ListObj):
                    vals = self.list_values(x)
                elif isinstance(x, tuple):
                    vals = list(x)
                else:
                    return False
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                if star:
                    i = star[0]
                    k = len(p.patterns) - 1
                    if len(vals) < k:
                        return False
                    tailn = k - i
                    mid = vals[i : len(vals) - tailn]
                    c = 1
                    for q, y in zip(p.patterns[:i], vals[:i]):
                        c = conj(c, self.match_pat(q, y, sc, binds))
                    if p.patterns[i].name:
                        binds[p.patterns[i].name] = ListObj(mid, self.pc)
                    for q, y in zip(p.patterns[i + 1 :], vals[len(vals) - tailn :]):
                        c = conj(c, self.match_pat(q, y, sc, binds))
                    return mkbool(c)
                if len(vals) != len(p.patterns):
                    return False
                c = 1
                for q, y in zip(p.patterns, vals):
                    c = conj(c, self.match_pat(q, y, sc, binds))
                return mkbool(c)

            if isinstance(v, G):
                return self.truth(self.lift(one, v))
            return self.truth(one(v))
        raise Undecided(f"pattern {type(p).__name__}")

    # --- assignment targets ---------------------------------------------------------------

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            i = self.ev(t.slice, sc)
            self.setitem(o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]

            def unpack(x):
                vals = self.to_list(x)
                if star:
                    i = star[0]
                    k = n - 1
                    if len(vals) < k:
                        self.raise_(ValueError, "not enough values to unpack")
                    m = len(vals) - (k - i)
                    return tuple(vals[:i]) + (ListObj(vals[i:m], self.pc),) + tuple(vals[m:])
                if len(vals) != n:
                    self.raise_(ValueError, f"cannot unpack {len(vals)} values into {n}")
                return tuple(vals)

            v = restrict(v, self.pc)
            if isinstance(v, G):
                u = self.lift(unpack, v)
                if isinstance(u, G):
                    cols = [merge([(g, x[i]) for g, x in u.alts]) for i in range(n)]
                else:
                    cols = u
            else:
                cols = unpack(v)
            for x, c in zip(t.elts, cols):
                self.assign(x.value if isinstance(x, ast.Starred) else x, c, sc)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise Undecided("assignment target")

    # --- iteration ------------------------------------------------------------------------

    def get_iter(self, v):
        v = restrict(v, self.pc)
        if isinstance(v, IterObj):
            return v
        if isinstance(v, (tuple, str, bytes, range)):
            return IterObj([(1, x) for x in v], None, self.pc)
        if isinstance(v, ABytes):
            return IterObj([(1, x) for x in v.e], None, self.pc)
        if isinstance(v, ListObj):
            def gen():
                i = 0
                while i < len(v.e):
                    yield v.e[i][0], v.e[i][1]
                    i += 1

            return IterObj([], gen(), self.pc)
        if isinstance(v, SetObj):
            return IterObj([(g, x) for g, x in v.e], None, self.pc)
        if isinstance(v, DictObj):
            return IterObj([(e.g, e.k) for e in v.e], None, self.pc)
        if isinstance(v, DictView):
            if v.kind == "keys":
                return IterObj([(e.g, e.k) for e in v.d.e], None, self.pc)
            if v.kind == "values":
                return IterObj([(e.g, e.v) for e in v.d.e], None, self.pc)
            return IterObj([(e.g, (e.k, e.v)) for e in v.d.e], None, self.pc)
        if isinstance(v, ByteArr):
            return self.get_iter(restrict(v.val, self.pc))
        if isinstance(v, FileObj):
            return self.natives.file_iter(self, v)
        if isinstance(v, NativeObj):
            try:
                return IterObj([(1, self.natives.wrap(self, x)) for x in v.obj], None, self.pc)
            except TypeError as e:
                self.raise_(TypeError, str(e))
        if isinstance(v, Instance):
            f, _ = v.cls.lookup("__iter__")
            if f is not UNBOUND:
                return self.get_iter(self.call(self.getattr(v, "__iter__"), []))
            f, _ = v.cls.lookup("__next__")
            if f is not UNBOUND:
                return self.instance_iter(v)
        if isinstance(v, ClassObj) and getattr(v, "enum", None) is not None:
            return IterObj([(1, x) for x in v.enum.values()], None, self.pc)
        if isinstance(v, self.natives.Model) and hasattr(v, "m___iter__"):
            return self.get_iter(v.m___iter__(self))
        if isinstance(v, SStr):
            if all(isinstance(p, (str, BitCh)) for p in v.parts):
                cs = [c for p in v.parts for c in (p if isinstance(p, str) else [SStr([p])])]
                return IterObj([(1, c) for c in cs], None, self.pc)
            raise Undecided("iteration over symbolic text")
        if isinstance(v, App):
            raise Undecided(f"iteration over {v!r}")
        if isinstance(v, G):
            # alternatives exclude each other: merge them position by position
            cols = []
            for g, x in v.alts:
                i = 0
                g = conj(g, self.pc)
                if not g:
                    continue
                if isinstance(x, ByteArr):
                    x = restrict(x.val, g)
                if not isinstance(x, (tuple, str, bytes, range, ABytes, ListObj, DictObj, DictView)):
                    raise Undecided("guarded iterable here")
                for h, y in self.entries(x):
                    k = conj(g, h)
                    if k:
                        if i == len(cols):
                            cols.append([])
                        cols[i].append((k, y))
                        i += 1
            out = []
            for c in cols:
                n = 0
                for g, _ in c:
                    n = disj(n, g)
                out.append((n, c[0][1] if len(c) == 1 else merge(c)))
            return IterObj(out, None, self.pc)
        self.raise_(TypeError, f"'{self.tname(v)}' object is not iterable")

    def instance_iter(self, inst):
        nxt = self.getattr(inst, "__next__")

        def gen():
            while self.pc:
                entry = self.pc
                self.sinks.append([])
                try:
                    x = self.call(nxt, [])
                    ok = self.pc
                except PathDead:
                    x, ok = None, 0
                ex = self.sinks.pop()
                stop = 0
                for g, e in ex:
                    if e.cls.issub(self.exc_class(StopIteration)):
                        stop = disj(stop, g)
                    else:
                        self.sinks[-1].append((g, e))
                self.pc = disj(ok, stop)
                if not self.pc:
                    raise PathDead()
                if not ok:
                    return
                yield ok, x
        return IterObj([], gen(), self.pc)

    def pull(self, it):
        """next (guard, value) entry for a loop, or None"""
        p = restrict(it.pos, self.pc)
        if isinstance(p, G):
            raise Undecided("iterator position depends on data")
        if not it.fill(p):
            return None
        it.pos = self.upd(it.pos, p + 1, it.birth) if not implies(it.birth, self.pc) and False else p + 1
        return it.seq[p]

    def next_(self, it, default=UNBOUND):
        """builtin next()"""
        def one(p):
            q = p
            acc = []
            need = self.pc
            # collect entries until pc is covered
            while need:
                if not it.fill(q):
                    break
                g, v = it.seq[q]
                h = conj(need, g)
                q += 1
                if h:
                    acc.append((h, v, q))
                    need = bdd.diff(need, h)
            res = []
            newpos = []
            for h, v, q in acc:
                res.append((h, v))
                newpos.append((h, q))
            if need:
                if default is UNBOUND:
                    self.may_raise(need, StopIteration)
                else:
                    res.append((need, default))
                newpos.append((need, len(it.seq)))
            np_ = merge(newpos) if newpos else p
            it.pos = self.upd(it.pos, np_, it.birth)
            return merge(res)

        return self.lift(one, restrict(it.pos, self.pc))

    def entries(self, v):
        """all remaining (guard,value) of an iterable, in the current pc"""
        v = restrict(v, self.pc)
        if isinstance(v, G):
            out = []
            after = 0
            for g, x in v.alts:
                p = conj(self.pc, g)
                if not p:
                    continue
                save = self.pc
                self.pc = p
                try:
                    out += [(conj(p, h), y) for h, y in self.entries(x)]
                    after = disj(after, self.pc)
                except PathDead:
                    pass
                self.pc = save
            self.pc = after
            if not after:
                raise PathDead()
            return [(g, y) for g, y in out if g]
        it = self.get_iter(v)
        out = []
        while True:
            e = self.pull(it)
            if e is None:
                break
            if conj(e[0], self.pc):
                out.append(e)
            if len(out) > MAX_LOOP:
                raise Undecided("unbounded iterable")
        return out

    def to_list(self, v):
        """definite list of values (every entry present under pc)"""
        if isinstance(v, tuple):
            return list(v)
        ent = self.entries(v)
        if not all(implies(self.pc, g) for g, _ in ent):
            ent = self.natives.coalesce(ent, self.pc)
        out = []
        for g, x in ent:
            if not implies(self.pc, g):
                raise Undecided("length depends on data")
            out.append(x)
        return out

    def list_values(self, l):
        out = []
        ent = l.e
        if not all(implies(self.pc, g) for g, _ in ent):
            ent = self.natives.coalesce(ent, self.pc)
        for g, x in ent:
            k = conj(g, self.pc)
            if k == self.pc:
                out.append(x)
            elif k:
                raise Undecided("list length depends on data")
        return out

    # --- expressions ------------------------------------------------------------------------

    def ev(self, e, sc):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__} at {self.site()}")
        return m(e, sc)

    def ev_Constant(self, e, sc):
        return e.value

    def ev_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def ev_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), e.attr)

    def ev_Subscript(self, e, sc):
        o = self.ev(e.value, sc)
        i = self.ev(e.slice, sc)
        return self.getitem(o, i)

    def ev_Slice(self, e, sc):
        a = self.ev(e.lower, sc) if e.lower else None
        b = self.ev(e.upper, sc) if e.upper else None
        c = self.ev(e.step, sc) if e.step else None
        return SliceObj(a, b, c)

    def ev_Tuple(self, e, sc):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.to_list(self.ev(x.value, sc))
            else:
                out.append(self.ev(x, sc))
        return tuple(out)

    def ev_List(self, e, sc):
        l = ListObj((), self.pc)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                for g, y in self.entries(self.ev(x.value, sc)):
                    l.e.append([1 if implies(l.birth, g) else g, y])
            else:
                l.e.append([1, self.ev(x, sc)])
        return l

    def ev_Set(self, e, sc):
        s = SetObj(self.pc)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                for g, y in self.entries(self.ev(x.value, sc)):
                    self.natives.set_add(self, s, y)
            else:
                self.natives.set_add(self, s, self.ev(x, sc))
        return s

    def ev_Dict(self, e, sc):
        d = DictObj(self.pc)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.natives.dict_update(self, d, self.ev(v, sc))
            else:
                kk = self.ev(k, sc)
                vv = self.ev(v, sc)
                self.natives.dict_set(self, d, kk, vv)
        return d

    def ev_Starred(self, e, sc):
        raise Undecided("starred")

    def ev_JoinedStr(self, e, sc):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(self.ev_FormattedValue(p, sc))
        return self.concat_parts(parts)

    def concat_parts(self, parts):
        flat = []
        for p in parts:
            flat.append(p)
        gs = [p for p in flat if isinstance(p, G)]
        if gs:
            n = 1
            simple = True
            for g in gs:
                n *= len(g.alts)
                if not all(isinstance(x, str) for _, x in g.alts):
                    simple = False
            if simple and n <= 16 and sum(len(p) for p in flat if isinstance(p, str)) < 160:
                return self.lift(lambda *xs: mkstr(xs), *flat)
        return mkstr(flat)

    def ev_FormattedValue(self, e, sc):
        v = self.ev(e.value, sc)
        spec = ""
        if e.format_spec is not None:
            spec = self.ev_JoinedStr(e.format_spec, sc)
        conv = {115: "s", 114: "r", 97: "a"}.get(e.conversion)
        return self.natives.fmt_value(self, v, spec, conv)

    def ev_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        b = self.ev(e.right, sc)
        return self.binop(type(e.op).__name__, a, b)

    def ev_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        op = type(e.op).__name__
        if op == "Not":
            return mkbool(neg(self.truth(v)))

        def un(x):
            if isinstance(x, Instance):
                nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
                return self.call(self.getattr(x, nm), [])
            if op == "USub":
                if isinstance(x, (Num, B, App)):
                    return scale(x, -1)
                try:
                    return -x
                except TypeError as ex:
                    self.raise_(TypeError, str(ex))
            if op == "UAdd":
                return x
            if isinstance(x, (Num, B)):
                return sub(scale(x, -1), 1)
            try:
                return ~x
            except TypeError as ex:
                self.raise_(TypeError, str(ex))

        return self.lift(un, restrict(v, self.pc))

    def ev_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        res = []
        out_pc = 0
        n = len(e.values)
        for i, x in enumerate(e.values):
            try:
                v = self.ev(x, sc)
            except PathDead:
                self.pc = 0
                break
            if i == n - 1:
                res.append((self.pc, v))
                out_pc = disj(out_pc, self.pc)
                break
            c = self.truth(v)
            stop = bdd.diff(self.pc, c) if isand else conj(self.pc, c)
            if stop:
                if isinstance(v, G):
                    res += [(conj(stop, g), y) for g, y in v.alts if conj(stop, g)]
                else:
                    res.append((stop, v))
                out_pc = disj(out_pc, stop)
            self.pc = conj(self.pc, c) if isand else bdd.diff(self.pc, c)
            if not self.pc:
                break
        self.pc = out_pc
        if not out_pc:
            raise PathDead()
        return restrict(merge(res), self.pc)

    def ev_IfExp(self, e, sc):
        c = self.truth(self.ev(e.test, sc))
        return self.branch(c, lambda: self.ev(e.body, sc), lambda: self.ev(e.orelse, sc))

    def ev_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        s = sc
        while s.kind == "comp":
            s = s.parent
        self.assign_name(e.target.id, v, s)
        return v

    def ev_Lambda(self, e, sc):
        return self.make_func(e, sc)

    def ev_Compare(self, e, sc):
        left = self.ev(e.left, sc)
        acc = 1
        res = None
        base = None
        skipped = 0
        for op, r in zip(e.ops, e.comparators):
            if base is not None:
                # short circuit
                skipped = disj(skipped, bdd.diff(self.pc, acc))
                self.pc = conj(self.pc, acc)
                if not self.pc:
                    break
            base = True
            try:
                right = self.ev(r, sc)
            except PathDead:
                self.pc = 0
                break
            c = self.compare(type(op).__name__, left, right)
            if not isinstance(c, int) or isinstance(c, bool):
                if len(e.ops) == 1:
                    return c
                c = self.truth(c)
            acc = conj(acc, c)
            left = right
        self.pc = disj(self.pc, skipped)
        if not self.pc:
            raise PathDead()
        return restrict(mkbool(acc), self.pc)

    def ev_Call(self, e, sc):
        f = self.ev(e.func, sc)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.to_list(self.ev(a.value, sc))
            else:
                args.append(self.ev(a, sc))
        for k in e.keywords:
            v = self.ev(k.value, sc)
            if k.arg is None:
                for g, kk, vv in self.natives.dict_items(self, v):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        if isinstance(f, NativeFn) and f.name == "super":
            return self.make_super(args, sc)
        if isinstance(f, NativeFn) and f.name in ("locals", "globals", "vars") and not args:
            return self.natives.scope_dict(self, f.name, sc)
        ln = self.line
        r = self.call(f, args, kwargs)
        self.line = ln
        return r

    def make_super(self, args, sc):
        if args:
            return SuperObj(args[0], args[1])
        s = sc
        while s is not None and s.kind != "func":
            s = s.parent
        f = s.func
        while f is not None and f.owner is None:
            break
        owner = f.owner["cls"] if isinstance(f.owner, dict) else f.owner
        return SuperObj(owner, s.self0)

    def ev_ListComp(self, e, sc):
        l = ListObj((), self.pc)
        src = self.comp_iter(e, sc, lambda s: self.ev(e.elt, s))
        for g, v in src:
            k = conj(g, l.birth)
            if k:
                l.e.append([1 if implies(l.birth, g) else g, v])
        return l

    def ev_SetComp(self, e, sc):
        s = SetObj(self.pc)
        for g, v in self.comp_iter(e, sc, lambda c: self.ev(e.elt, c)):
            save = self.pc
            self.pc = conj(self.pc, g)
            self.natives.set_add(self, s, v)
            self.pc = save
        return s

    def ev_DictComp(self, e, sc):
        d = DictObj(self.pc)
        for g, (k, v) in self.comp_iter(e, sc, lambda c: (self.ev(e.key, c), self.ev(e.value, c))):
            save = self.pc
            self.pc = conj(self.pc, g)
            if self.pc:
                self.natives.dict_set(self, d, k, v)
            self.pc = save
        return d

    def ev_GeneratorExp(self, e, sc):
        first = self.ev(e.generators[0].iter, sc)
        return IterObj([], self.comp_iter(e, sc, lambda s: self.ev(e.elt, s), first), self.pc)

    def comp_iter(self, e, sc, elt, first=None):
        """python generator of (guard, value)"""
        cs = Scope("comp", sc, sc.module, self.pc, None, sc.func)
        if first is None:
            first = self.ev(e.generators[0].iter, sc)

        def level(i, itv, cur):
            gen = e.generators[i]
            itv = restrict(itv, self.pc)
            for ag, av in alts(itv):
                base_g = conj(cur, ag)
                if not conj(self.pc, base_g):
                    continue
                it = self.get_iter(av)
                while True:
                    # pull under the part of pc that belongs to cur
                    full = self.pc
                    self.pc = conj(full, base_g)
                    if not self.pc:
                        self.pc = full
                        break
                    try:
                        ent = self.pull(it)
                        inner_pc = self.pc
                    except PathDead:
                        self.pc = bdd.diff(full, base_g)
                        if not self.pc:
                            raise
                        break
                    if ent is None:
                        self.pc = disj(bdd.diff(full, base_g), inner_pc)
                        break
                    g, v = ent
                    outside = disj(bdd.diff(full, base_g), bdd.diff(inner_pc, g))
                    self.pc = conj(inner_pc, g)
                    if not self.pc:
                        self.pc = outside
                        continue
                    dead = False
                    try:
                        self.assign(gen.target, restrict(v, self.pc), cs)
                        for c in gen.ifs:
                            n = self.truth(self.ev(c, cs))
                            outside = disj(outside, bdd.diff(self.pc, n))
                            self.pc = conj(self.pc, n)
                            if not self.pc:
                                break
                        if self.pc:
                            if i + 1 < len(e.generators):
                                here = self.pc
                                nxt = self.ev(e.generators[i + 1].iter, cs)
                                here = self.pc
                                self.pc = disj(here, outside)
                                yield from level(i + 1, nxt, here)
                                continue
                            r = elt(cs)
                            here = self.pc
                        else:
                            here = 0
                            r = None
                    except PathDead:
                        here = 0
                        r = None
                        dead = True
                    self.pc = disj(here, outside)
                    if not self.pc:
                        raise PathDead()
                    if here:
                        yield here, r

        yield from level(0, first, 1)

    def ev_Yield(self, e, sc):
        v = self.ev(e.value, sc) if e.value else None
        s = sc
        while s.kind == "comp":
            s = s.parent
        return s.yield_to.do_yield(v)

    def ev_YieldFrom(self, e, sc):
        v = self.ev(e.value, sc)
        s = sc
        while s.kind == "comp":
            s = s.parent
        it = self.get_iter(v)
        src = getattr(it, "src", None)
        while self.pc:
            ent = self.pull(it)
            if ent is None:
                break
            g, x = ent
            skip = bdd.diff(self.pc, g)
            self.pc = conj(self.pc, g)
            if self.pc:
                try:
                    s.yield_to.do_yield(x)
                except PathDead:
                    self.pc = 0
            self.pc = disj(self.pc, skip)
        rv = getattr(src, "retval", None)
        if rv:
            al, rest = [], self.pc
            for g, x in rv:
                g = conj(g, rest)
                if g:
                    al.append((g, x))
                    rest = bdd.diff(rest, g)
            if rest:
                al.append((rest, None))
            return merge(al) if al else None
        return None

    # --- truth / comparison ---------------------------------------------------------------------

    def truth(self, v):
        t = type(v)
        if t is bool:
            return 1 if v else 0
        if t is B:
            return v.n
        if v is None:
            return 0
        if t in (int, float, str, bytes, tuple, range, IntMember, StrMember) or isinstance(v, tuple):
            return 1 if v else 0
        if t is Num:
            return neg(cmp0("==", v))
        if t is G:
            n = 0
            save = self.pc
            for g, x in v.alts:
                k = conj(save, g)
                if not k:
                    continue
                self.pc = k
                n = disj(n, conj(g, self.truth(x)))
            self.pc = save
            return n
        if t is ListObj or t is SetObj:
            n = 0
            for g, _ in v.e:
                n = disj(n, g)
            return n
        if t is DictObj:
            n = 0
            for e in v.e:
                n = disj(n, e.g)
            return n
        if t is DictView:
            return self.truth(v.d)
        if t is SStr:
            n = 0
            for p in v.parts:
                if isinstance(p, (str, Fmt, BitCh, Json)):
                    return 1
                if isinstance(p, G):
                    n = disj(n, self.truth(p))
                elif isinstance(p, Opq) and p.k[0] == "decode" and p.k[2] == "strict" and p.k[3] != ("Y",):
                    return 1
                else:
                    n = disj(n, bdd.var(("nonempty", key(p))))
            return n
        if t is ABytes:
            return 1 if v.e else 0
        if t is ByteArr:
            return self.truth(v.val)
        if t is App:
            return bdd.var(("true", v))
        if t is Instance:
            f, _ = v.cls.lookup("__bool__")
            if f is not UNBOUND:
                return self.truth(self.call(self.getattr(v, "__bool__"), []))
            f, _ = v.cls.lookup("__len__")
            if f is not UNBOUND:
                return self.truth(self.call(self.getattr(v, "__len__"), []))
            return 1
        if t is NativeObj:
            return 1 if v.obj else 0
        if isinstance(v, self.natives.Model) and hasattr(v, "m___len__"):
            return self.truth(v.m___len__(self))
        if v is UNBOUND:
            raise Undecided("truth of unbound value")
        return 1

    def compare(self, op, a, b):
        """returns BDD node"""
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return neg(self.is_(a, b))
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            return neg(self.eq(a, b))
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return neg(self.contains(b, a))
        return self.truth(self.lift(lambda x, y: mkbool(self.order(op, x, y)), restrict(a, self.pc), restrict(b, self.pc)))

    def order(self, op, a, b):
        if isinstance(a, (Num, B, App)) or isinstance(b, (Num, B, App)):
            if isnum(a) or isinstance(a, App):
                if isnum(b) or isinstance(b, App):
                    for x in (a, b):
                        if isinstance(x, float) and x != x:
                            return 0
                    d = sub(a, b)
                    if op == "Lt":
                        return cmp0("<", d)
                    if op == "LtE":
                        return cmp0("<=", d)
                    if op == "Gt":
                        return neg(cmp0("<=", d))
                    return neg(cmp0("<", d))
            self.raise_(TypeError, "'<' not supported")
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            return self.natives.set_order(self, op, a, b)
        if isinstance(a, Instance) or isinstance(b, Instance):
            nm = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            if isinstance(a, Instance) and a.cls.lookup(nm)[0] is not UNBOUND:
                return self.truth(self.call(self.getattr(a, nm), [b]))
            rn = {"Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}[op]
            if isinstance(b, Instance) and b.cls.lookup(rn)[0] is not UNBOUND:
                return self.truth(self.call(self.getattr(b, rn), [a]))
            if isinstance(a, Instance) and isinstance(b, Instance) and a.cls is b.cls and a.cls.dc and a.cls.dc.get("order"):
                names = [n for n, f in a.cls.dc["fields"].items() if getattr(f, "compare", True)]
                return self.compare(op, tuple(self.getattr(a, n) for n in names), tuple(self.getattr(b, n) for n in names))
            self.raise_(TypeError, f"'{op}' not supported")
        if isinstance(a, (bytes, ABytes)) and isinstance(b, (bytes, ABytes)) and not (isinstance(a, bytes) and isinstance(b, bytes)):
            n = min(len(belems(a)), len(belems(b))) + 1
            if n > 64:
                raise Undecided("order of long symbolic bytes")
            a, b = tuple(belems(a)[:n]), tuple(belems(b)[:n])
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            res = 0
            eqp = 1
            for x, y in zip(a, b):
                if op in ("Lt", "LtE"):
                    lt = self.compare("Lt", x, y)
                else:
                    lt = self.compare("Gt", x, y)
                res = disj(res, conj(eqp, lt))
                eqp = conj(eqp, self.eq(x, y))
            if op in ("Lt", "Gt"):
                tail = (len(a) < len(b)) if op == "Lt" else (len(a) > len(b))
            else:
                tail = (len(a) <= len(b)) if op == "LtE" else (len(a) >= len(b))
            return disj(res, eqp if tail else 0)
        try:
            r = {
                "Lt": lambda: a < b,
                "LtE": lambda: a <= b,
                "Gt": lambda: a > b,
                "GtE": lambda: a >= b,
            }[op]()
            return 1 if r else 0
        except TypeError as e:
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) or isinstance(a, (bytes, ABytes)) and isinstance(b, (bytes, ABytes)):
                raise Undecided("order of symbolic texts")
            self.raise_(TypeError, str(e))

    def is_(self, a, b):
        if isinstance(a, G) or isinstance(b, G):
            return self.truth(self.lift(lambda x, y: mkbool(self.is_(x, y)), restrict(a, self.pc), restrict(b, self.pc)))
        if isinstance(a, B) and isinstance(b, bool):
            return a.n if b else neg(a.n)
        if isinstance(b, B) and isinstance(a, bool):
            return b.n if a else neg(b.n)
        if isinstance(a, BoundMethod) or isinstance(b, BoundMethod):
            return 0
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return 1 if a is b else 0
        if isinstance(a, (int, str, float, bytes, tuple)) and type(a) is type(b):
            return 1 if key(a) == key(b) else 0
        if isinstance(a, NativeObj) and isinstance(b, NativeObj):
            return 1 if a.obj is b.obj else 0
        return 1 if a is b else 0

    def eq(self, a, b):
        if isinstance(a, G) or isinstance(b, G):
            return self.truth(
                self.lift(lambda x, y: mkbool(self.eq(x, y)), restrict(a, self.pc), restrict(b, self.pc))
            )
        if a is b and not isinstance(a, float):
            return 1
        an, bn = isnum(a), isnum(b)
        if an and bn:
            return num_eq(a, b, self.pc)
        if (isinstance(a, App) and (bn or isinstance(b, App))) or (isinstance(b, App) and an):
            if isinstance(a, App) and isinstance(b, App) and a == b:
                return 1
            return cmp0("==", sub(a, b))
        if an or bn:
            if isinstance(a, Instance) or isinstance(b, Instance):
                return self.inst_eq(a, b)
            return 0
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.str_eq(a, b)
        if isinstance(a, ByteArr) or isinstance(b, ByteArr):
            return self.eq(a.val if isinstance(a, ByteArr) else a, b.val if isinstance(b, ByteArr) else b)
        if isinstance(a, (bytes, ABytes)) and isinstance(b, (bytes, ABytes)):
            x, y = belems(a), belems(b)
            if len(x) != len(y):
                return 0
            n = 1
            for p, q in zip(x, y):
                n = conj(n, num_eq(p, q))
                if n == 0:
                    break
            return n
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return 0
            n = 1
            for p, q in zip(a, b):
                n = conj(n, self.eq(p, q))
                if n == 0:
                    break
            return n
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            return self.truth(self.lift(lambda x, y: mkbool(self.eq(x, y)), self.tuple_of(a), self.tuple_of(b)))
        if isinstance(a, Instance) or isinstance(b, Instance):
            return self.inst_eq(a, b)
        if isinstance(a, (SetObj, DictView)) and isinstance(b, (SetObj, DictView)):
            return self.natives.set_eq(self, a, b)
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            return self.natives.dict_eq(self, a, b)
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return 1 if key(a) == key(b) else 0
        if isinstance(a, NativeObj) and isinstance(b, NativeObj):
            return 1 if a.obj == b.obj else 0
        if isinstance(a, self.natives.Model) and hasattr(a, "m___eq__"):
            return self.truth(a.m___eq__(self, b))
        if isinstance(a, App) or isinstance(b, App):
            if isinstance(a, App) and isinstance(b, (str, SStr, bytes, ABytes)) or isinstance(b, App):
                return bdd.var(("eq", frozenset([key(a), key(b)])))
            return 0
        if isinstance(a, type) and isinstance(b, type):
            return 1 if a is b else 0
        try:
            if type(a) is type(b) and isinstance(a, (range, complex, slice)):
                return 1 if a == b else 0
        except Exception:
            pass
        return 0

    def inst_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Instance):
                f, _ = x.cls.lookup("__eq__")
                if f is not UNBOUND:
                    return self.truth(self.call(self.getattr(x, "__eq__"), [y]))
                if x.cls.dc and x.cls.dc["eq"]:
                    if isinstance(y, Instance) and y.cls is x.cls:
                        n = 1
                        for nm, fs in x.cls.dc["fields"].items():
                            if not fs.compare:
                                continue
                            n = conj(n, self.eq(self.getattr(x, nm), self.getattr(y, nm)))
                        return n
                    return 0
        return 1 if a is b else 0

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return 1 if a == b else 0
        if key(a) == key(b):
            return 1
        if a == "" or b == "":
            o = b if a == "" else a
            return neg(self.truth(o))
        # literal prefixes/suffixes that differ
        pa, pb = sparts(a), sparts(b)
        if isinstance(pa[0], str) and isinstance(pb[0], str):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return 0
        xa = self.expand(a)
        xb = self.expand(b)
        if xa is not None and xb is not None and (xa is not a or xb is not b):
            return self.eq(xa, xb)
        if all(isinstance(p, (str, BitCh)) for p in pa) and all(isinstance(p, (str, BitCh)) for p in pb):
            ca = [c for p in pa for c in (p if isinstance(p, str) else [p])]
            cb = [c for p in pb for c in (p if isinstance(p, str) else [p])]
            if len(ca) != len(cb):
                return 0
            n = 1
            for x, y in zip(ca, cb):
                fx = x.n if isinstance(x, BitCh) else {"0": 0, "1": 1}.get(x)
                fy = y.n if isinstance(y, BitCh) else {"0": 0, "1": 1}.get(y)
                if fx is None or fy is None:
                    if x != y:
                        return 0
                    continue
                n = conj(n, neg(bdd.xor(fx, fy)))
            return n
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and isinstance(y, SStr):
                r = self.match_text(x, y.parts)
                if r is not None:
                    return r
        if len(pa) == len(pb):  # the same literals around the same formats of integers
            n = 1
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str) and x == y:
                    continue
                if isinstance(x, Fmt) and isinstance(y, Fmt) and x.spec == y.spec and x.spec in ("", "d") and values.isint(x.v) and values.isint(y.v):
                    n = conj(n, self.eq(x.v, y.v))
                    continue
                n = None
                break
            if n is not None and sum(1 for x in pa if isinstance(x, Fmt)) == 1:
                return n
        values.lit(a, b)
        return bdd.var(("streq", frozenset([key(a), key(b)])))

    def match_text(self, lit, parts):
        """guard under which parts (literals and one decimal integer) spell lit, None if they are not of that form"""
        nums = [p for p in parts if isinstance(p, Fmt)]
        if len(nums) != 1 or not all(isinstance(p, (str, Fmt)) for p in parts):
            return None
        f = nums[0]
        if f.spec not in ("", "d") or not values.isint(f.v):
            return None
        i = parts.index(f)
        pre, suf = "".join(parts[:i]), "".join(parts[i + 1 :])
        if len(lit) <= len(pre) + len(suf) or not lit.startswith(pre) or not lit.endswith(suf):
            return 0
        body = lit[len(pre) : len(lit) - len(suf)]
        try:
            n = int(body)
        except ValueError:
            return 0
        if str(n) != body:
            return 0
        return self.eq(f.v, n)

    def expand(self, s, limit=64):
        """SStr with G parts -> value/G of strings, or None"""
        if isinstance(s, str):
            return s
        if not any(isinstance(p, G) for p in s.parts):
            return s
        combos = [(1, [])]
        for p in s.parts:
            if isinstance(p, G):
                nxt = []
                for g, l in combos:
                    for h, x in p.alts:
                        k = conj(g, h)
                        if k:
                            nxt.append((k, l + [x]))
                combos = nxt
                if len(combos) > limit:
                    return None
            else:
                for _, l in combos:
                    l.append(p)
        return merge([(g, mkstr(l)) for g, l in combos])

    def contains(self, c, x):
        if isinstance(x, IntMember) and isinstance(c, (IntMember, Num, int)):
            return self.compare("Eq", self.binop("BitAnd", c, x), x)
        if isinstance(c, G) or (isinstance(x, G) and not isinstance(c, (ListObj, tuple, SetObj, DictObj, DictView))):
            return self.truth(
                self.lift(lambda p, q: mkbool(self.contains(p, q)), restrict(c, self.pc), restrict(x, self.pc))
            )
        if isinstance(c, tuple):
            n = 0
            for y in c:
                n = disj(n, self.eq(y, x))
                if n == 1:
                    break
            return n
        if isinstance(c, (ListObj,)):
            n = 0
            for g, y in c.e:
                n = disj(n, conj(g, self.eq(y, x)))
            return n
        if isinstance(c, SetObj):
            return self.natives.set_has(self, c, x)
        if isinstance(c, DictObj):
            return self.natives.dict_has(self, c, x)
        if isinstance(c, DictView):
            if c.kind == "keys":
                return self.natives.dict_has(self, c.d, x)
            if c.kind == "values":
                n = 0
                for e in c.d.e:
                    n = disj(n, conj(e.g, self.eq(e.v, x)))
                return n
            n = 0
            for e in c.d.e:
                n = disj(n, conj(e.g, self.eq((e.k, e.v), x)))
            return n
        if isinstance(c, str) and isinstance(x, str):
            return 1 if x in c else 0
        if isinstance(c, (str, SStr)) and isinstance(x, (str, SStr)):
            if isinstance(c, SStr) and isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.parts):
                return 1
            values.lit(x)
            return bdd.var(("substr", key(x), key(c)))
        if isinstance(c, range):
            if isinstance(x, int):
                return 1 if x in c else 0
            if isinstance(x, (Num, B)):
                n = 0
                if c.step == 1:
                    return conj(neg(cmp0("<", sub(x, c.start))), cmp0("<", sub(x, c.stop))) if len(c) else 0
                for i in c:
                    n = disj(n, num_eq(x, i))
                return n
            return 0
        if isinstance(c, bytes) and isinstance(x, (int, bytes)):
            return 1 if x in c else 0
        if isinstance(c, ByteArr):
            return self.contains(c.val, x)
        if isinstance(c, (ABytes, bytes)):
            if isinstance(x, (int, Num)):
                n = 0
                for y in belems(c):
                    n = disj(n, num_eq(y, x))
                return n
            r = self.natives.bytes_find(self, c, x, 0, None)
            return neg(self.eq(r, -1))
        if isinstance(c, self.natives.Model) and hasattr(c, "m___contains__"):
            return self.truth(c.m___contains__(self, x))
        if isinstance(c, NativeObj):
            try:
                return 1 if self.native(x) in c.obj else 0
            except TypeError as e:
                self.raise_(TypeError, str(e))
        if isinstance(c, Instance):
            f, _ = c.cls.lookup("__contains__")
            if f is not UNBOUND:
                return self.truth(self.call(self.getattr(c, "__contains__"), [x]))
        if isinstance(c, ClassObj) and getattr(c, "enum", None) is not None:
            n = 0
            for m in c.enum.values():
                n = disj(n, self.eq(m, x))
            return n
        if isinstance(c, (IterObj, Instance)):
            n = 0
            for g, y in self.entries(c):
                n = disj(n, conj(g, self.eq(y, x)))
            return n
        self.raise_(TypeError, f"argument of type '{self.tname(c)}' is not iterable")

    # --- arithmetic ---------------------------------------------------------------------------

    def binop(self, op, a, b):
        a = restrict(a, self.pc)
        b = restrict(b, self.pc)
        if op == "Add" and self.stringish(a) and self.stringish(b) and (isinstance(a, G) or isinstance(b, G)):
            return self.concat_parts([a, b])
        if isinstance(a, G) or isinstance(b, G):
            if op in ("BitOr", "BitAnd", "BitXor"):
                a, b = gbits(a), gbits(b)
                if not (isinstance(a, G) or isinstance(b, G)):
                    return self.binop1(op, a, b)
            return self.lift(lambda x, y: self.binop1(op, x, y), a, b)
        return self.binop1(op, a, b)

    def stringish(self, v):
        if isinstance(v, G):
            return all(isinstance(x, (str, SStr)) for _, x in v.alts)
        return isinstance(v, (str, SStr))

    _PY = {
        "Add": lambda a, b: a + b,
        "Sub": lambda a, b: a - b,
        "Mult": lambda a, b: a * b,
        "Div": lambda a, b: a / b,
        "FloorDiv": lambda a, b: a // b,
        "Mod": lambda a, b: a % b,
        "Pow": lambda a, b: a**b,
        "LShift": lambda a, b: a << b,
        "RShift": lambda a, b: a >> b,
        "BitAnd": lambda a, b: a & b,
        "BitOr": lambda a, b: a | b,
        "BitXor": lambda a, b: a ^ b,
    }
    _DUN = {
        "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv",
        "Mod": "mod", "Pow": "pow", "LShift": "lshift", "RShift": "rshift", "BitAnd": "and",
        "BitOr": "or", "BitXor": "xor",
    }

    def binop1(self, op, a, b):
        na = isinstance(a, (int, float))
        nb = isinstance(b, (int, float))
        if na and nb:
            try:
                return self._PY[op](a, b)
            except Exception as e:
                self.raise_(type(e), *e.args)
        if (na or isinstance(a, (Num, B, App))) and (nb or isinstance(b, (Num, B, App))):
            return self.arith(op, a, b)
        if isinstance(a, (str, SStr)):
            if op == "Add":
                if not isinstance(b, (str, SStr)):
                    if isinstance(b, App):
                        return mkstr([a, Opq(("str", key(b)))])
                    self.raise_(TypeError, f'can only concatenate str (not "{self.tname(b)}") to str')
                return mkstr([a, b])
            if op == "Mult":
                b = self.concretize(b)
                return self.lift(lambda n: mkstr([a] * max(n, 0)), b)
            if op == "Mod":
                return self.natives.percent_format(self, a, b)
        if isinstance(b, (str, SStr)) and op == "Mult":
            return self.binop1(op, b, a)
        if isinstance(a, (bytes, ABytes)) and isinstance(b, (bytes, ABytes)) and op == "Add":
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a + b
            return mkbytes(belems(a) + belems(b))
        if isinstance(a, ByteArr) and op == "Add":
            return ByteArr(self.binop(op, a.val, self.bytes_of(b)), self.pc)
        if isinstance(b, ByteArr) and op == "Add":
            return self.binop(op, a, b.val)
        if isinstance(a, (bytes, ABytes)) and op == "Mult":
            return self.lift(lambda n: mkbytes(belems(a) * n), self.concretize(b))
        if isinstance(a, tuple):
            if op == "Add" and isinstance(b, tuple):
                return tuple(a) + tuple(b)
            if op == "Mult":
                return self.lift(lambda n: tuple(a) * n, self.concretize(b))
        if isinstance(b, tuple) and op == "Mult":
            return self.binop1(op, b, a)
        if isinstance(a, ListObj):
            if op == "Add" and isinstance(b, ListObj):
                l = ListObj((), self.pc)
                l.e = [list(x) for x in a.e if conj(x[0], self.pc)] + [list(x) for x in b.e if conj(x[0], self.pc)]
                return l
            if op == "Mult":
                def rep(n):
                    l = ListObj((), self.pc)
                    l.e = [list(x) for _ in range(n) for x in a.e]
                    return l
                return self.lift(rep, self.concretize(b))
        if isinstance(b, ListObj) and op == "Mult":
            return self.binop1(op, b, a)
        if isinstance(a, (SetObj, DictView)) and isinstance(b, (SetObj, DictView)):
            return self.natives.set_op(self, op, a, b)
        if isinstance(a, DictObj) and isinstance(b, DictObj) and op == "BitOr":
            d = self.natives.dict_copy(self, a)
            self.natives.dict_update(self, d, b)
            return d
        if op == "BitOr" and self.is_typeish(a) and self.is_typeish(b):
            ta = a if isinstance(a, tuple) else (a,)
            tb = b if isinstance(b, tuple) else (b,)
            return ta + tb
        if isinstance(a, Instance):
            f, _ = a.cls.lookup(f"__{self._DUN[op]}__")
            if f is not UNBOUND:
                return self.call(self.getattr(a, f"__{self._DUN[op]}__"), [b])
        if isinstance(b, Instance):
            f, _ = b.cls.lookup(f"__r{self._DUN[op]}__")
            if f is not UNBOUND:
                return self.call(self.getattr(b, f"__r{self._DUN[op]}__"), [a])
        for m_, nm_, o_ in ((a, f"m___{self._DUN[op]}__", b), (b, f"m___r{self._DUN[op]}__", a)):
            if isinstance(m_, self.natives.Model) and hasattr(m_, nm_):
                return getattr(m_, nm_)(self, o_)
        if isinstance(a, NativeObj) or isinstance(b, NativeObj):
            x = a.obj if isinstance(a, NativeObj) else self.native(a)
            y = b.obj if isinstance(b, NativeObj) else self.native(b)
            try:
                return self.natives.wrap(self, self._PY[op](x, y), a if isinstance(a, NativeObj) else b)
            except Exception as e:
                self.raise_(type(e), *e.args)
        self.raise_(TypeError, f"unsupported operand type(s) for {op}: '{self.tname(a)}' and '{self.tname(b)}'")

    def is_typeish(self, v):
        return v is None or isinstance(v, (type, ClassObj, TypeStub)) or (
            isinstance(v, tuple) and v and all(self.is_typeish(x) for x in v)
        )

    def small(self, v, limit=64):
        """concretize if few values, else None"""
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, App) or to_num(v).o:
            return None
        try:
            return merge(enum_values(v, self.pc, limit))
        except Undecided:
            return None

    def arith(self, op, a, b):
        ka = isinstance(a, (int, float))
        kb = isinstance(b, (int, float))
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            if kb:
                return scale(a, b)
            if ka:
                return scale(b, a)
            if isinstance(a, B) or isinstance(b, B):
                c, x = (a, b) if isinstance(a, B) else (b, a)
                return self.branch(c.n, lambda: x, lambda: scale(x, 0))
            s = self.small(b)
            if s is not None:
                return self.lift(lambda k: scale(a, k), s)
            s = self.small(a)
            if s is not None:
                return self.lift(lambda k: scale(b, k), s)
            return App("*", sorted([a, b], key=lambda x: repr(key(x))))
        if op == "Div":
            if kb:
                if b == 0:
                    self.raise_(ZeroDivisionError, "division by zero")
                return divk(a, b)
            z = self.eq(b, 0)
            self.may_raise(z, ZeroDivisionError, "division by zero")
            s = self.small(b)
            if s is not None:
                return self.lift(lambda k: (a / k if ka else divk(a, k)), s)
            return App("/", (a, b))
        if op == "Pow":
            if kb and isinstance(b, int) and 0 <= b <= 3:
                r = 1
                for _ in range(b):
                    r = self.binop("Mult", r, a)
                return r
            s = self.small(b if not kb else a, 40)
            if s is not None:
                if kb:
                    return self.lift(lambda k: self.binop1(op, k, b), s)
                return self.lift(lambda k: self.binop1(op, a, k) if not isinstance(a, Num) else App("**", (a, k)), s)
            return App("**", (a, b))
        if op in ("LShift", "RShift"):
            if not kb:
                s = self.concretize(b)
                return self.lift(lambda k: self.binop1(op, a, k), s)
            if b < 0:
                self.raise_(ValueError, "negative shift count")
            if op == "LShift":
                return scale(a, 1 << b)
            r = shr(a, b)
            if r is None:
                return App(">>", (a, b))
            return r
        if op in ("BitAnd", "BitOr", "BitXor"):
            o = {"BitAnd": "&", "BitOr": "|", "BitXor": "^"}[op]
            if isinstance(a, B) and isinstance(b, (B, bool)) or isinstance(b, B) and isinstance(a, bool):
                x, y = self.truth(a), self.truth(b)
                return mkbool({"&": conj, "|": disj, "^": bdd.xor}[o](x, y))
            for x in (a, b):
                if isinstance(x, float) or (isinstance(x, Num) and x.f):
                    self.raise_(TypeError, f"unsupported operand type(s) for {o}")
            r = bitop(o, a, b)
            if r is None:
                return App(o, (a, b))
            return r
        if op in ("FloorDiv", "Mod"):
            if kb and b == 0:
                self.raise_(ZeroDivisionError, "division by zero")
            if kb and _is_pow2(b):
                k = b.bit_length() - 1
                q = shr(a, k)
                if q is not None:
                    return q if op == "FloorDiv" else sub(a, scale(q, b))
            if kb and isinstance(b, (int, float)):
                na = to_num(a)
                lo, hi = nrange(na)
                if not na.o and (lo // b) == (hi // b):
                    q = lo // b
                    return (float(q) if na.f or isinstance(b, float) else q) if op == "FloorDiv" else sub(a, q * b)
            if not kb:
                self.may_raise(self.eq(b, 0), ZeroDivisionError, "division by zero")
            sa = self.small(a, 1100) if not ka else a
            sb = self.small(b, 1100) if not kb else b
            if sa is not None and sb is not None:
                return self.lift(lambda x, y: self.binop1(op, x, y), sa, sb)
            return App("//" if op == "FloorDiv" else "%", (a, b))
        raise Undecided(op)

    # --- attributes -----------------------------------------------------------------------------

    def tname(self, v):
        c = self.classof(v)
        return c.name if isinstance(c, ClassObj) else getattr(c, "__name__", str(c))

    def classof(self, v):
        return self.natives.classof(self, v)

    def getattr(self, o, name, default=UNBOUND):
        o = restrict(o, self.pc)
        if isinstance(o, G):
            return self.lift(lambda x: self.getattr(x, name, default), o)
        if isinstance(o, Instance):
            return self.inst_getattr(o, name, default)
        if isinstance(o, ModuleObj):
            if name in o.ns:
                return self.bound(o.ns[name], AttributeError, name)
            if name == "__dict__":
                return self.natives.ns_dict(self, o.ns)
            sub_ = self.import_module(o.name + "." + name) if getattr(o, "ispkg", False) else None
            if sub_ is not None:
                return sub_
            if default is not UNBOUND:
                return default
            self.raise_(AttributeError, f"module '{o.name}' has no attribute '{name}'")
        if isinstance(o, ClassObj):
            return self.class_getattr(o, name, default)
        if isinstance(o, SuperObj):
            obj = o.self_
            cls = obj if isinstance(obj, ClassObj) else obj.cls
            mro = cls.mro
            i = mro.index(o.owner)
            for c in mro[i + 1 :]:
                if name in c.ns:
                    return self.bind(c.ns[name], obj if isinstance(obj, Instance) else None, cls)
            return self.natives.object_attr(self, obj, name)
        r = self.natives.native_getattr(self, o, name)
        if r is UNBOUND:
            self.natives.unmodelled(self, o, name)
            if default is not UNBOUND:
                return default
            self.raise_(AttributeError, f"'{self.tname(o)}' object has no attribute '{name}'")
        return r

    def bind(self, a, obj, cls):
        a = restrict(a, self.pc)
        if isinstance(a, G):
            return self.lift(lambda x: self.bind(x, obj, cls), a)
        if isinstance(a, StaticM):
            return a.f
        if isinstance(a, ClassM):
            return BoundMethod(a.f, cls)
        if obj is not None:
            if isinstance(a, (FuncObj, CacheFn, CtxGen)) or (isinstance(a, NativeFn) and getattr(a, "method", False)):
                return BoundMethod(a, obj)
            if isinstance(a, PropertyObj):
                if a.fget is None:
                    self.raise_(AttributeError, "unreadable attribute")
                return self.call(a.fget, [obj])
            if isinstance(a, CachedProp):
                v = self.call(a.f, [obj])
                self.store_attr(obj, a.name, v)
                return v
            if isinstance(a, PartialObj) and getattr(a, "method", False):
                return PartialObj(a.f, [obj] + a.args, a.kwargs)
            if isinstance(a, Instance):
                f, _ = a.cls.lookup("__get__")
                if f is not UNBOUND:
                    return self.call(BoundMethod(f, a), [obj, cls])
        return a

    def inst_getattr(self, o, name, default):
        ca, owner = o.cls.lookup(name)
        if isinstance(ca, PropertyObj):
            return self.bind(ca, o, o.cls)
        if isinstance(ca, Instance) and ca.cls.lookup("__set__")[0] is not UNBOUND:
            return self.bind(ca, o, o.cls)
        if name in o.attrs:
            v = restrict(o.attrs[name], self.pc)
            if isinstance(v, G) and any(x is UNBOUND for _, x in v.alts) or v is UNBOUND:
                fb = ca if ca is not UNBOUND else default
                if fb is not UNBOUND:
                    fb = self.bind(fb, o, o.cls) if ca is not UNBOUND else fb
                    if v is UNBOUND:
                        return fb
                    return merge([(g, fb if x is UNBOUND else x) for g, x in v.alts])
                return self.bound(v, AttributeError, f"'{o.cls.name}' object has no attribute '{name}'")
            return v
        if ca is not UNBOUND:
            return self.bind(ca, o, o.cls)
        r = self.natives.object_attr(self, o, name)
        if r is not UNBOUND:
            return r
        f, _ = o.cls.lookup("__getattr__")
        if f is not UNBOUND:
            return self.call(BoundMethod(f, o), [name])
        if default is not UNBOUND:
            return default
        self.raise_(AttributeError, f"'{o.cls.name}' object has no attribute '{name}'")

    def class_getattr(self, c, name, default=UNBOUND):
        a, _ = c.lookup(name)
        if a is not UNBOUND:
            a = self.bound(a, AttributeError, name)
            return self.bind(a, None, c)
        r = self.natives.class_attr(self, c, name)
        if r is not UNBOUND:
            return r
        if default is not UNBOUND:
            return default
        self.raise_(AttributeError, f"type object '{c.name}' has no attribute '{name}'")

    def setattr(self, o, name, v):
        o = restrict(o, self.pc)
        if isinstance(o, G):
            self.lift(lambda x: self.setattr(x, name, v), o)
            return
        if isinstance(o, Instance):
            ca, _ = o.cls.lookup(name)
            if isinstance(ca, PropertyObj):
                if ca.fset is None:
                    self.raise_(AttributeError, f"property '{name}' of '{o.cls.name}' object has no setter")
                self.call(ca.fset, [o, v])
                return
            if isinstance(ca, Instance) and ca.cls.lookup("__set__")[0] is not UNBOUND:
                self.call(self.getattr(ca, "__set__"), [o, v])
                return
            f, _ = o.cls.lookup("__setattr__")
            if f is not UNBOUND:
                self.call(BoundMethod(f, o), [name, v])
                return
            if o.cls.dc and o.cls.dc.get("frozen"):
                self.raise_(AttributeError, f"cannot assign to field '{name}'")
            sl = self.natives.slots_of(self, o.cls)
            if sl is not None and name not in sl and name != "__class__":
                self.raise_(AttributeError, f"'{o.cls.name}' object has no attribute '{name}'")
            if name == "__class__":
                v = restrict(v, self.pc)
                if not isinstance(v, ClassObj) or not implies(o.birth, self.pc):
                    raise Undecided("assignment to __class__")
                o.cls = v
                return
            if name == "__dict__" and sl is None:
                self.natives.set_instance_dict(self, o, v)
                return
            self.store_attr(o, name, v)
        elif isinstance(o, ClassObj):
            o.ns[name] = self.upd(o.ns.get(name, UNBOUND), v, 1)
        elif isinstance(o, ModuleObj):
            o.ns[name] = self.upd(o.ns.get(name, UNBOUND), v, 1)
        elif isinstance(o, FuncObj):
            o.attrs[name] = v
        elif isinstance(o, NativeObj):
            if "set" in o.hooks:
                o.hooks["set"](self, o, name, v)
                return
            try:
                setattr(o.obj, name, self.native(v))
            except NotConcrete:
                raise Undecided(f"set {name} on library object")
            except Exception as e:
                self.raise_(type(e), *e.args)
        elif isinstance(o, (PartialObj, CacheFn)):
            pass
        elif isinstance(o, self.natives.Model):
            o.setattr(self, name, v)
        elif isinstance(o, (NativeFn, CtxGen)):
            pass
        elif isinstance(o, NativeMod):
            o.attrs[name] = self.upd(o.attrs.get(name, UNBOUND), v, 1)
        elif isinstance(o, SuperObj):
            self.setattr(o.self_, name, v)
        else:
            self.raise_(AttributeError, f"'{self.tname(o)}' object has no attribute '{name}'")

    def store_attr(self, o, name, v):
        o.attrs[name] = self.upd(o.attrs.get(name, UNBOUND), v, o.birth)
        o.sites[name] = self.site()

    # --- subscripts -----------------------------------------------------------------------------

    def getitem(self, o, i):
        return self.natives.getitem(self, o, i)

    def setitem(self, o, i, v):
        self.natives.setitem(self, o, i, v)

    def delitem(self, o, i):
        self.natives.delitem(self, o, i)

    # --- calls ----------------------------------------------------------------------------------

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        f = restrict(f, self.pc)
        t = type(f)
        if t is FuncObj:
            return self.call_func(f, args, kwargs)
        if t is BoundMethod:
            return self.call(f.func, [f.self_] + args, kwargs)
        if t is NativeFn:
            self.ncalls += 1
            return f.impl(self, args, kwargs)
        if t is ClassObj:
            return self.natives.instantiate(self, f, args, kwargs)
        if t is StaticM or t is ClassM:
            return self.call(f.f, args, kwargs)
        if t is G:
            return self.lift(lambda x: self.call(x, args, kwargs), f)
        if t is PartialObj:
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + args, kw)
        if t is CacheFn:
            try:
                k = (tuple(key(a) for a in args), tuple(sorted((n, key(v)) for n, v in kwargs.items())))
            except TypeError:
                k = None
            if k is not None and k in f.memo:
                return f.memo[k]
            r = self.call(f.f, args, kwargs)
            if k is not None and self.pc == 1:
                f.memo[k] = r
            return r
        if t is CtxGen:
            return CtxInst(self.call(f.f, args, kwargs))
        if isinstance(f, type):
            return self.natives.call_type(self, f, args, kwargs)
        if t is Instance:
            g, _ = f.cls.lookup("__call__")
            if g is not UNBOUND:
                return self.call(self.getattr(f, "__call__"), args, kwargs)
            self.raise_(TypeError, f"'{f.cls.name}' object is not callable")
        if t is TypeStub:
            return args[0] if args else None
        if isinstance(f, self.natives.Model):
            return f.call(self, args, kwargs)
        if t is NativeObj:
            return self.natives.call_nativeobj(self, f, args, kwargs)
        if f is None or isinstance(f, (int, str, float, bytes, tuple, ListObj, DictObj)):
            self.raise_(TypeError, f"'{self.tname(f)}' object is not callable")
        raise Undecided(f"call of {f!r} at {self.site()}")

    def call_func(self, f, args, kwargs):
        self.ncalls += 1
        node = f.node
        info = finfo(node)
        if f.module.file != PRELUDE:
            self.functions.add(f"{f.module.file}:{f.qual}")
        if len(self.stack) > 400:
            raise Undecided(f"recursion depth at {f.qual}")
        sc = Scope("func", f.scope, f.module, self.pc, info, f)
        a = node.args
        pos = a.posonlyargs + a.args
        np_ = len(pos)
        if len(args) > np_ and a.vararg is None:
            self.raise_(TypeError, f"{f.name}() takes {np_} positional arguments but {len(args)} were given")
        for p, v in zip(pos, args):
            sc.vars[p.arg] = v
        if a.vararg is not None:
            sc.vars[a.vararg.arg] = tuple(args[np_:])
        extra = {}
        names = {x.arg for x in a.args + a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in sc.vars:
                    self.raise_(TypeError, f"{f.name}() got multiple values for argument '{k}'")
                sc.vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_(TypeError, f"{f.name}() got an unexpected keyword argument '{k}'")
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in sc.vars:
                j = i - (np_ - nd)
                if j >= 0:
                    sc.vars[p.arg] = f.defaults[j]
                else:
                    self.raise_(TypeError, f"{f.name}() missing required argument: '{p.arg}'")
        for p in a.kwonlyargs:
            if p.arg not in sc.vars:
                if p.arg in f.kwdefaults:
                    sc.vars[p.arg] = f.kwdefaults[p.arg]
                else:
                    self.raise_(TypeError, f"{f.name}() missing keyword-only argument: '{p.arg}'")
        if a.kwarg is not None:
            d = DictObj(self.pc)
            for k, v in extra.items():
                self.natives.dict_set(self, d, k, v)
            sc.vars[a.kwarg.arg] = d
        if pos:
            sc.self0 = sc.vars[pos[0].arg]
        if isinstance(node, ast.Lambda):
            return self._run_lambda(f, node, sc)
        if info.isgen:
            return IterObj([], GenThread(self, sc, node.body), self.pc)
        self.stack.append((self.cur, self.line))
        cur, line = self.cur, self.line
        self.cur = f
        try:
            self.ex_block(node.body, sc)
        finally:
            self.stack.pop()
            self.cur, self.line = cur, line
        rets = sc.returns
        if self.pc:
            rets = rets + [(self.pc, None)]
        pc = 0
        for g, _ in rets:
            pc = disj(pc, g)
        self.pc = pc
        if not pc:
            raise PathDead()
        if len(rets) > 1:
            self.njoins += 1
        return restrict(merge(rets), self.pc)

    def _run_lambda(self, f, node, sc):
        self.stack.append((self.cur, self.line))
        cur, line = self.cur, self.line
        self.cur = f
        try:
            return self.ev(node.body, sc)
        finally:
            self.stack.pop()
            self.cur, self.line = cur, line

    # --- conversions ----------------------------------------------------------------------------

    def native(self, v):
        """fully concrete python object or NotConcrete"""
        v = restrict(v, self.pc)
        if v is None or isinstance(v, (bool, int, float, str, bytes, range, type)):
            return v
        if isinstance(v, tuple):
            return tuple(self.native(x) for x in v)
        if isinstance(v, ListObj):
            try:
                return [self.native(x) for x in self.list_values(v)]
            except Undecided:
                raise NotConcrete()
        if isinstance(v, DictObj):
            out = {}
            for e in v.e:
                k = conj(e.g, self.pc)
                if k == self.pc:
                    out[self.native(e.k)] = self.native(e.v)
                elif k:
                    raise NotConcrete()
            return out
        if isinstance(v, SetObj):
            out = set()
            for g, x in v.e:
                k = conj(g, self.pc)
                if k == self.pc:
                    out.add(self.native(x))
                elif k:
                    raise NotConcrete()
            return frozenset(out) if v.frozen else out
        if isinstance(v, NativeObj):
            return v.obj
        if isinstance(v, ByteArr):
            return bytearray(self.native(v.val))
        if isinstance(v, IterObj):
            return [self.native(x) for x in self.to_list(v)]
        if isinstance(v, DictView):
            return [self.native(x) for x in self.to_list(v)]
        if isinstance(v, SliceObj):
            return slice(self.native(v.a), self.native(v.b), self.native(v.c))
        raise NotConcrete()

    def bytes_of(self, v):
        v = restrict(v, self.pc)
        if isinstance(v, ByteArr):
            return restrict(v.val, self.pc)
        if isinstance(v, (ListObj, tuple, IterObj)):
            return self.natives.mk_bytes_from(self, v)
        return v

    def tuple_of(self, v):
        """list-like with possibly guarded entries -> tuple or G of tuples"""
        if isinstance(v, ListObj):
            ent = [(g, x) for g, x in v.e if conj(g, self.pc)]
        else:
            ent = self.entries(v)
        combos = [(self.pc, ())]
        for g, x in ent:
            if implies(self.pc, g):
                combos = [(p, t + (x,)) for p, t in combos]
                continue
            nxt = []
            for p, t in combos:
                a = conj(p, g)
                if a:
                    nxt.append((a, t + (x,)))
                b = bdd.diff(p, g)
                if b:
                    nxt.append((b, t))
            combos = nxt
            if len(combos) > 300:
                raise Undecided("sequence length depends on data")
        if len(combos) == 1:
            return combos[0][1]
        return merge(combos)

    def isinstance_(self, v, cls):
        return self.natives.isinstance_(self, v, cls)
