"""Threads of control that run one at a time, and are switched before chosen statements.

`stepping` puts a call before every statement of every function of `databind`, both in the code that is executed
symbolically and in the plain code on which witnesses are replayed, so that a schedule means the same in both: "run this
thread until its n-th statement".
"""

import ast
import importlib.machinery
import itertools
import operator
import sys
import threading
import types

STEP = "__verif_step__"
SWITCHING = ("C32",)  # (the properties that need it)
PREFIX = "databind"

CURRENT = None


def wanted(modname):
    return modname == PREFIX or modname.startswith(PREFIX + ".")


MUTATORS = {"append", "appendleft", "add", "update", "setdefault", "pop", "popitem", "popleft", "clear", "extend", "insert", "remove", "discard", "sort", "reverse", "setattr", "delattr", "__setattr__", "__setitem__", "set", "put", "register", "push"}


def stores(st):
    """May a simple statement modify something other than its local variables?"""
    if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
        targets = st.targets if isinstance(st, (ast.Assign, ast.Delete)) else [st.target]
        if any(isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) for t in targets for n in ast.walk(t)):
            return True
    elif not isinstance(st, ast.Expr):
        return False
    return any(isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", None)) in MUTATORS for n in ast.walk(st))


class Stepper(ast.NodeTransformer):
    def __init__(self):
        self.inside = False

    def visit_FunctionDef(self, node):
        before, self.inside = self.inside, True
        self.generic_visit(node)
        self.inside = before
        node.body = self.put(node.body, 1)
        return node

    def visit_ClassDef(self, node):
        before, self.inside = self.inside, False
        self.generic_visit(node)
        self.inside = before
        return node

    def visit_Lambda(self, node):
        return node

    def put(self, body, first=0):
        out = []
        if first and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            out.append(body[0])
            body = body[1:]
        for st in body:
            if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == STEP):
                out.append(ast.copy_location(ast.Expr(ast.Call(ast.Name(STEP, ast.Load()), [ast.Constant(first)], [])), st))
            first = 0
            out.append(st)
            if stores(st):
                out.append(ast.copy_location(ast.Expr(ast.Call(ast.Name(STEP, ast.Load()), [ast.Constant(2)], [])), st))
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.inside and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.IfExp)):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self.put(b))
        return node


def stepping(tree):
    return Stepper().visit(tree)


class Loader(importlib.machinery.SourceFileLoader):
    """Plain code with steps (for replays)."""

    def get_code(self, fullname):
        tree = stepping(ast.parse(self.get_data(self.path), self.path))
        ast.fix_missing_locations(tree)
        return compile(tree, self.path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__[STEP] = step
        super().exec_module(module)


class Finder:
    @staticmethod
    def find_spec(fullname, path, target=None):
        if not wanted(fullname):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or spec.origin is None or not spec.origin.endswith(".py"):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        spec.cached = None
        return spec


def install_plain():
    install_locks()
    sys.meta_path.insert(0, Finder)


def step(first):
    t = CURRENT
    if t is not None:
        t.point(first)


class Killed(BaseException):
    pass


class Strand:
    """A thread of control."""

    def __init__(self, fn, watch=None):
        self.fn = fn
        self.watch = watch
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.steps = 0
        self.until = None
        self.finished = False
        self.killed = False
        self.value = self.exc = self.control = None
        self.thread = None
        self.last_entry = self.asked = 0
        self.wrote = []  # the intervals of statements in which something that is shared was modified

    def _main(self):
        self.go.acquire()
        try:
            if self.killed:
                return
            self.value = self.fn()
        except Exception as exc:  # noqa: BLE001
            self.exc = exc
        except BaseException as exc:
            self.control = exc
        finally:
            self.finished = True
            self.back.release()

    def point(self, first):
        if threading.current_thread() is not self.thread:
            return
        self.steps += 1
        if self.watch is not None and first:
            self.asked += 1
            if first == 2 or self.asked % 12 == 0:
                if self.watch():
                    self.wrote.append((max(self.last_entry, self.steps - 40), self.steps))
                self.last_entry = self.steps
        if self.steps == self.until:
            self.back.release()
            self.go.acquire()
            if self.killed:
                raise Killed

    def wait(self):
        """Give way to the other thread, which has to run to its end before this one goes on."""
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise Killed

    def resume(self, until=None):
        """Run on until the statement, or to the end."""
        global CURRENT
        if self.finished:
            return
        if self.thread is None:
            self.thread = threading.Thread(target=self._main, daemon=True)
            self.thread.start()
        self.until = until
        CURRENT = self
        try:
            self.go.release()
            self.back.acquire()
        finally:
            CURRENT = None
        if self.finished:
            self.thread.join()
            if self.watch is not None and self.watch():
                self.wrote.append((self.last_entry, self.steps + 1))
        if self.control is not None:
            raise self.control

    def kill(self):
        if self.thread is not None and not self.finished:
            self.killed = True
            self.go.release()
            self.thread.join()


def points(strand, n):
    """The statements before which a thread that ran alone is to be interrupted: all of those around a modification of
    something that is shared, and n others."""
    out = set()
    for a, b in strand.wrote:
        out.update(range(a, b + 2))
    total = strand.steps
    out.update(1 + (total * k) // (n + 1) for k in range(1, n + 1))
    return sorted(p for p in out if 1 <= p <= total)


# -- what is shared

_PLAIN = (dict, list, set)
_values = operator.methodcaller("values")


def _content(cell):
    try:
        return cell.cell_contents
    except ValueError:
        return None


class Shared:
    """Everything that is reachable from the modules of databind, some classes and other objects, as far as databind's
    own objects go; can tell whether it has changed, and put it back as it was."""

    def __init__(self, roots=None, base=None):
        self.roots = [m for n, m in sorted(sys.modules.items()) if wanted(n)] if roots is None else list(roots)
        self.base = base
        self._look()
        self.saved = [(n, self._copy(n)) for n in self.nodes] if roots is None else []
        self.first = self.sign

    def _look(self):
        if self.base is not None:
            self.base.update()
        self.nodes = [x for x in self._nodes() if isinstance(x, (dict, list, set, type)) or type(x) in (types.ModuleType, types.CellType) or hasattr(type(x), "cache_clear")]
        self._sort()
        self.sign = self._sign()

    def update(self):
        if self._sign() != self.sign:
            self._look()

    def _nodes(self):
        seen = {} if self.base is None else dict.fromkeys(map(id, self.base.nodes))
        known = len(seen)
        queue = list(self.roots)
        while queue:
            x = queue.pop()
            if id(x) in seen:
                continue
            kids = self._kids(x)
            if kids is None:
                continue
            seen[id(x)] = x
            queue.extend(kids)
        return list(seen.values())[known:]

    def _kids(self, x):
        ty = type(x)
        if ty is types.ModuleType:
            return [v for k, v in list(vars(x).items()) if not k.startswith("__") and type(v) is not types.ModuleType]
        if isinstance(x, type):
            if not self._own(x) and x not in self.roots:
                return None
            return list(vars(x).values())
        if ty is types.FunctionType:
            if not wanted(x.__module__ or ""):
                return None
            out = [x.__defaults__ or (), x.__kwdefaults__ or {}, x.__dict__]
            for c in x.__closure__ or ():
                out.append(c)
            return out
        if ty is types.CellType:
            try:
                return [x.cell_contents]
            except ValueError:
                return []
        if ty in (staticmethod, classmethod):
            return [x.__func__]
        if isinstance(x, _PLAIN) or ty is tuple:
            return list(x.values()) if isinstance(x, dict) else list(x) if ty is not set else []
        if hasattr(ty, "cache_clear"):
            return []
        if self._own(ty):
            d = getattr(x, "__dict__", None)
            return [d] if type(d) is dict else []
        return None

    @staticmethod
    def _own(cls):
        return any(wanted(getattr(c, "__module__", None) or "") for c in cls.__mro__[:-1])

    def _sort(self):
        """The nodes by what their contents are."""
        self.maps = [x if isinstance(x, dict) else vars(x) for x in self.nodes if isinstance(x, (dict, type)) or type(x) is types.ModuleType]
        self.seqs = [x for x in self.nodes if isinstance(x, list)]
        self.sets = [x for x in self.nodes if isinstance(x, set)]
        self.cells = [x for x in self.nodes if type(x) is types.CellType]
        self.caches = [x for x in self.nodes if hasattr(type(x), "cache_clear")]

    def _sign(self):
        flat = itertools.chain.from_iterable
        return hash((
            self.base._sign() if self.base is not None else 0,
            hash(tuple(map(id, flat(map(_values, self.maps))))), tuple(map(len, self.maps)), hash(tuple(map(id, flat(self.seqs)))),
            tuple(map(len, self.seqs)), tuple(map(len, self.sets)), tuple([id(_content(c)) for c in self.cells]),
            tuple([c.cache_info().currsize for c in self.caches]),
        ))

    def _copy(self, x):
        if isinstance(x, _PLAIN):
            return x.copy() if type(x) in _PLAIN else None
        if isinstance(x, type) or type(x) is types.ModuleType:
            return dict(vars(x))
        if type(x) is types.CellType:
            try:
                return (x.cell_contents,)
            except ValueError:
                return None
        return None

    def changed(self):
        if self._sign() == self.sign:
            return False
        self._look()
        return True

    def restore(self):
        if self._sign() == self.sign == self.first:
            return
        for x, c in self.saved:
            if hasattr(type(x), "cache_clear"):
                x.cache_clear()
            if c is None:
                continue
            if type(x) is list:
                if len(x) != len(c) or any(a is not b for a, b in zip(x, c)):
                    x[:] = c
            elif type(x) is set:
                if len(x) != len(c):
                    x.clear()
                    x.update(c)
            elif type(x) is dict:
                if len(x) != len(c) or any(x.get(k, self) is not v for k, v in c.items()):
                    x.clear()
                    x.update(c)
            elif type(x) is types.CellType:
                x.cell_contents = c[0]
            elif isinstance(x, type):
                now = dict(vars(x))
                for k in now.keys() - c.keys():
                    try:
                        delattr(x, k)
                    except (AttributeError, TypeError):
                        pass
                for k, v in c.items():
                    if now.get(k, self) is not v and k not in ("__dict__", "__weakref__"):
                        try:
                            setattr(x, k, v)
                        except (AttributeError, TypeError):
                            pass
            elif type(x) is types.ModuleType:
                d = vars(x)
                for k in d.keys() - c.keys():
                    del d[k]
                for k, v in c.items():
                    if d.get(k, self) is not v:
                        d[k] = v
        self._look()
        self.first = self.sign


# -- locks that give way

_Lock, _RLock = threading.Lock, threading.RLock


LOCKS = []


def free_locks():
    for k in LOCKS:
        k.owner, k.count = None, 0


class Lock:
    """A lock of databind's: a thread that has to wait for it gives way to the other one."""

    def __init__(self, again):
        self.owner = None
        self.count = 0
        self.again = again
        LOCKS.append(self)

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.owner == me and not self.again and blocking:
            raise RuntimeError("deadlock")
        while self.owner is not None and not (self.again and self.owner == me):
            t = CURRENT
            if not blocking or timeout is not None and timeout >= 0 or t is None or t.thread is not threading.current_thread():
                return False
            t.wait()
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner != threading.get_ident():
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _factory(real, again):
    def make(*a, **k):
        return Lock(again) if wanted(sys._getframe(1).f_globals.get("__name__") or "") else real(*a, **k)

    return make


def install_locks():
    threading.Lock = _factory(_Lock, False)
    threading.RLock = _factory(_RLock, True)
