"""Import hook: the modules under check (and the harnesses) are compiled from their current source after a
source-to-source rewrite that routes calls, identity and membership tests, subscripts, f-strings, displays
and iteration through hooks.py.  Nothing else about the code is changed, and nothing is cached on disk."""

import ast
import importlib.abc
import importlib.machinery
import sys

from . import hooks, schedule

HOOK = "__sx__"
_OPNAMES = {ast.Sub: "Sub", ast.BitAnd: "BitAnd", ast.BitOr: "BitOr", ast.BitXor: "BitXor"}


def _h(attr):
    return ast.Attribute(value=ast.Name(id=HOOK, ctx=ast.Load()), attr=attr, ctx=ast.Load())


def _hc(attr, *args):
    return ast.Call(func=_h(attr), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.depth = 0  # function nesting

    # scopes
    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        self.stack.append(node.name)
        self.depth += 1
        body = []
        for i, st in enumerate(node.body):
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        qual = f"{self.modname}:{'.'.join(self.stack)}"
        self.depth -= 1
        self.stack.pop()
        pos = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
            body[0].value.value, str
        ):
            pos = 1
        body.insert(pos, ast.Expr(_hc("enter", ast.Constant(qual))))
        node.body = body
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.stack.append(node.name)
        # decorators, bases: evaluated in the enclosing scope
        self.depth = depth
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.depth = 0
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.stack.pop()
        self.depth = depth
        return node

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, (ast.Attribute, ast.Subscript)):
            node.target = self.visit(node.target)
        return node

    # expressions (only inside functions)
    def visit_Call(self, node):
        if not self.depth:
            self.generic_visit(node)
            return node
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars", "dir") and not (
            node.args or node.keywords
        ):
            return node
        self.generic_visit(node)
        if any(k.arg is None for k in node.keywords):
            kws = ast.List(
                elts=[
                    ast.Tuple(
                        elts=[k.value] if k.arg is None else [ast.Constant(k.arg), k.value], ctx=ast.Load()
                    )
                    for k in node.keywords
                ],
                ctx=ast.Load(),
            )
            return ast.copy_location(
                _hc("callkw", node.func, ast.Tuple(elts=node.args, ctx=ast.Load()), kws), node
            )
        return ast.copy_location(
            ast.Call(func=_h("call"), args=[node.func] + node.args, keywords=node.keywords), node
        )

    def visit_Starred(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            node.value = _hc("iter_", node.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        names = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "contains", ast.NotIn: "not_contains"}
        if not any(type(o) in names for o in node.ops):
            return node
        if len(node.ops) == 1:
            op = type(node.ops[0])
            left, right = node.left, node.comparators[0]
            if op in (ast.In, ast.NotIn):
                # keep evaluation order left, right
                return ast.copy_location(
                    _hc("in_" if op is ast.In else "not_in_", left, right), node
                )
            return ast.copy_location(_hc(names[op], left, right), node)
        operands = [node.left] + node.comparators
        if all(isinstance(m, (ast.Name, ast.Constant, ast.Attribute)) for m in operands[1:-1]):
            parts = []
            for o, l, r in zip(node.ops, operands, operands[1:]):
                c = ast.Compare(left=l, ops=[o], comparators=[r])
                parts.append(self._one(c))
            return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)
        return node

    def _one(self, c):
        op = type(c.ops[0])
        m = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "in_", ast.NotIn: "not_in_"}.get(op)
        return _hc(m, c.left, c.comparators[0]) if m else c

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in node.slice.elts):
                return node
            return ast.copy_location(_hc("getitem", node.value, node.slice), node)
        return node

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_hc("fstr", ast.Tuple(elts=parts, ctx=ast.Load())), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        items = [
            ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)
        ]
        return ast.copy_location(_hc("mkdict", *items), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        items = [_hc("Star", e.value) if isinstance(e, ast.Starred) else e for e in node.elts]
        return ast.copy_location(_hc("mkset", *items), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        g = ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators
        )
        return ast.copy_location(_hc("mkdict_iter", g), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_hc("mkset_iter", g), node)

    def visit_comprehension(self, node):
        self.generic_visit(node)
        if self.depth:
            node.iter = _hc("iter_", node.iter)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if self.depth:
            node.iter = _hc("iter_", node.iter)
        return node

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        node.value = _hc("iter_", node.value)
        return node

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Name) and node.value.func.id == schedule.STEP:
            return node
        return self.generic_visit(node)

    def visit_Match(self, node):
        self.generic_visit(node)
        if self.depth:
            # (True and False are matched by identity)
            exact = any(isinstance(p, ast.MatchSingleton) and p.value is not None for c in node.cases for p in ast.walk(c.pattern))
            node.subject = _hc("match_exact" if exact else "match_", node.subject)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = _OPNAMES.get(type(node.op))
        if self.depth and n:
            return ast.copy_location(_hc("binop_" + n, node.left, node.right), node)
        if self.depth and isinstance(node.op, ast.Mod):
            return ast.copy_location(_hc("mod", node.left, node.right), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.depth:
            for tgt in node.targets:
                if isinstance(tgt, (ast.Tuple, ast.List)) and not isinstance(node.value, (ast.Tuple, ast.List)):
                    node.value = _hc("iter_", node.value)
                    break
        return node


class _Hooks:
    """Name space visible to the rewritten code."""

    call = staticmethod(hooks.call)
    callkw = staticmethod(hooks.callkw)
    is_ = staticmethod(hooks.is_)
    is_not = staticmethod(hooks.is_not)
    getitem = staticmethod(hooks.getitem)
    iter_ = staticmethod(hooks.iter_)
    fstr = staticmethod(hooks.fstr)
    mkdict = staticmethod(hooks.mkdict)
    mkdict_iter = staticmethod(hooks.mkdict_iter)
    mkset = staticmethod(hooks.mkset)
    mkset_iter = staticmethod(hooks.mkset_iter)
    Star = hooks.Star
    resolve = staticmethod(hooks.resolve)
    match_ = staticmethod(hooks.match_)

    @staticmethod
    def match_exact(x):
        return hooks.match_(x, True)
    enter = staticmethod(hooks.enter)

    @staticmethod
    def in_(x, c):
        return hooks.contains(c, x)

    @staticmethod
    def not_in_(x, c):
        return not hooks.contains(c, x)

    @staticmethod
    def mod(a, b):
        a = hooks.resolve(a)
        if type(a) is str:
            return a % (tuple(hooks.resolve(x) for x in b) if type(b) is tuple else hooks.resolve(b))
        return a % hooks.resolve(b)


for _n, _f in hooks.OPS.items():
    setattr(_Hooks, "binop_" + _n, staticmethod(lambda a, b, _f=_f: hooks.binop(_f, a, b)))


STEPS = False


def rewrite(source, filename, modname):
    tree = ast.parse(source, filename)
    if STEPS and schedule.wanted(modname):
        tree = schedule.stepping(tree)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        return rewrite(self.get_data(self.path), self.path, fullname)

    def exec_module(self, module):
        module.__dict__[HOOK] = _Hooks
        module.__dict__[schedule.STEP] = schedule.step
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = tuple(prefixes)

    def find_spec(self, fullname, path, target=None):
        if not any(fullname == p or fullname.startswith(p + ".") for p in self.prefixes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or spec.origin is None or not spec.origin.endswith(".py"):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        spec.cached = None
        return spec


def install(prefixes):
    sys.dont_write_bytecode = True
    for p in prefixes:
        for m in list(sys.modules):
            if m == p or m.startswith(p + "."):
                raise RuntimeError(f"{m} was imported before the hook")
    sys.meta_path.insert(0, Finder(prefixes))
