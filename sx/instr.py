"""AST instrumentation of the code under test, regenerated from the current source on every import."""

import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import models
from .engine import Control

PREFIXES = ["edk2toollib"]
LOADED = {}  # module name -> (path, sha256)

RT = dict(
    __sx_call__=models.call,
    __sx_get__=models.getitem,
    __sx_setv__=models.setitem_v,
    __sx_slice__=slice,
    __sx_del__=models.delitem,
    __sx_aug__=models.augitem,
    __sx_in__=models.contains,
    __sx_nin__=models.not_contains,
    __sx_is__=models.is_,
    __sx_isn__=models.is_not,
    __sx_mod__=models.mod,
    __sx_setop__=models.setop,
    __sx_fstr__=models.fstr,
    __sx_mkset__=models.mkset,
    __sx_mkdict__=models.mkdict,
    __sx_ss__=models._STARSTAR,
    __sx_enter__=models.enter,
    __sx_tick__=models.tick,
    __sx_Control__=Control,
    __sx_inst__=True,
)

NOCALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "TypeVar", "__import__"}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def mkcall(fn, *args):
    return ast.Call(func=name(fn), args=list(args), keywords=[])


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # -- functions
    def _func(self, node):
        self.stack.append(node.name)
        q = "%s:%s" % (self.mod, ".".join(self.stack))
        decs = node.decorator_list
        node.decorator_list = []
        rets, node.returns = node.returns, None
        self._strip_ann(node.args)
        self.generic_visit(node)
        node.decorator_list = decs
        body = node.body
        i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        body.insert(i, ast.Expr(mkcall("__sx_enter__", ast.Constant(q))))
        self.stack.pop()
        return node

    @staticmethod
    def _strip_ann(args):
        for a in args.posonlyargs + args.args + args.kwonlyargs + [args.vararg, args.kwarg]:
            if a is not None:
                a.annotation = None

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        body = []
        for x in node.body:
            r = self.visit(x)
            body += r if isinstance(r, list) else [] if r is None else [r]
        node.body = body
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target) if isinstance(node.target, ast.Attribute) else node.target
        return node

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        return ast.Call(func=name("__sx_call__"), args=[node.func] + node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return mkcall("__sx_get__", node.value, self._idx(node.slice))
        return node

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            c = lambda x: x if x is not None else ast.Constant(None)
            return mkcall("__sx_slice__", c(s.lower), c(s.upper), c(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple(elts=[self._idx(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            # evaluation order: value first, then container, then index
            return ast.Expr(mkcall("__sx_setv__", self.visit(node.value), self.visit(t.value), self._idx(self.visit(t.slice))))
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            t = node.target
            return ast.Expr(
                mkcall(
                    "__sx_aug__",
                    self.visit(t.value),
                    self._idx(self.visit(t.slice)),
                    ast.Constant(type(node.op).__name__),
                    self.visit(node.value),
                )
            )
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign(targets=[node.target], value=mkcall("__sx_mod__", name(node.target.id), node.value))
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(mkcall("__sx_del__", self.visit(t.value), self._idx(self.visit(t.slice)))))
            else:
                out.append(ast.Delete(targets=[self.visit(t)]))
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, l, r = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, ast.In):
            return mkcall("__sx_in__", l, r)
        if isinstance(op, ast.NotIn):
            return mkcall("__sx_nin__", l, r)
        isb = lambda x: isinstance(x, ast.Constant) and (x.value is True or x.value is False)
        if isinstance(op, ast.Is) and (isb(l) or isb(r)):
            return mkcall("__sx_is__", l, r)
        if isinstance(op, ast.IsNot) and (isb(l) or isb(r)):
            return mkcall("__sx_isn__", l, r)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return mkcall("__sx_mod__", node.left, node.right)
        if isinstance(node.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return mkcall("__sx_setop__", ast.Constant(type(node.op).__name__), node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: ast.Constant(None), 115: ast.Constant("s"), 114: ast.Constant("r"), 97: ast.Constant("a")}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return mkcall("__sx_fstr__", *parts)

    def visit_Set(self, node):
        self.generic_visit(node)
        return mkcall("__sx_mkset__", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return mkcall("__sx_mkset__", ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return mkcall(
            "__sx_mkdict__",
            ast.List(
                elts=[
                    ast.Tuple(elts=[k if k is not None else name("__sx_ss__"), v], ctx=ast.Load())
                    for k, v in zip(node.keys, node.values)
                ],
                ctx=ast.Load(),
            ),
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return mkcall(
            "__sx_mkdict__",
            ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators),
        )

    # -- statements
    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(mkcall("__sx_tick__")))
        return node

    visit_For = _loop
    visit_While = _loop

    def visit_Try(self, node):
        self.generic_visit(node)
        for i, h in enumerate(node.handlers):
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"):
                node.handlers.insert(
                    i, ast.ExceptHandler(type=name("__sx_Control__"), name=None, body=[ast.Raise(exc=None, cause=None)])
                )
                break
        return node


def transform(src, modname, path):
    tree = ast.parse(src, path)
    fut = [n for n in tree.body if isinstance(n, ast.ImportFrom) and n.module == "__future__"]
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        LOADED[fullname] = (path, hashlib.sha256(data).hexdigest())
        return transform(data, fullname, path)

    def exec_module(self, module):
        module.__dict__.update(RT)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in PREFIXES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else self.roots, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        spec.cached = None
        return spec


def install(roots, prefixes=("edk2toollib", "harness")):
    PREFIXES[:] = list(prefixes)
    models._install_optional()
    from . import values, regex, api

    for m in (values, regex, api, models):
        m.__dict__["__sx_pass__"] = True
    sys.meta_path.insert(0, Finder(list(roots)))


_STD = {}


def load_std_copy(modname):
    m = _STD.get(modname)
    if m is None:
        orig = sys.modules[modname]
        path = orig.__file__
        m = types.ModuleType("sxstd_" + modname)
        m.__dict__.update(RT)
        m.__file__ = path
        with open(path, "rb") as f:
            exec(transform(f.read(), "std." + modname, path), m.__dict__)
        _STD[modname] = m
    return m
