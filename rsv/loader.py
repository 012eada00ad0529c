"""Mechanical extraction: /repo sources are parsed, instrumented (loops, comprehensions, division, power) and executed on
symbolic objects.  Nothing is re-written by hand; what the instrumentation changes is listed in DESIGN.md."""
import ast
import builtins
import hashlib
import os
import sys
import types
from fractions import Fraction
from . import rt, ten, npshim
from .rt import RT, Unsupported, Sc, SB

SITE = "/opt/venv/lib/python3.12/site-packages"


class Target(ast.NodeVisitor):
    """names bound by a statement list (in this scope)"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)


def only_appended(stmts, others):
    """names whose only use in these statements is  name.append(expression)"""
    ok, bad, mine = [], set(), set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Name) and len(n.args) == 1 and not n.keywords:
                mine.add(id(n.func.value))
                if n.func.value.id not in ok:
                    ok.append(n.func.value.id)
    for s in list(stmts) + list(others):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and id(n) not in mine:
                bad.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                bad |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                bad |= set(n.names)
    return [x for x in ok if x not in bad]


def bound_names(stmts):
    t = Target()
    for s in stmts:
        t.visit(s)
    return t.names


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


def rsv(attr):
    return ast.Attribute(value=name("__rsv__"), attr=attr, ctx=ast.Load())


def attr(o, a):
    return ast.Attribute(value=name(o), attr=a, ctx=ast.Load())


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.loops = []     # stack of loop variable names (for break/continue/return)
        self.infunc = 0
        self.fname = ["<module>"]

    # ---- functions
    def _func(self, node):
        old, self.loops = self.loops, []
        self.infunc += 1
        self.fname.append(getattr(node, "name", "<lambda>"))
        node.body = self.body(node.body)
        if hasattr(node, "name"):
            k = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(k, ast.Expr(value=call(rsv("enter"), ast.Constant(value=self.mod + ":" + ".".join(self.fname[1:])))))
        if hasattr(node, "decorator_list"):
            node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.visit(node.args)
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.fname.pop()
        self.infunc -= 1
        self.loops = old
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_Lambda(self, node):
        old, self.loops = self.loops, []
        self.generic_visit(node)
        self.loops = old
        return node

    def visit_ClassDef(self, node):
        old, self.loops = self.loops, []
        f, self.infunc = self.infunc, 0
        self.fname.append(node.name)
        self.generic_visit(node)
        self.fname.pop()
        self.infunc = f
        self.loops = old
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out or [ast.Pass()]

    # ---- arithmetic
    def visit_BinOp(self, node):
        self.generic_visit(node)
        fn = {ast.Div: "div", ast.Pow: "pow", ast.FloorDiv: "fdiv", ast.Mod: "mod"}.get(type(node.op))
        if fn and not (fn == "mod" and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            return ast.copy_location(call(rsv(fn), node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        fn = {ast.Div: "idiv", ast.Pow: "ipow"}.get(type(node.op))
        if fn and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(targets=[name(node.target.id, ast.Store())], value=call(rsv(fn), name(node.target.id), node.value)), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        for t in node.targets:
            if isinstance(t, (ast.Tuple, ast.List)):
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if k:
                    node.value = ast.copy_location(call(rsv("star"), node.value, ast.Constant(k[0]), ast.Constant(len(t.elts) - 1 - k[0])), node.value)
                    t.elts[k[0]] = t.elts[k[0]].value
                    break
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass()
        return ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = call(rsv("contains"), node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        return node

    # ---- selection of the larger / smaller of two compared expressions
    @staticmethod
    def _selection(node):
        """(name, a, b) when the conditional expression is max(a, b) or min(a, b)"""
        c = node.test
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE))):
            return None
        a, b = c.left, c.comparators[0]
        d = [ast.dump(x).replace("ctx=Store()", "ctx=Load()") for x in (a, b, node.body, node.orelse)]
        if d[0] == d[1] or not (d[2:] == d[:2] or d[2:] == d[1::-1]) or any(isinstance(y, (ast.Call, ast.Await, ast.NamedExpr)) for x in (a, b) for y in ast.walk(x)):
            return None
        first = d[2] == d[0]
        return ("max" if isinstance(c.ops[0], (ast.Gt, ast.GtE)) == first else "min"), a, b

    def visit_IfExp(self, node):
        s = self._selection(node)
        self.generic_visit(node)
        if s is None:
            return node
        return ast.copy_location(call(rsv("select_" + s[0]), node.test.left, node.test.comparators[0]), node)

    def visit_If(self, node):
        b, o = node.body, node.orelse
        if len(b) == 1 and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1 and isinstance(b[0].targets[0], ast.Name):
            t = b[0].targets[0]
            if not o:
                other = name(t.id)
            elif len(o) == 1 and isinstance(o[0], ast.Assign) and len(o[0].targets) == 1 and isinstance(o[0].targets[0], ast.Name) and o[0].targets[0].id == t.id:
                other = o[0].value
            else:
                other = None
            if other is not None:
                e = ast.IfExp(test=node.test, body=b[0].value, orelse=other)
                if self._selection(e) is not None:
                    ast.copy_location(e, node)
                    ast.fix_missing_locations(e)
                    return ast.copy_location(ast.Assign(targets=[t], value=self.visit(e)), node)
        self.generic_visit(node)
        return node

    # ---- comprehensions
    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        elt = self._lam(g.target, node.elt)
        cond = ast.Constant(None)
        if g.ifs:
            cond = self._lam(g.target, g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs))
        return ast.copy_location(call(rsv("comp"), ast.Constant(kind), elt, g.iter, cond), node)

    def _lam(self, target, expr):
        if isinstance(target, ast.Name):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=expr)
        self.n += 1
        # nested tuple targets: lambda _t: (lambda a, b: expr)(*_t)
        args, inner = [], expr
        for k, e in enumerate(target.elts):
            if isinstance(e, ast.Name):
                args.append(e.id)
            else:
                self.n += 1
                nm = "__rsv_t%d" % self.n
                args.append(nm)
                inner = call(self._lam(e, inner), name(nm))
        f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]), body=inner)
        t = "__rsv_t%d" % self.n
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=t)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                          body=ast.Call(func=f, args=[ast.Starred(value=name(t), ctx=ast.Load())], keywords=[]))

    # ---- loops
    def _loop(self, node, is_for):
        if not self.infunc:
            self.generic_visit(node)
            return node
        self.n += 1
        L = "__rsv_L%d" % self.n
        lid = "%s:%s:%d" % (self.mod, self.fname[-1], self.n)
        names = bound_names(node.body + ([ast.Assign(targets=[node.target], value=ast.Constant(None))] if is_for else []))
        app = [x for x in only_appended(node.body, [node.test] if not is_for else []) if x not in names]
        names = names + app
        orelse = self.body(node.orelse) if node.orelse else []
        if is_for:
            it = self.visit(node.iter)
            target = node.target
        else:
            cond = self.visit(node.test)
        self.loops.append(L)
        body = self.body(node.body)
        self.loops.pop()
        pre = [ast.Assign(targets=[name(L, ast.Store())], value=call(rsv("loop"), ast.Constant(lid), ast.Tuple(elts=[ast.Constant(x) for x in names], ctx=ast.Load()),
                                                                    call(name("locals")), it if is_for else ast.Constant(None), ast.Constant(is_for),
                                                                    ast.Tuple(elts=[ast.Constant(x) for x in app], ctx=ast.Load())))]
        # while True:  head ; load state ; item / cond ; body ; tail
        inner = []
        inner.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=call(attr(L, "head"), call(name("locals")))), body=[ast.Break()], orelse=[]))
        for x in names:
            inner.append(ast.Assign(targets=[name(x, ast.Store())], value=call(attr(L, "get"), ast.Constant(x))))
            inner.append(ast.If(test=ast.Compare(left=name(x), ops=[ast.Is()], comparators=[rsv("UNBOUND")]), body=[ast.Delete(targets=[name(x, ast.Del())])], orelse=[]))
        inner.append(ast.If(test=attr(L, "leaving"), body=[ast.Break()], orelse=[]))
        leave = lambda kind: [ast.If(test=call(attr(L, "leave"), call(name("locals")), ast.Constant(kind)), body=[ast.Break()], orelse=[ast.Continue()])]
        tb = []
        if is_for:
            tb.append(ast.Assign(targets=[target], value=call(attr(L, "item"))))
        else:
            tb.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=call(attr(L, "cond"), cond)), body=leave("cond"), orelse=[]))
        tb += body
        tb.append(ast.Expr(value=call(attr(L, "tail"), call(name("locals")))))
        inner.append(ast.Try(body=tb, handlers=[ast.ExceptHandler(type=name("__rsv_Exception__"), name="__rsv_e", body=[
            ast.If(test=call(attr(L, "exc"), name("__rsv_e")), body=[ast.Raise(exc=None, cause=None)], orelse=[])])], orelse=[], finalbody=[]))
        w = ast.While(test=ast.Constant(True), body=inner, orelse=[])
        out = pre + [w]
        if orelse:
            out.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=attr(L, "broken")), body=orelse, orelse=[]))
        for s in out:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return out

    def visit_For(self, node):
        return self._loop(node, True)

    def visit_While(self, node):
        return self._loop(node, False)

    def visit_Break(self, node):
        if not self.loops:
            return node
        L = self.loops[-1]
        return ast.copy_location(ast.If(test=call(attr(L, "leave"), call(name("locals")), ast.Constant("break")), body=[ast.Break()], orelse=[ast.Continue()]), node)

    def visit_Continue(self, node):
        if not self.loops:
            return node
        return [ast.copy_location(ast.Expr(value=call(attr(self.loops[-1], "tail"), call(name("locals")))), node), ast.copy_location(ast.Continue(), node)]

    def visit_Return(self, node):
        self.generic_visit(node)
        if not self.loops:
            return node
        r = node
        # innermost to outermost: every enclosing loop must allow leaving
        test = call(attr(self.loops[-1], "leave"), call(name("locals")), ast.Constant("return"))
        if len(self.loops) > 1:
            test = call(rsv("leave_all"), ast.Tuple(elts=[name(x) for x in self.loops], ctx=ast.Load()), call(name("locals")))
        return ast.copy_location(ast.If(test=test, body=[r], orelse=[ast.Continue()]), node)


# ------------------------------------------------------------------ builtins seen by the code
class _TM(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __subclasscheck__(cls, c):
        return c is cls or (isinstance(c, type) and any(b is cls for b in getattr(c, "__mro__", ())))

    def __repr__(cls):
        return "<class '%s'>" % cls.rsv_name


class int_(metaclass=_TM):
    rsv_name = "int"
    _check = staticmethod(lambda x: isinstance(x, (int,)) or (isinstance(x, Sc) and x.kind == "int" and not x.np))
    _conv = staticmethod(lambda x=0, *a: int(x, *a) if a else rt.to_int(_unwrap(x)))


class float_(metaclass=_TM):
    rsv_name = "float"
    _check = staticmethod(lambda x: isinstance(x, (float, Fraction)) or (isinstance(x, Sc) and x.kind == "float"))

    @staticmethod
    def _conv(x=0.0):
        x = _unwrap(x)
        if isinstance(x, (Sc, Fraction)):
            if isinstance(x, Sc) and x.kind == "complex":
                raise TypeError("can't convert complex to float")
            return rt.mk(rt.nfof(x), "float", False)
        return float(x)


class complex_(metaclass=_TM):
    rsv_name = "complex"
    _check = staticmethod(lambda x: isinstance(x, complex) or (isinstance(x, Sc) and x.kind == "complex"))

    @staticmethod
    def _conv(x=0, y=0):
        x, y = _unwrap(x), _unwrap(y)
        if isinstance(x, Sc) or isinstance(y, Sc):
            return rt.mk(rt.nfof(x) + rt.N.mul(rt.const(1j), rt.nfof(y)), "complex", False)
        return complex(x, y) if y != 0 else complex(x)


class bool_(metaclass=_TM):
    rsv_name = "bool"
    _check = staticmethod(lambda x: isinstance(x, (bool, SB)))
    _conv = staticmethod(lambda x=False: x if isinstance(x, SB) else bool(x))


class str_(metaclass=_TM):
    rsv_name = "str"
    _check = staticmethod(lambda x: isinstance(x, str))
    _conv = staticmethod(lambda *a: str(*a))


def _unwrap(x):
    if isinstance(x, ten.Arr):
        return x.item()
    if isinstance(x, SB):
        return rt.mk(rt.nfof(x), "int")
    return x


def b_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, Sc):
        if x.np:
            return ten.KCLS[x.kind]
        return {"int": int_, "float": float_, "complex": complex_, "bool": bool_}[x.kind]
    if isinstance(x, (bool, SB)):
        return bool_
    if isinstance(x, int):
        return int_
    if isinstance(x, (float, Fraction)):
        return float_
    if isinstance(x, complex):
        return complex_
    if isinstance(x, str):
        return str_
    if isinstance(x, ten.SymSeq):
        return tuple if x.tup else list
    return type(x)


def b_len(x):
    if isinstance(x, ten.Arr):
        if not x.vshape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, ten.SymSeq):
        return rt.sint(x.n)
    f = getattr(type(x), "__len__", None)
    if f is not None and not isinstance(x, (list, tuple, dict, str, set, frozenset)):
        return f(x)
    return len(x)


class SymRange:
    def __init__(self, a, b):
        self.a, self.b = rt.toP(a), rt.toP(b)

    def seq(self):
        a = self.a
        return ten.SymSeq(self.b - self.a, lambda i: rt.sint(i + a))

    def __iter__(self):
        raise Unsupported("symbolic range iterated by native code")


def b_range(*a):
    ps = []
    for x in a:
        if isinstance(x, float) or (isinstance(x, Sc) and x.kind == "float"):
            raise TypeError("'float' object cannot be interpreted as an integer")
        p = rt.as_poly(x)
        if p is None:
            raise Unsupported("range of %r" % (x,))
        ps.append(p)
    if all(p.const() is not None for p in ps):
        return range(*[int(p.const()) for p in ps])
    if len(ps) == 1:
        ps = [rt.toP(0)] + ps
    if len(ps) == 3 and ps[2].const() != 1:
        raise Unsupported("symbolic range with a step")
    a, b = ps[0], ps[1]
    if not rt.PL.ge0(b - a):
        if not bool(rt.cmp_nf(rt.fromP(b - a), ">=")):
            return range(0)
    if rt.PL.same(a, b):
        return range(0)
    d = rt.PL.nrm(b - a).const()
    if d is not None:
        return [rt.sint(a + k) for k in range(int(d))]
    return SymRange(a, b)


def symseq(x):
    """symbolic-length sequence view of x, or None when x is iterated natively"""
    if isinstance(x, SymRange):
        return x.seq()
    if isinstance(x, ten.SymSeq):
        return x
    if isinstance(x, ten.Arr):
        if not x.vshape:
            raise TypeError("iteration over a 0-d array")
        if rt.PL.nrm(x.vshape[0]).const() is None:
            return ten.SymSeq(x.vshape[0], lambda i: x[rt.sint(i)])
        return None
    if hasattr(x, "rsv_seq"):
        return x.rsv_seq()
    return None


def b_enumerate(x, start=0):
    s = symseq(x)
    if s is None:
        return enumerate(list(x) if isinstance(x, ten.Arr) else x, start)
    return ten.SymSeq(s.n, lambda i: (rt.sint(i + rt.toP(start)), s.elem(i)))


def b_zip(*xs, **k):
    ss = [symseq(x) for x in xs]
    if all(s is None for s in ss):
        return zip(*xs, **k)
    if any(s is None for s in ss):
        # a concrete-length partner bounds the result
        raise Unsupported("zip of concrete and symbolic sequences")
    n = ss[0].n
    for s in ss[1:]:
        if not rt.PL.same(s.n, n):
            if rt.PL.ge0(s.n - n):
                continue
            if rt.PL.ge0(n - s.n):
                n = s.n
            elif bool(rt.cmp_nf(rt.fromP(s.n - n), ">=")):
                continue
            else:
                n = s.n
    return ten.SymSeq(n, lambda i: tuple(s.elem(i) for s in ss))


def b_list(x=()):
    s = symseq(x)
    if s is not None:
        return ten.SymSeq(s.n, s.fn)
    return list(x)


def b_tuple(x=()):
    s = symseq(x)
    if s is not None:
        return ten.SymSeq(s.n, s.fn, True)
    return tuple(x)


def b_sum(x, start=0):
    s = symseq(x)
    if s is not None:
        i = rt.PL.fresh(s.n, "i")
        e = s.elem(rt.toP(i))
        if isinstance(e, ten.Arr):
            f = e.formals()
            return start + ten.new(e.vshape, f, rt.N.nsum(e.at([rt.toP(v) for v in f]), i), e.kind)
        return start + rt.mk(rt.N.nsum(rt.nfof(e), i), rt.kind_of(e))
    r = start
    for v in x:
        r = r + v
    return r


def _minmax(nm):
    def f(*a, key=None, default=None):
        if len(a) == 1:
            s = symseq(a[0])
            if s is not None:
                raise Unsupported(nm + " of a symbolic sequence")
            a = list(a[0])
        if key is not None or not any(isinstance(x, (Sc, ten.Arr)) for x in a):
            return getattr(builtins, nm)(a, key=key) if key else getattr(builtins, nm)(a)
        r = a[0]
        for x in a[1:]:
            if rt.isinf(x) or rt.isinf(r):
                r = getattr(builtins, nm)(x, r) if rt.isnum(x) and rt.isnum(r) else _infmm(nm, x, r)
                continue
            rp, xp = rt.as_poly(r), rt.as_poly(x)
            if rp is not None and xp is not None:
                # python returns one of the arguments: fork on integer comparisons
                c = (x > r) if nm == "max" else (x < r)
                r = x if c else r
                continue
            k = rt.join(rt.kind_of(r), rt.kind_of(x))
            r = rt.mk(rt.N.mk_fn(nm, [rt.nfof(r), rt.nfof(x)]), k)
        return r
    return f


def _infmm(nm, x, r):
    a, b = (x, r) if rt.isinf(x) else (r, x)
    if (a > 0) == (nm == "max"):
        return a
    return b


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if isinstance(x, Sc):
        if n is not None:
            raise Unsupported("round to digits")
        return rt.to_int(x, "round")
    return round(x) if n is None else round(x, n)


def b_all(x):
    s = symseq(x)
    if s is not None:
        raise Unsupported("all() of a symbolic sequence")
    if isinstance(x, (list, tuple)):
        return rt.sb_and(list(x)) if any(isinstance(v, SB) for v in x) else all(x)
    return all(x)


def b_any(x):
    s = symseq(x)
    if s is not None:
        raise Unsupported("any() of a symbolic sequence")
    if isinstance(x, (list, tuple)):
        return rt.sb_or(list(x)) if any(isinstance(v, SB) for v in x) else any(x)
    return any(x)


def b_reversed(x):
    s = symseq(x)
    if s is not None:
        return ten.SymSeq(s.n, lambda i: s.elem(s.n - 1 - i))
    return reversed(list(x) if isinstance(x, ten.Arr) else x)


def b_map(f, *xs):
    ss = [symseq(x) for x in xs]
    if any(s is not None for s in ss):
        z = b_zip(*xs)
        return ten.SymSeq(z.n, lambda i: f(*z.elem(i)))
    return map(f, *xs)


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(x, c) for c in cls)
    if isinstance(x, ten.SymSeq) and cls in (list, tuple, b_list, b_tuple):
        return cls is (tuple if x.tup else list) or cls is (b_tuple if x.tup else b_list)
    if cls is b_list:
        cls = list
    elif cls is b_tuple:
        cls = tuple
    return isinstance(x, cls)


class SymIter:
    """iterator over a symbolic sequence, consumed one element at a time or by one loop"""

    def __init__(self, s):
        self.s, self.pos = s, 0

    def rsv_seq(self):
        r = self.s if self.pos == 0 else self.s[self.pos:]
        self.s, self.pos = ten.SymSeq(0, self.s.fn), 0
        return r

    def __iter__(self):
        raise Unsupported("iterator over a symbolic sequence used by native code")

    def __next__(self):
        left = self.s.n - self.pos
        if rt.PL.ge0(left - 1) or bool(rt.cmp_nf(rt.fromP(left - 1), ">=")):
            self.pos += 1
            return self.s.elem(rt.toP(self.pos - 1))
        raise StopIteration


def b_iter(x, *a):
    if isinstance(x, SymIter):
        return x
    s = symseq(x)
    if s is not None:
        return SymIter(s)
    return iter(x, *a)


def b_sorted(x, **k):
    if symseq(x) is not None:
        raise Unsupported("sorted() of a symbolic sequence")
    return sorted(x, **k)


def b_divmod(a, b):
    return RSV.fdiv(a, b), RSV.mod(a, b)


def b_pow(a, b, *m):
    return RSV.pow(a, b)


class _LM(type):
    """list / tuple: keep the real class (type(x) in [list, tuple]) but accept symbolic sequences on call"""


# ------------------------------------------------------------------ runtime entry points used by instrumented code
def _pynum(x):
    return rt.isnum(x) and not isinstance(x, bool)


class RSVns:
    @staticmethod
    def star(v, before, after):
        s = symseq(v)
        if s is None:
            v = list(v)
            k = len(v) - after
            if k < before:
                raise ValueError("not enough values to unpack")
            return v[:before] + [v[before:k]] + v[k:]
        k = before + after
        left = s.n - k
        if not (rt.PL.ge0(left) or bool(rt.cmp_nf(rt.fromP(left), ">="))):
            raise ValueError("not enough values to unpack")
        head = [s.elem(rt.toP(i)) for i in range(before)]
        mid = ten.SymSeq(left, lambda i: s.fn(i + before))
        tail = [s.elem(s.n - after + i) for i in range(after)]
        return head + [mid] + tail

    from .loops import UNBOUND, loop, leave_all
    loop = staticmethod(loop)
    leave_all = staticmethod(leave_all)

    @staticmethod
    def select_max(a, b):
        """a if a >= b else b"""
        return RSVns._select("max", a, b)

    @staticmethod
    def select_min(a, b):
        return RSVns._select("min", a, b)

    @staticmethod
    def _select(nm, a, b):
        if any(isinstance(x, Sc) or isinstance(x, ten.Arr) and x.ndim == 0 for x in (a, b)) and all(isinstance(x, Sc) or rt.isnum(x) or isinstance(x, ten.Arr) and x.ndim == 0 for x in (a, b)):
            return _minmax(nm)(a, b)
        return (a if a >= b else b) if nm == "max" else (a if a <= b else b)

    entered = {}

    @staticmethod
    def enter(nm):
        RSVns.entered[nm] = RSVns.entered.get(nm, 0) + 1

    @staticmethod
    def div(a, b):
        if (rt.isnum(a) or isinstance(a, bool)) and (rt.isnum(b) or isinstance(b, bool)):
            if isinstance(a, complex) or isinstance(b, complex) or rt.isinf(a) or rt.isinf(b):
                return a / b
            if b == 0:
                raise ZeroDivisionError("division by zero")
            return rt.mk(rt.const(_frac(a) / _frac(b)), "float", False)
        return a / b

    @staticmethod
    def idiv(a, b):
        if isinstance(a, (ten.Arr,)):
            a /= b
            return a
        return RSVns.div(a, b)

    @staticmethod
    def pow(a, b):
        if (rt.isnum(a) or isinstance(a, bool)) and (rt.isnum(b) or isinstance(b, bool)):
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
            return rt.power(a, b)
        return a ** b

    @staticmethod
    def ipow(a, b):
        if isinstance(a, ten.Arr):
            a **= b
            return a
        return RSVns.pow(a, b)

    @staticmethod
    def fdiv(a, b):
        if isinstance(a, Sc) or isinstance(b, Sc):
            return rt.floordiv(a, b)
        return a // b

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            return a
        if isinstance(a, Sc) or isinstance(b, Sc):
            return rt.modulo(a, b)
        return a % b

    @staticmethod
    def contains(x, ys):
        if isinstance(ys, (list, tuple, set, frozenset)):
            for y in ys:
                r = (x is y) or (x == y)
                if isinstance(r, ten.Arr):
                    r = bool(r)
                if r:
                    return True
            return False
        if symseq(ys) is not None:
            raise Unsupported("membership in a symbolic sequence")
        return x in ys

    @staticmethod
    def comp(kind, elt, it, cond):
        s = symseq(it)
        if s is None:
            out = []
            if kind == "gen":
                def g():
                    for x in it:
                        if cond is None or cond(x):
                            yield elt(x)
                return g()
            for x in it:
                if cond is None or cond(x):
                    out.append(elt(x))
            return out
        if cond is not None:
            raise Unsupported("filtered comprehension over a symbolic sequence")
        return ten.SymSeq(s.n, lambda i: elt(s.elem(i)))


def _frac(x):
    if isinstance(x, float):
        return Fraction(repr(x))
    return Fraction(x)


RSV = RSVns()


# ------------------------------------------------------------------ modules
class Loader:
    def __init__(self, repo="/repo"):
        self.repo = repo
        self.mods = {}
        self.files = {}
        from . import shims
        self.shims = shims
        b = dict(builtins.__dict__)
        b.update(len=b_len, range=b_range, int=int_, float=float_, complex=complex_, bool=bool_, str=str_, type=b_type, enumerate=b_enumerate, zip=b_zip, sum=b_sum,
                 max=_minmax("max"), min=_minmax("min"), abs=b_abs, round=b_round, all=b_all, any=b_any, reversed=b_reversed, map=b_map, isinstance=b_isinstance,
                 iter=b_iter, sorted=b_sorted, divmod=b_divmod, pow=b_pow, print=lambda *a, **k: None)
        b["__import__"] = self.imp
        b["__rsv__"] = RSV
        b["__rsv_Exception__"] = Exception
        self.builtins = b

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[:len(pkg) - (level - 1)]
            nm = ".".join(base + ([nm] if nm else []))
        m = self.module(nm)
        if fromlist:
            for f in fromlist:
                if not hasattr_(m, f):
                    try:
                        setattr(m, f, self.module(nm + "." + f))
                    except ImportError:
                        raise ImportError("cannot import name %r from %r" % (f, nm))
            return m
        # import a.b.c binds a
        parts = nm.split(".")
        for k in range(1, len(parts)):
            par, ch = self.module(".".join(parts[:k])), self.module(".".join(parts[:k + 1]))
            if not hasattr_(par, parts[k]):
                setattr(par, parts[k], ch)
        return self.module(parts[0])

    def module(self, nm):
        if nm in self.mods:
            return self.mods[nm]
        sh = self.shims.get(nm, self)
        if sh is not None:
            self.mods[nm] = sh
            return sh
        if nm.split(".")[0] == "robuststats":
            return self.load(nm, os.path.join(self.repo, *nm.split(".")))
        real = self.shims.REAL.get(nm)
        if real:
            return self.load(nm, os.path.join(SITE, real))
        if nm in self.shims.STDLIB:
            import importlib
            m = importlib.import_module(nm)
            self.mods[nm] = m
            return m
        raise Unsupported("import of %s has no contract" % nm)

    def load(self, nm, path):
        if os.path.isdir(path):
            pkg, f = nm, os.path.join(path, "__init__.py")
        else:
            pkg, f = nm.rsplit(".", 1)[0] if "." in nm else nm, path if path.endswith(".py") else path + ".py"
        if not os.path.exists(f):
            raise ImportError("No module named %r" % nm)
        par = None
        if "." in nm and nm.split(".")[0] == "robuststats":
            par = self.module(nm.rsplit(".", 1)[0])
            if nm in self.mods:
                return self.mods[nm]
        src = open(f, encoding="utf-8").read()
        self.files[f] = hashlib.sha256(src.encode()).hexdigest()
        m = types.ModuleType(nm)
        m.__dict__["__package__"] = pkg
        m.__dict__["__file__"] = f
        m.__dict__["__builtins__"] = self.builtins
        self.mods[nm] = m
        try:
            code = self.compile(src, f, nm)
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(nm, None)
            raise
        if par is not None:
            setattr(par, nm.rsplit(".", 1)[1], m)
        return m

    def compile(self, src, f, nm):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src)
        tree = Instr(nm).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, f, "exec")

    def exec_classes(self, file, names, ns, drop=()):
        """execute only the named top-level definitions of an installed third-party file"""
        src = open(file, encoding="utf-8").read()
        self.files[file] = hashlib.sha256(src.encode()).hexdigest()
        tree = ast.parse(src)
        body = [n for n in tree.body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name in names]
        tree = ast.Module(body=body, type_ignores=[])
        tree = Instr(os.path.basename(file)).visit(tree)
        ast.fix_missing_locations(tree)
        ns["__builtins__"] = self.builtins
        exec(compile(tree, file, "exec"), ns)
        return ns


def hasattr_(m, f):
    try:
        getattr(m, f)
        return True
    except AttributeError:
        return False
    except Unsupported:
        return True
