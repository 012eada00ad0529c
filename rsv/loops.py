"""Loop cutting: every loop with a symbolic number of iterations is replaced by
   entry state  ->  havoc to the inferred invariant  ->  one arbitrary iteration (preservation)  ->  exit state.
Invariants are inferred (last value / accumulated sum / filled slices / counter / orbit of a contract step) and then proved
inductive: the entry iteration and an arbitrary iteration must both re-establish them."""
from fractions import Fraction
from . import poly as PL
from . import nf as N
from .nf import const, fromP, mul
from .poly import toP, fresh, same, Dim, IV, P
from . import rt, ten
from .rt import RT, Unsupported, StopPath, Sc, SB, nfof, sint
from .ten import Arr, SymSeq, Cell

F = Fraction


class _Unb:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unb()


# ------------------------------------------------------------------ what an expression mentions
_ment = {}


def mentions(n):
    """names of atoms, matrices and dimensions occurring in an NF"""
    r = _ment.get(n.key)
    if r is None:
        r = set()
        for T in n.t:
            for b in T.bounds:
                _mp(b.size, r)
            for f, e in T.facs:
                _mf(f, r)
                if isinstance(e, N.NF):
                    r |= mentions(e)
        r = _ment[n.key] = frozenset(r)
    return r


def _mp(p, r):
    for v in p.vars():
        _mv(v, r)


def _mv(v, r):
    if isinstance(v, Dim):
        r.add(v.name)
    elif isinstance(v, IV):
        r.add(v.key)
        _mp(v.size, r)
    elif hasattr(v, "args"):
        for a in v.args:
            if isinstance(a, P):
                _mp(a, r)


def _mm(M, r):
    if isinstance(M, N.MSym):
        r.add(M.name)
        for p in M.params:
            _mx(p, r)
        _mp(M.size, r)
    else:
        _mp(M.size, r)
        r |= mentions(M.nf)


def _mx(x, r):
    if isinstance(x, P):
        _mp(x, r)
    elif isinstance(x, N.NF):
        r |= mentions(x)
    elif isinstance(x, (N.MSym, N.MLam)):
        _mm(x, r)
    elif isinstance(x, N.ALam):
        for q in x.shape:
            _mp(q, r)
        r |= mentions(x.nf)


def _mf(f, r):
    for s in _slots(type(f)):
        x = getattr(f, s, None)
        if s == "name" and isinstance(f, N.At):
            r.add(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                _mx(y, r)
        elif isinstance(x, PL.V):
            _mv(x, r)
        else:
            _mx(x, r)


_sl = {}


def _slots(c):
    r = _sl.get(c)
    if r is None:
        r = []
        for k in c.__mro__:
            r += list(getattr(k, "__slots__", ()))
        _sl[c] = r = [s for s in r if s not in ("key", "fv", "_h", "level")]
    return r


def sb_mentions(b):
    if isinstance(b, bool):
        return frozenset()
    if b.kind == "cmp":
        return mentions(b.args[1])
    if b.kind == "not":
        return sb_mentions(b.args)
    if b.kind in ("and", "or"):
        r = frozenset()
        for x in b.args:
            r |= sb_mentions(x)
        return r
    if b.kind == "tok" and isinstance(b.args, tuple):
        r = frozenset()
        for x in b.args[1:]:
            if isinstance(x, Arr):
                r |= mentions(x.body())
        return r
    return frozenset()


# ------------------------------------------------------------------ values
def leaf(v):
    """structure of a value: numeric leaves are compared by normal form, other objects by identity"""
    if isinstance(v, Arr):
        f = v.formals()
        return ("arr", list(v.vshape), f, v.at([toP(x) for x in f]), v.kind, v.cell.dt)
    if isinstance(v, Sc):
        return ("sc", v.nf, v.kind, v.np)
    if isinstance(v, SB):
        return ("sb", v)
    if isinstance(v, bool) or v is None:
        return ("obj", v)
    if rt.isnum(v):
        if rt.isinf(v) or v != v:
            return ("obj", v)
        return ("sc", const(v), rt.kind_of(v), False)
    if type(v) in (tuple, list):
        return (type(v).__name__, [leaf(x) for x in v])
    return ("obj", v)


def unleaf(l):
    if l is UNBOUND:
        return UNBOUND
    t = l[0]
    if t == "arr":
        return ten.new(l[1], l[2], l[3], l[4], l[5])
    if t == "sc":
        c = l[1].const()
        if c is not None and l[2] == "int" and not l[3] and c[1] == 0 and F(c[0]).denominator == 1:
            return int(c[0])
        if not l[3] and l[2] == "int":
            p = N.topoly(l[1])
            if p is not None:
                return sint(p)
        return Sc(l[1], l[2], l[3])
    if t == "sb":
        return l[1]
    if t == "list":
        return [unleaf(x) for x in l[1]]
    if t == "tuple":
        return tuple(unleaf(x) for x in l[1])
    return l[1]


def flat(l, path=()):
    if l is UNBOUND:
        yield path, UNBOUND
    elif l[0] in ("list", "tuple"):
        for k, x in enumerate(l[1]):
            yield from flat(x, path + (k,))
    else:
        yield path, l


def rebuild(l, fn, path=()):
    if l is not UNBOUND and l[0] in ("list", "tuple"):
        return (l[0], [rebuild(x, fn, path + (k,)) for k, x in enumerate(l[1])])
    return fn(path, l)


def same_leaf(a, b):
    if a is UNBOUND or b is UNBOUND:
        return a is b
    if a[0] != b[0]:
        return False
    if a[0] == "arr":
        if len(a[1]) != len(b[1]) or not all(same(x, y) for x, y in zip(a[1], b[1])):
            return False
        if a[4] != b[4]:
            return False
        return rt.prove_eq(a[3], b[3].sub({v: toP(w) for v, w in zip(b[2], a[2])}))
    if a[0] == "sc":
        return rt.prove_eq(a[1], b[1])
    if a[0] == "sb":
        return a[1].key == b[1].key
    if a[0] in ("list", "tuple"):
        return len(a[1]) == len(b[1]) and all(same_leaf(x, y) for x, y in zip(a[1], b[1]))
    x, y = a[1], b[1]
    if x is y:
        return True
    if isinstance(x, (str, int, float, bool, type(None))) and type(x) is type(y):
        return x == y
    return False


def lmentions(l):
    r = frozenset()
    for _, x in flat(l):
        if x is UNBOUND:
            continue
        if x[0] == "arr":
            r |= mentions(x[3])
            s = set()
            for q in x[1]:
                _mp(q, s)
            r |= s
        elif x[0] == "sc":
            r |= mentions(x[1])
        elif x[0] == "sb":
            r |= sb_mentions(x[1])
    return r


def lsub(l, mp):
    def f(p, x):
        if x is UNBOUND:
            return x
        if x[0] == "arr":
            sh = [s.sub(mp) for s in x[1]]
            nix = [fresh(s, "i") for s in sh]
            m2 = dict(mp)
            m2.update({v: toP(w) for v, w in zip(x[2], nix)})
            return ("arr", sh, nix, x[3].sub(m2), x[4], x[5])
        if x[0] == "sc":
            return ("sc", x[1].sub(mp), x[2], x[3])
        if x[0] == "sb":
            raise Unsupported("symbolic boolean carried by a loop")
        return x
    return rebuild(l, f)


# ------------------------------------------------------------------ orbits supplied by contracts
class Orbit:
    """state sequence x_{k+1} = step(x_k): comps = [(name, size, kind, real, init_entry_fn)]"""

    def __init__(self, comps, step, forms=None, loop=None):
        self.comps, self.step, self.loop = comps, step, loop
        self.used = False

    def mats(self, k):
        return [N.MSym(nm, size, (toP(k),), kind, real) for nm, size, kind, real, init in self.comps]

    def init_mats(self):
        out = []
        for nm, size, kind, real, init in self.comps:
            r, c = fresh(toP(size), "i"), fresh(toP(size), "i")
            out.append(N.mat_from(init(toP(r), toP(c)), r, c, toP(size)))
        return out

    def stepped(self, mats):
        es = self.step([m.at for m in mats])
        out = []
        for (nm, size, kind, real, init), e in zip(self.comps, es):
            r, c = fresh(toP(size), "i"), fresh(toP(size), "i")
            out.append(N.mat_from(e(toP(r), toP(c)), r, c, toP(size)))
        return out


class ArrOrbit:
    """state sequence of arrays x_{k+1} = step(k, x_k); comps = [(name, shape, kind, init_fn)], held as one array
    (struct None) or as a list or tuple of arrays"""
    arr = True

    def __init__(self, comps, step, struct=None, loop=""):
        self.comps = [(c[0], [toP(s) for s in c[1]], c[2], c[3]) for c in comps]
        self.hpd = [len(c) > 4 and c[4] for c in comps]
        self.step, self.struct, self.loop, self.used = step, struct, loop, False

    def fns(self, k):
        return [N.MSym(nm, sh[0], (toP(k),), "hpd", kind == "float").at if hp else (lambda nm, kind: lambda *ix: N.nfac(N.At(nm, ix, False, kind != "complex", False, (toP(k),))))(nm, kind) for (nm, sh, kind, init), hp in zip(self.comps, self.hpd)]

    def leaves(self, fns):
        out = []
        for (nm, sh, kind, init), f in zip(self.comps, fns):
            ix = [fresh(s, "i") for s in sh]
            out.append(("arr", list(sh), ix, f(*[toP(v) for v in ix]), kind, None))
        return out[0] if self.struct is None else (self.struct, out)

    def init(self):
        return [c[3] for c in self.comps]

    def like(self, l, ref):
        """leaf l with the storage attributes of ref"""
        if self.struct is None:
            return l[:5] + (ref[5],)
        return (l[0], [a[:5] + (b[5],) for a, b in zip(l[1], ref[1])])

    def same_shape(self, l):
        if l is None or l is UNBOUND:
            return False
        if self.struct is not None:
            if l[0] != self.struct or len(l[1]) != len(self.comps):
                return False
            ls = l[1]
        else:
            ls = [l]
        return all(a is not UNBOUND and a[0] == "arr" and len(a[1]) == len(c[1]) and all(same(x, y) for x, y in zip(a[1], c[1])) for a, c in zip(ls, self.comps))


FORMS = [("id", None), ("inv", -1), ("sqrt", F(1, 2)), ("isqrt", F(-1, 2)), ("conj", "conj")]


def form_entry(form, M, i, j):
    if form is None:
        return M.at(i, j)
    if form == "conj":
        return N.conj(M.at(i, j))
    return N.mk_sp(N.npow(N.LAM, form), M, i, j)


def form_leaf(l, form, M):
    """leaf like l with entries form(M)"""
    return ("arr", l[1], l[2], form_entry(form, M, toP(l[2][0]), toP(l[2][1])), l[4], l[5])


# ------------------------------------------------------------------ local exploration
class Local:
    def __init__(self, prefix, marks, loop):
        self.prefix, self.marks, self.loop = list(prefix), marks, loop
        self.taken, self.pending = [], []


def dims_only(b):
    """condition on dimensions alone (the same on every iteration)"""
    while b.kind == "not":
        b = b.args
    if b.kind != "cmp":
        return False
    p = N.topoly(b.args[1])
    return p is not None and all(isinstance(v, Dim) for v in p.vars())


def local_for(ment, b=None):
    for L in reversed(RT.locs):
        if isinstance(L.marks, _Every) and b is not None and dims_only(b):
            continue
        if ment is None or ment & L.marks:
            return L
    return None


_orig_branch = rt.Runtime.branch
_orig_choose = rt.Runtime.choose


def _branch(self, b):
    if isinstance(b, bool):
        return b
    L = local_for(sb_mentions(b), b) if self.locs else None
    if L is None:
        return _orig_branch(self, b)
    for f in self.facts:
        if f.key == b.key:
            return True
        if f.kind == "not" and f.args.key == b.key:
            return False
        if b.kind == "not" and b.args.key == f.key:
            return False
    n = len(L.taken)
    if n < len(L.prefix):
        v = L.prefix[n]
    else:
        t, f = self.feasible(b), self.feasible(rt.sb_not(b))
        if not t and not f:
            raise StopPath()
        v = t
        if t and f:
            L.pending.append(L.taken + [False])
            v = True
    L.taken.append(v)
    if len(L.taken) > 60:
        raise Unsupported("too many branches in a loop body")
    ff = b if v else rt.sb_not(b)
    self.facts.append(ff)
    L.loop.lfacts.append(ff)
    self._learn(ff)
    return v


def _choose(self, n, label):
    if not self.locs:
        return _orig_choose(self, n, label)
    L = self.locs[-1]
    k = len(L.taken)
    if k < len(L.prefix):
        v = L.prefix[k]
    else:
        v = 0
        for j in range(1, n):
            L.pending.append(L.taken + [j])
    L.taken.append(v)
    return v


rt.Runtime.branch = _branch
rt.Runtime.choose = _choose


# ------------------------------------------------------------------ reachable mutable objects
SKIP = (type, type(leaf), type(rt), str, int, float, complex, bool, type(None), Sc, SB, Arr, Cell, N.NF, P)


def ge_form(f):
    """a comparison of index polynomials as a polynomial that is >= 0, or None"""
    neg = isinstance(f, SB) and f.kind == "not"
    if neg:
        f = f.args
    if not isinstance(f, SB) or f.kind != "cmp" or f.args[0] not in (">", ">="):
        return None
    p = N.topoly(f.args[1])
    if p is None or any(isinstance(v, IV) or any(Fraction(c).denominator != 1 for c in p.t.values()) for v in p.vars()):
        return None
    if f.args[0] == ">":
        return -p if neg else p - 1
    return -p - 1 if neg else p


def reach(vals, depth=5):
    seen = {}
    st = [(v, 0) for v in vals]
    while st:
        v, d = st.pop()
        if isinstance(v, SKIP) or id(v) in seen or d > depth or isinstance(v, (Loop, Run, SymSeq)):
            continue
        if isinstance(v, (list, tuple)):
            if isinstance(v, list):
                seen[id(v)] = v
            if len(v) < 200:
                st += [(x, d + 1) for x in v]
            if not hasattr(v, "__dict__"):
                continue
        if isinstance(v, dict):
            seen[id(v)] = v
            st += [(x, d + 1) for x in v.values()]
            continue
        dd = getattr(v, "__dict__", None)
        if isinstance(dd, dict) and not getattr(v, "_rsv_opaque", False):
            seen[id(v)] = v
            st += [(x, d + 1) for x in dd.values()]
    return seen


def closure(f, depth=4):
    """objects a function holds in its closure, its instance or its wrapped function"""
    r = []
    if depth == 0:
        return r
    for c in getattr(f, "__closure__", None) or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        r.append(v)
        if callable(v) and not isinstance(v, type):
            r += closure(v, depth - 1)
    for a in ("__self__", "__wrapped__", "func"):
        v = getattr(f, a, None)
        if v is not None and not isinstance(v, type):
            r.append(v)
            if callable(v):
                r += closure(v, depth - 1)
    return r


def snap_obj(o):
    if type(o) is dict:
        return dict(o)
    if isinstance(o, list) and not getattr(o, "__dict__", None):
        return list(o)
    return dict(o.__dict__)


def restore_obj(o, s):
    if type(o) is dict:
        o.clear()
        o.update(s)
    elif isinstance(s, list):
        o[:] = s
    else:
        o.__dict__.clear()
        o.__dict__.update(s)


# ------------------------------------------------------------------ the loop object
def loop(lid, names, loc, it, is_for, app=()):
    return Loop(lid, names, loc, it, is_for, app)


def leave_all(loops, loc):
    r = True
    for L in reversed(loops):
        if not L.leave(loc, "return"):
            r = False
            break
    return r


class Run:
    def __init__(self, state, item):
        self.state, self.item = state, item


class Loop:
    def __init__(self, lid, names, loc, it, is_for, app=()):
        from .loader import symseq
        self.lid, self.names, self.is_for = lid, names, is_for
        self.app = set(app)
        self.leaving = self.broken = False
        self.native = False
        self.vals = {}
        self.count = 0
        self.lfacts = []
        self.mode = None
        self.outcome = None
        self.seq = None
        if is_for:
            s = symseq(it)
            if s is None:
                self.native = True
                self.iter = iter(it)
            else:
                self.seq = s
                if PL.ge0(s.n - 1):
                    self.nz = True
                else:
                    self.nz = bool(rt.cmp_nf(fromP(s.n - 1), ">="))
                if not self.nz:
                    self.native = True
                    self.iter = iter(())
        self.co = None if self.native else self.control()

    # ------------------------------------------------ protocol called by instrumented code
    def head(self, loc):
        loc = {k: v for k, v in loc.items() if not k.startswith("__rsv")}
        if self.native:
            if self.is_for:
                try:
                    self.cur = next(self.iter)
                except StopIteration:
                    return False
            self.count += 1
            if self.count > 400:
                raise Unsupported("loop %s does not terminate within 400 concrete iterations" % self.lid)
            self.vals = {n: loc.get(n, UNBOUND) for n in self.names}
            return True
        try:
            if self.mode is None:
                self.loc0 = loc
                cmd = next(self.co)
            else:
                if self.outcome is None:
                    raise Unsupported("loop protocol")
                o, self.outcome = self.outcome, None
                cmd = self.co.send(o)
        except StopIteration:
            raise Unsupported("loop control")
        if isinstance(cmd, Run):
            self.vals = cmd.state
            self.cur = cmd.item
            return True
        if cmd == "native":
            self.native = True
            return self.head({**loc, **{n: v for n, v in self.vals.items() if v is not UNBOUND}})
        # exit with state
        self.leaving = True
        self.vals = cmd[1]
        return True

    def get(self, n):
        return self.vals.get(n, UNBOUND)

    def item(self):
        return self.cur

    def cond(self, c):
        if self.mode == "infer" or self.mode == "real":
            self.condval = c
        return c

    def tail(self, loc):
        if self.native:
            return
        self.outcome = ("tail", {k: v for k, v in loc.items() if not k.startswith("__rsv")})
        if self.mode == "real":
            if RT.on_continue:
                RT.on_continue(self, self.kcur)
            raise StopPath()

    def leave(self, loc, kind):
        if self.native:
            self.broken = kind != "cond"
            return True
        if self.mode == "real":
            self.broken = kind != "cond"
            self.close()
            RT.exits.append((self.lid, self.kcur, kind))
            return True
        self.outcome = ("leave", kind)
        return False

    def exc(self, e):
        if self.native:
            return True
        if isinstance(e, NameError) and self.mode == "infer":
            raise Unsupported("loop %s: a value with no inferred invariant is used (%s)" % (self.lid, e))
        if self.mode == "real":
            self.close()
            RT.exits.append((self.lid, self.kcur, "exc"))
            return True
        self.outcome = ("exc", e)
        return False

    def close(self):
        if self in RT.loopstack:
            RT.loopstack.remove(self)

    def note_write(self, cell):
        if cell.id <= self.cell0 or cell.id in self.havoc:
            if cell.id in self.havoc:
                raise Unsupported("in-place update of an array that the loop also rebinds")
            self.writes.setdefault(cell.id, (cell, cell.body))

    # ------------------------------------------------ body runs
    def begin(self):
        self.cell0 = ten._cell_n[0]
        self.havoc = set()
        self.objs = reach(list(self.loc0.values()))
        self.objs = {i: o for i, o in self.objs.items() if not isinstance(o, (Loop, Run))}
        self.osnap = {i: snap_obj(o) for i, o in self.objs.items()}
        # plain lists that the body only appends to, not reachable in any other way
        self.lists = {}
        for n in self.names:
            v = self.loc0.get(n)
            if n in self.app and type(v) is list:
                held = sum(1 for i, s in self.osnap.items() for x in (s if isinstance(s, list) else s.values()) if x is v)
                if held == 0 and sum(1 for x in self.loc0.values() if x is v) == 1:
                    self.lists[id(v)] = n
        self.writes = {}
        from . import npshim
        self.rng0 = npshim._rng().state()

    def restore(self):
        RT.rng.set(self.rng0)
        for cell, body in self.writes.values():
            cell.body = body
        for i, o in self.objs.items():
            restore_obj(o, self.osnap[i])

    def apply(self, state):
        """state: loc -> leaf; returns the local values"""
        vals = {n: self.loc0.get(n, UNBOUND) for n in self.names}
        self.havoc = set()
        for loc, l in state.items():
            if loc[0] == "c":
                cell = loc[1]
                self.writes.setdefault(cell.id, (cell, cell.body))
                cell.body = l[3].sub({v: toP(w) for v, w in zip(l[2], cell.ix)})
                continue
            if loc[0] == "g":
                if l[0] == "grown":
                    vals[self.lists[loc[1]]] = l[1]
                continue
            v = unleaf(l)
            for x in (v if isinstance(v, (list, tuple)) else [v]):
                if isinstance(x, Arr):
                    self.havoc.add(x.cell.id)
            if loc[0] == "v":
                vals[loc[1]] = v
            elif loc[0] == "a":
                o = self.objs[loc[1]]
                d = o if type(o) is dict else o.__dict__
                if v is UNBOUND:
                    d.pop(loc[2], None)
                else:
                    d[loc[2]] = v
            elif loc[0] == "l":
                o = self.objs[loc[1]]
                o[loc[2]] = v
        return vals

    def post(self, loc):
        """modified locations after a body run"""
        out = {}
        for n in self.names:
            v = loc.get(n, UNBOUND)
            if n in self.app and id(v) in self.lists:
                continue
            out[("v", n)] = leaf(v) if v is not UNBOUND else UNBOUND
            if not (isinstance(v, Arr) and v is self.loc0.get(n) and v.cell.id <= self.cell0):
                self.rebound.add(n)
        for cid, (cell, body) in self.writes.items():
            if cid <= self.cell0:
                f = [fresh(s, "i") for s in cell.shape]
                out[("c", cell)] = ("arr", list(cell.shape), f, cell.at([toP(x) for x in f]), cell.kind, cell.dt)
        for i, o in self.objs.items():
            s = self.osnap[i]
            if isinstance(s, list):
                if i in self.lists:
                    out[("g", i)] = ("list", [leaf(x) for x in o[len(s):]])
                    continue
                if len(o) != len(s):
                    raise Unsupported("list of changing length carried by a loop")
                for k, (x, y) in enumerate(zip(s, o)):
                    if x is not y or i in self.touched:
                        out[("l", i, k)] = leaf(y)
            else:
                d = o if type(o) is dict else o.__dict__
                for k in set(s) | set(d):
                    if s.get(k, UNBOUND) is not d.get(k, UNBOUND) or (i, k) in self.touched:
                        v = d.get(k, UNBOUND)
                        out[("a", i, k)] = leaf(v) if v is not UNBOUND else UNBOUND
        return out

    def entry_leaf(self, loc):
        if loc[0] == "v":
            v = self.loc0.get(loc[1], UNBOUND)
            return leaf(v) if v is not UNBOUND else UNBOUND
        if loc[0] == "c":
            cell = loc[1]
            body = self.writes[cell.id][1] if cell.id in self.writes else cell.body
            f = [fresh(s, "i") for s in cell.shape]
            return ("arr", list(cell.shape), f, body.sub({v: toP(w) for v, w in zip(cell.ix, f)}), cell.kind, cell.dt)
        if loc[0] == "g":
            return ("list", [])
        s = self.osnap[loc[1]]
        if isinstance(s, list):
            return leaf(s[loc[2]])
        v = s.get(loc[2], UNBOUND)
        return leaf(v) if v is not UNBOUND else UNBOUND

    def runs(self, state, item, marks, k):
        """all local paths of one body execution; generator returning [(outcome, post, facts)]"""
        todo = [[]]
        res = []
        self.kcur = k
        while todo:
            pre = todo.pop()
            base = PL.CTX.clone()
            nf0 = len(RT.facts)
            self.lfacts = []
            L = Local(pre, marks, self)
            RT.locs.append(L)
            self.mode = "infer"
            RT.loopstack.append(self)
            vals = self.apply(state)
            ev = (len(RT.events), len(RT.draws), len(RT.exits), len(RT.obl))
            self.set_rng(k)
            lstack = list(RT.loopstack)
            try:
                out = yield Run(vals, item() if item else None)
            finally:
                while RT.locs and RT.locs[-1] is not L:
                    RT.locs.pop()
                if RT.locs:
                    RT.locs.pop()
                RT.loopstack = lstack[:-1]
            p = self.post(out[1]) if out[0] == "tail" else None
            lf = list(self.lfacts)
            self.restore()
            self.writes_all.update(self.writes)
            del RT.events[ev[0]:], RT.draws[ev[1]:], RT.exits[ev[2]:]
            # facts learned at outer levels stay
            keep = [f for f in RT.facts[nf0:] if not any(f is g for g in lf)]
            del RT.facts[nf0:]
            PL.set_ctx(base)
            PL.CTX.bump()
            for f in keep:
                RT.facts.append(f)
                RT._learn(f)
            res.append((out, p, lf))
            todo.extend(L.pending)
            if len(res) > 40:
                raise Unsupported("too many paths through the body of %s" % self.lid)
        return res

    def set_rng(self, k):
        t, prm, site, cnt = self.rng0
        nm = PL.short("loop(%s;%s;%s;%d)" % (self.lid, t, site, cnt))
        RT.rng.set((nm, tuple(prm) + (toP(k),), nm, 0))

    # ------------------------------------------------ the controller
    def control(self):
        self.touched = set()
        self.writes_all = {}
        self.rebound = set()        # names that some run leaves bound to another object (the others were at most updated in place)
        self.begin()
        yield from self._control()

    def _control(self):
        is_for = self.is_for
        if is_for:
            n = self.seq.n
            jv = fresh(n - 1, "j")
            k0, kg = toP(0), toP(jv) + 1
            kvar = jv
            back = lambda l, at: lsub(l, {jv: toP(at) - 1})        # expression of iteration kg -> iteration 'at'
            marks_k = {jv.key}
        else:
            kd = Dim("k%d" % (ten._cell_n[0]), min=1)
            ten._cell_n[0] += 1
            k0, kg = toP(0), toP(kd)
            kvar = kd
            back = lambda l, at: lsub(l, {kd: toP(at)})
            marks_k = {kd.name}
        self.kvar, self.k_is_for = kvar, is_for
        item = (lambda k: (lambda: self.seq.elem(k))) if is_for else (lambda k: None)
        # ---- entry iteration
        entry_marks = {"\0none"}
        ent = yield from self.entry_runs(item(k0), k0)
        tails0 = [(o, p, f) for o, p, f in ent if o[0] == "tail"]
        leaves = any(o[0] != "tail" for o, p, f in ent)
        if not tails0:
            # the body never completes normally on the first iteration
            yield from self.real([("entry", {}, item(k0), k0)])
            return
        locs = set()
        inplace0 = set()
        for o, p, f in tails0:
            for l, v in p.items():
                if not same_leaf(v, self.entry_leaf(l)):
                    if l[0] == "v" and l[1] not in self.rebound:
                        inplace0.add(l[1])
                    else:
                        locs.add(l)
        # concretely decided while loop: run natively
        if not is_for and len(ent) == 1 and isinstance(self.condval, bool) and self.condval is True:
            o, p, f = tails0[0]
            nat = yield from self.second_cond({l: p[l] for l in locs})
            if nat:
                self.restore()
                self.vals = {x: self.loc0.get(x, UNBOUND) for x in self.names}
                self.mode = "native"
                yield "native"
                return
        entry = {l: self.entry_leaf(l) for l in locs}
        post0 = {}
        for l in locs:
            post0[l] = self.common([(p.get(l, entry[l]), f) for o, p, f in tails0])
        # ---- modes
        mode, form = {}, {}
        pre_names = {}
        tmpl = self.tmpl = {}
        self.grow = {}
        self.half = {}
        guess = set()
        serial = ten._cell_n[0]
        ten._cell_n[0] += 1
        orbs = [o for o in RT.orbits if o.loop is None or o.loop in self.lid]
        if orbs:
            self.match_orbits(orbs, locs, entry, post0, mode)
        for num, l in enumerate(sorted(locs, key=str)):
            if l in mode:
                continue
            e = entry[l]
            q = post0[l]
            if l[0] == "g":
                mode[l], form[l] = "list", q
                pre_names[l] = "pre%d_%d" % (serial, num)
                continue
            num_q = q is not None and q is not UNBOUND and q[0] in ("arr", "sc")
            g = self.grow_form(e, q) if num_q else None
            if g is not None:
                mode[l], form[l] = "gpre", g
                self.grow[l] = g[:2]
            elif e is UNBOUND or e[0] not in ("arr", "sc") or not num_q or q[0] != e[0] or (e[0] == "arr" and (len(e[1]) != len(q[1]) or not all(same(a, b) for a, b in zip(e[1], q[1])))):
                # no common shape with the entry value: the value after the first iteration is the template
                mode[l] = "pre" if num_q and e is not UNBOUND else "poison"
                if mode[l] == "pre":
                    tmpl[l] = q
            else:
                mode[l] = "pre"
                if e[0] == "sc" and e[2] == "int" and q[2] == "int" and N.topoly(e[1]) is not None:
                    g = (q[1] - e[1])
                    gc = g.const()
                    if gc is not None and gc[1] == 0 and gc[0] != 0:
                        # a counter, unless an arbitrary iteration shows otherwise
                        mode[l], form[l] = "poly", g
                        guess.add(l)
            pre_names[l] = "pre%d_%d" % (serial, num)
        allpre = set(pre_names.values())
        marks = set(marks_k) | allpre
        for o in orbs:
            for c in o.comps:
                marks.add(c[0])
        for it in range(12):
            state = {l: self.head_leaf(l, mode, form, entry, post0, pre_names, kg, back) for l in locs}
            gen = yield from self.runs(state, item(kg), frozenset(marks), kg)
            tails = [(o, p, f) for o, p, f in gen if o[0] == "tail"]
            leaves = leaves or any(o[0] != "tail" for o, p, f in gen)
            new = set()
            for o, p, f in tails:
                for l, v in p.items():
                    if l not in locs and not (l[0] == "v" and l[1] not in self.rebound) and not same_leaf(v, self.entry_leaf(l)):
                        if l[0] == "v" and l[1] in inplace0:
                            raise Unsupported("array updated in place in the first iteration and rebound in a later one")
                        new.add(l)
            if new:
                for num, l in enumerate(sorted(new, key=str)):
                    locs.add(l)
                    entry[l] = self.entry_leaf(l)
                    post0[l] = entry[l]
                    pre_names[l] = "pre%d_n%d_%d" % (serial, it, num)
                    if l[0] == "g":
                        raise Unsupported("list that grows in some iterations only")
                    mode[l] = "pre" if entry[l] is not UNBOUND and entry[l][0] in ("arr", "sc") else "poison"
                allpre = set(pre_names.values())
                marks |= allpre
                continue
            if not tails:
                # an arbitrary later iteration never completes: at most two iterations
                break
            changed = False
            posts = {}
            for l in locs:
                vs = [(state[l] if p.get(l, None) is None else p[l], f) for o, p, f in tails]
                posts[l] = None if any(v is UNBOUND for v, _ in vs) else self.common(vs)
            conds = frozenset()
            for o, p, f in gen:
                for x in f:
                    conds |= sb_mentions(x)
            # classification
            cls = {}
            for l in locs:
                cls[l] = self.classify(l, mode[l], state[l], posts[l], pre_names.get(l), allpre, entry[l], marks_k, kg, kvar)
            used = set(conds)
            for l in locs:
                if posts[l] is not None:
                    m = lmentions(posts[l]) & allpre
                    used |= m if cls[l][0] in ("last", "?") else (m - {pre_names.get(l)})
                    if cls[l][0] == "last":
                        used |= m
            for l in sorted(locs, key=str):
                c = cls[l]
                if l in guess and (posts[l] is None or posts[l] is UNBOUND or not same_leaf(posts[l], self.at_head(l, mode, form, entry, kg + 1, back, kvar))):
                    guess.discard(l)
                    mode[l] = "pre"
                    form.pop(l)
                    changed = True
                    continue
                if l[0] == "g":
                    v = posts[l]
                    if v is None or v is UNBOUND or not v[1]:
                        raise Unsupported("list that grows in some iterations only")
                    if not same_leaf_or_none(form[l], v):
                        form[l] = v
                        changed = True
                    continue
                if mode[l] == "pre" and is_for and c[0] == "?" and l not in tmpl and entry[l][0] == "arr" and posts[l] is not None and posts[l] is not UNBOUND and self.half.get(l, -1) < len(entry[l][1]) - 1:
                    d = self.half.get(l, -1) + 1
                    while d < len(entry[l][1]) and not same(entry[l][1][d], self.seq.n):
                        d += 1
                    self.half[l] = d
                    if d < len(entry[l][1]):
                        changed = True
                        continue
                    self.half[l] = None
                    del self.half[l]
                    self.tmpl[l] = entry[l]
                    changed = True
                    continue
                if mode[l] == "gpre":
                    if c[0] == "grow":
                        mode[l], form[l] = "grow", c[1]
                    else:
                        mode[l] = "poison"
                    changed = True
                elif mode[l] == "pre":
                    if c[0] == "last" and (not (lmentions(c[1]) & allpre)):
                        mode[l] = "last"
                        form[l] = c[1]
                        changed = True
                    elif c[0] == "poly":
                        mode[l] = "poly"
                        form[l] = c[1]
                        changed = True
                    elif c[0] in ("acc", "fill"):
                        form[l] = c
                    elif pre_names[l] in used or c[0] == "?":
                        form[l] = None
                elif mode[l] in ("poison",):
                    if posts[l] is not None and posts[l] is not UNBOUND and not (lmentions(posts[l]) & allpre) and all(x is not UNBOUND and (x[0] in ("arr", "sc") or (x[0] == "obj" and (isinstance(x[1], (str, bool, float, int, type(None)))))) for _, x in flat(posts[l])):
                        mode[l] = "last"
                        form[l] = posts[l]
                        changed = True
                elif mode[l] == "last":
                    if posts[l] is None or posts[l] is UNBOUND or not same_leaf(posts[l], form[l]):
                        if posts[l] is not None and posts[l] is not UNBOUND and not (lmentions(posts[l]) & allpre) and it < 6:
                            form[l] = posts[l]
                        else:
                            mode[l] = "dead"
                        changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop %s: no stable invariant" % self.lid)
        # ---- check the invariant is inductive
        bad = []
        for l in sorted(locs, key=str):
            m = mode[l]
            if m in ("poison", "dead"):
                mode[l] = "dead"
                continue
            if l[0] == "g":
                if not tails:
                    mode[l] = "dead"
                    continue
                if lmentions(form[l]) & allpre or any(x is UNBOUND or x[0] not in ("arr", "sc", "sb") and not isinstance(x[1], (str, bool, float, int, type(None))) for _, x in flat(form[l])):
                    bad.append((l, "elements with no closed form"))
                elif post0[l] is None or not same_leaf(post0[l], back(form[l], k0)):
                    bad.append((l, "not established by the first iteration"))
                continue
            if tails and m == "pre":
                f = form.get(l)
                c = cls[l]
                if not f or c[0] not in ("acc", "fill") or (pre_names[l] in used):
                    # unresolved: acceptable only when nobody reads it (value unknown after the loop)
                    if pre_names[l] in used:
                        bad.append((l, "no closed form (read by the body)"))
                    mode[l] = "dead"
                    continue
                mode[l] = c[0]
                form[l] = c
            if not tails:
                mode[l] = "dead"
                continue
            want = self.at_head(l, mode, form, entry, kg + 1, back, kvar)
            if mode[l] in ("orbit",):
                want = self.orbit_next(l, mode, form, entry, kg)
            if mode[l] not in ("acc", "fill"):
                if posts[l] is None or not same_leaf(posts[l], want):
                    bad.append((l, "not preserved"))
            # base case
            w0 = self.base_case(l, mode, form, entry, back, kvar, k0)
            if post0[l] is None or not same_leaf(post0[l], w0):
                bad.append((l, "not established by the first iteration"))
        if bad:
            raise Unsupported("loop %s: invariant of %s" % (self.lid, "; ".join("%s: %s" % (self.lname(l), w) for l, w in bad)))
        RT.oblige("loop invariant %s" % self.lid, True, "", "induction")
        RT.oblige("loop invariant %s (first iteration)" % self.lid, True, "", "induction")
        self.locs, self.lmode, self.lform, self.lentry = locs, mode, form, entry
        fin = lambda k: {l: (UNBOUND if mode[l] == "dead" else self.at_head(l, mode, form, entry, k, back, kvar)) for l in locs}
        if is_for and not leaves:
            self.restore()
            self.reset_rng()
            vals = self.apply(fin(n))
            self.mode = "done"
            RT.exits.append((self.lid, n, "exhausted"))
            yield ("exit", vals)
            return
        # index facts that held when the previous iteration was completed
        self.prev = []
        if not is_for and tails:
            sets = [{q.key: q for q in map(ge_form, f) if q is not None} for o, p, f in tails]
            sets0 = [{q.key for q in map(ge_form, f) if q is not None} for o, p, f in tails0]
            for key, q in sets[0].items():
                q0 = q.sub({kd: k0})
                if all(key in x for x in sets) and (PL.ge0(q0) or all(q0.key in x for x in sets0)):
                    self.prev.append(q.sub({kd: kg - 1}))
        alts = [("entry", {}, item(k0), k0), ("generic", None, item(kg), kg)]
        if not tails and not is_for:
            # no iteration after the first can complete: the only later head is the one after the first iteration
            st1 = {l: (UNBOUND if post0[l] is None else post0[l]) for l in locs}
            alts[1] = ("second", st1, item(toP(1)), toP(1))
        self.gstate = lambda: {l: (UNBOUND if mode[l] == "dead" else self.at_head(l, mode, form, entry, kg, back, kvar)) for l in locs}
        if is_for:
            alts.append(("exhausted", fin, None, n))
        yield from self.real(alts)

    def common(self, vs):
        """vs: [(value, facts of its path)]; a value that equals each of them under the facts of its path, or None"""
        for k, (r, _) in enumerate(vs):
            if r is None or r is UNBOUND:
                return r if all(v is r for v, _ in vs) else None
        for k, (r, _) in enumerate(vs):
            if all(same_leaf(r, v) or (lf and self.under(lf, r, v)) for v, lf in vs):
                return r
        return None

    def under(self, lf, a, b):
        base = PL.CTX.clone()
        n = len(RT.facts)
        try:
            for f in lf:
                RT.facts.append(f)
                RT._learn(f)
            PL.CTX.bump()
            rn = lambda x: rebuild(x, lambda p, y: y[:3] + (N.renorm(y[3]),) + y[4:] if y is not UNBOUND and y[0] == "arr" else (("sc", N.renorm(y[1])) + y[2:] if y is not UNBOUND and y[0] == "sc" else y))
            return same_leaf(rn(a), rn(b))
        finally:
            del RT.facts[n:]
            PL.set_ctx(base)
            PL.CTX.bump()

    def lname(self, l):
        return {"g": lambda: "list", "v": lambda: l[1], "c": lambda: "array(%s)" % ",".join(s.key for s in l[1].shape), "a": lambda: "." + str(l[2]), "l": lambda: "[%s]" % l[2]}[l[0]]()

    def reset_rng(self):
        t, prm, site, cnt = self.rng0
        nm = PL.short("after(%s;%s;%s;%d)" % (self.lid, t, site, cnt))
        RT.rng.set((nm, prm, nm, 0))

    def entry_runs(self, item, k0):
        # branches of the first iteration are explored locally as well
        r = yield from self.runs({}, item, _EVERY, k0)
        return r

    def second_cond(self, state):
        st = dict(state)
        self.condval = None
        try:
            r = yield from self.runs(st, None, _LOCAL, toP(1))
        except Unsupported:
            return False
        return isinstance(self.condval, bool) and len(r) == 1

    def real(self, alts):
        k = RT.choose(len(alts), self.lid)
        tag, state, item, kk = alts[k]
        self.restore()
        self.reset_rng()
        self.kcur = kk
        if tag == "exhausted":
            vals = self.apply(state(kk))
            self.mode = "done"
            RT.exits.append((self.lid, kk, "exhausted"))
            yield ("exit", vals)
            return
        if tag == "generic":
            state = self.gstate()
            for q in self.prev:
                f = rt.cmp_nf(fromP(q), ">=")
                if isinstance(f, SB):
                    RT.facts.append(f)
                    RT._learn(f)
        self.set_rng(kk)
        RT.loopstack.append(self)
        vals = self.apply(state)
        self.havoc = set()
        self.cell0 = -1 if False else self.cell0
        self.mode = "real"
        self.writes = {}
        yield Run(vals, item() if item else None)

    # ------------------------------------------------ invariants
    def grow_form(self, e, q):
        """array that gains a fixed number of rows in one dimension per iteration: (dimension, step, indices, row, content)"""
        if e is UNBOUND or e[0] != "arr" or q[0] != "arr" or len(e[1]) != len(q[1]) or e[4] != q[4]:
            return None
        ds = [d for d in range(len(e[1])) if not same(e[1][d], q[1][d])]
        if len(ds) != 1:
            return None
        d = ds[0]
        c = PL.nrm(q[1][d] - e[1][d])
        if c.const() is None or c.const() <= 0:
            return None
        return (d, c, None, None, None)

    def pre_leaf(self, e, nm):
        if e[0] == "sc":
            return ("sc", N.nfac(N.At(nm, (), False, e[2] != "complex")), e[2], True if e[2] != "int" else e[3])
        f = [fresh(s, "i") for s in e[1]]
        return ("arr", list(e[1]), f, N.nfac(N.At(nm, [toP(v) for v in f], False, e[4] != "complex")), e[4], e[5])

    def head_leaf(self, l, mode, form, entry, post0, pre_names, kg, back):
        m = mode[l]
        if l[0] == "g":
            return ("list", [])         # the body only appends: what is already there does not matter to it
        if m in ("poison", "dead"):
            return UNBOUND
        if m == "gpre":
            d, c = form[l][:2]
            e = entry[l]
            sh = list(e[1])
            sh[d] = sh[d] + c * toP(kg)
            return self.pre_leaf(("arr", sh) + e[2:], pre_names[l])
        if m == "pre":
            e = self.pre_leaf(self.tmpl.get(l, entry[l]), pre_names[l])
            d = self.half.get(l)
            if d is not None:
                # slices from the current one on still hold their entry values
                c = N.mk_iv("ge", toP(e[2][d]) - toP(kg))
                old = entry[l][3].sub({v: toP(w) for v, w in zip(entry[l][2], e[2])})
                return e[:3] + (mul(c, old) + mul(const(1) - c, e[3]),) + e[4:]
            return e
        return self.at_head(l, mode, form, entry, kg, back, self.kvar)

    def at_head(self, l, mode, form, entry, k, back, kvar):
        """value at the head of iteration k (k >= 1) / after k iterations"""
        m = mode[l]
        if l[0] == "g":
            # the list after k iterations
            ini = self.osnap[l[1]]
            per = form[l]
            if ini or len(per[1]) != 1:
                raise Unsupported("list growing in a loop: not one element per iteration from the empty list")
            return ("grown", SymSeq(toP(k), lambda i: unleaf(back(per[1][0], toP(i)))))
        if m == "last":
            return back(form[l], toP(k) - 1) if not self.k_is_for else back(form[l], toP(k) - 1)
        if m == "grow":
            return grow_leaf(entry[l], form[l], k, back)
        if m == "poly":
            return ("sc", fromP(N.topoly(entry[l][1])) + mul(fromP(toP(k)), form[l]), entry[l][2], entry[l][3])
        if m == "acc":
            _, g, e = form[l]
            t = fresh(toP(k), "t")
            gl = back(g, t) if self.k_is_for else back(g, toP(t))
            ee = entry[l]
            if g[0] == "sc":
                return ("sc", ee[1] + N.nsum(gl[1], t), g[2], g[3])
            mp = {v: toP(w) for v, w in zip(ee[2], gl[2])}
            return ("arr", gl[1], gl[2], ee[3].sub(mp) + N.nsum(gl[3], t), g[4], g[5])
        if m == "fill":
            _, g, d, off = form[l]
            ee = entry[l]
            ix = [fresh(s, "i") for s in ee[1]]
            pos = toP(ix[d]) - off
            gl = back(g, pos) if self.k_is_for else back(g, pos)
            a = gl[3].sub({v: toP(w) for v, w in zip(gl[2], ix)})
            c = mul(N.mk_iv("ge", toP(k) - 1 - pos), N.mk_iv("ge", pos))
            old = ee[3].sub({v: toP(w) for v, w in zip(ee[2], ix)})
            return ("arr", ee[1], ix, mul(c, a) + mul(const(1) - c, old), g[4], g[5])
        if m == "orbit":
            o, ci, fm, like = form_of(self, l)
            if ci is None:
                return o.like(o.leaves(o.fns(k)), like)
            M = o.mats(k)[ci]
            return form_leaf(like, fm, M)
        raise Unsupported("no invariant for " + self.lname(l))

    def orbit_next(self, l, mode, form, entry, k):
        o, ci, fm, like = form_of(self, l)
        if ci is None:
            return o.like(o.leaves(o.step(toP(k), o.fns(k))), like)
        M = o.stepped(o.mats(k))[ci]
        return form_leaf(like, fm, M)

    def base_case(self, l, mode, form, entry, back, kvar, k0):
        m = mode[l]
        if m == "orbit":
            o, ci, fm, like = form_of(self, l)
            if ci is None:
                return o.like(o.leaves(o.step(toP(0), o.init())), like)
            return form_leaf(like, fm, o.stepped(o.init_mats())[ci])
        if m == "last":
            lf = back(form[l], k0)
            if RT.orbits:
                lf = orbit_zero(lf)
            return lf
        return self.at_head(l, mode, form, entry, 1, back, kvar)

    def match_orbits(self, orbs, locs, entry, post0, mode):
        self.orbmap = {}
        for o in orbs:
            if getattr(o, "arr", False):
                ini = o.leaves(o.init())
                st = o.leaves(o.step(toP(0), o.init()))
                for l in locs:
                    e, q = entry[l], post0[l]
                    if l not in mode and o.same_shape(e) and o.same_shape(q) and same_leaf(e, o.like(ini, e)) and same_leaf(q, o.like(st, q)):
                        mode[l] = "orbit"
                        self.orbmap[l] = (o, None, None, q)
                        o.used = True
                continue
            ini = o.init_mats()
            st = o.stepped(ini)
            for l in locs:
                e = entry[l]
                if l in mode or e is UNBOUND or e[0] != "arr" or len(e[1]) != 2 or post0[l] is None or post0[l] is UNBOUND or post0[l][0] != "arr":
                    continue
                for ci, c in enumerate(o.comps):
                    if not (same(e[1][0], toP(c[1])) and same(e[1][1], toP(c[1]))):
                        continue
                    for nm, fm in FORMS:
                        if same_leaf(e, form_leaf(e, fm, ini[ci])) and same_leaf(post0[l], form_leaf(post0[l], fm, st[ci])):
                            mode[l] = "orbit"
                            self.orbmap[l] = (o, ci, fm, post0[l])
                            o.used = True
                            break
                    if l in mode:
                        break

    def classify(self, l, mode, st, post, pre, allpre, entry, marks_k, kg, kvar):
        if l[0] == "g":
            return ("last", post)
        if mode == "gpre" and post is not None and post is not UNBOUND and post[0] == "arr" and len(post[1]) == len(st[1]):
            d, c = self.grow[l]
            cap = st[1][d]
            if same(post[1][d], cap + c) and all(same(a, b) for i, (a, b) in enumerate(zip(post[1], st[1])) if i != d):
                s = fresh(c, "s")
                v = N.renorm(post[3].sub({post[2][d]: cap + toP(s)}))
                if not (mentions(v) & allpre):
                    return ("grow", (d, c, post[2], s, v))
            return ("?",)
        if post is None or post is UNBOUND:
            return ("?",)
        if mode != "pre":
            return (mode,)
        m = lmentions(post)
        if not (m & allpre):
            return ("last", post)
        if entry is UNBOUND or entry[0] != post[0] or st[0] != post[0]:
            return ("?",)
        if post[0] == "sc":
            g = post[1] - st[1]
            if not (mentions(g) & allpre):
                c = g.const()
                if not (mentions(g) & marks_k) and N.topoly(g) is not None and N.topoly(entry[1]) is not None and not any(isinstance(v, IV) and False for v in ()):
                    return ("poly", g)
                if post[2] == st[2]:
                    return ("acc", ("sc", g, post[2], post[3]), entry)
            return ("?",)
        if post[0] == "arr":
            mp = {v: toP(w) for v, w in zip(st[2], post[2])}
            pre_at = st[3].sub(mp)
            g = post[3] - pre_at
            if not (mentions(g) & allpre):
                return ("acc", ("arr", post[1], post[2], g, post[4], post[5]), entry)
            a = N.subfac(post[3], lambda f: const(0) if isinstance(f, N.At) and f.name == pre else None)
            b = N.subfac(post[3], lambda f: const(1) if isinstance(f, N.At) and f.name == pre else None)
            c = b - a
            for d in range(len(post[1])):
                v = post[3].sub({post[2][d]: kg})
                if mentions(v) & allpre:
                    continue
                w = N.delta(toP(post[2][d]), kg)
                if rt.prove_eq(post[3], mul(w, v) + mul(const(1) - w, pre_at)):
                    return ("fill", ("arr", post[1], post[2], v, post[4], post[5]), d, toP(0))
            if mentions(a) & allpre or mentions(c) & allpre:
                return ("?",)
            if not rt.prove_eq(post[3], a + mul(c, pre_at)):
                return ("?",)
            w = const(1) - c
            for d in range(len(post[1])):
                dl = N.delta(toP(post[2][d]), kg)
                if w.key == dl.key or rt.prove_eq(w, dl):
                    # value of the slice: a restricted to idx_d == k
                    v = a.sub({post[2][d]: kg})
                    return ("fill", ("arr", post[1], post[2], v, post[4], post[5]), d, toP(0))
            return ("?",)
        return ("?",)


def same_leaf_or_none(a, b):
    return a is not None and a is not UNBOUND and same_leaf(a, b)


def grow_leaf(e, g, k, back):
    d, c, qx, s, v = g
    sh = list(e[1])
    cap = sh[d]
    sh[d] = cap + c * toP(k)
    ix = [fresh(x, "i") for x in sh]
    at = e[3].sub({a: toP(b) for a, b in zip(e[2], ix)})
    pos = toP(ix[d]) - cap
    j, r = PL.idivmod(pos, c)
    fill = back(("sc", v, e[4], True), j)[1]
    mp = {a: toP(b) for i, (a, b) in enumerate(zip(qx, ix)) if i != d}
    mp[s] = r
    fill = fill.sub(mp)
    old = N.mk_iv("ge", cap - 1 - toP(ix[d]))
    return ("arr", sh, ix, mul(old, at) + mul(const(1) - old, fill), e[4], e[5])


class _Every(frozenset):
    def __and__(s, o):
        return True

    def __rand__(s, o):
        return True


_EVERY = _Every()


class _Local(frozenset):
    """every branch is explored locally"""
    __and__ = __rand__ = lambda s, o: True


_LOCAL = _Local()


def form_of(L, l):
    return L.orbmap[l]


def orbit_zero(l):
    """replace x_0 of every orbit by its initial value"""
    def fix(nf):
        for o in RT.orbits:
            if getattr(o, "arr", False):
                for (nm, sh, kind, init), hp in zip(o.comps, o.hpd):
                    if hp:
                        r, c = fresh(sh[0], "i"), fresh(sh[0], "i")
                        nf = msym_sub(nf, nm, toP(0), N.mat_from(init(toP(r), toP(c)), r, c, sh[0]))
                    elif nm in mentions(nf):
                        nf = N.subfac(nf, (lambda nm, init: lambda f: (N.conj(init(*f.idx)) if f.cj else init(*f.idx)) if isinstance(f, N.At) and f.name == nm and f.params[0].key == "0" else None)(nm, init))
                continue
            ini = o.init_mats()
            for c, I in zip(o.comps, ini):
                nf = msym_sub(nf, c[0], toP(0), I)
        return nf

    def f(p, x):
        if x is UNBOUND:
            return x
        if x[0] == "arr":
            return ("arr", x[1], x[2], fix(x[3]), x[4], x[5])
        if x[0] == "sc":
            return ("sc", fix(x[1]), x[2], x[3])
        return x
    return rebuild(l, f)


def msym_sub(nf, name, k, M):
    """replace the matrix symbol name{k} by matrix M everywhere"""
    kk = k.key if isinstance(k, _KP) else toP(k).key
    if name not in mentions(nf):
        return nf

    def fn(f):
        if isinstance(f, N.Sp):
            M2 = mat_sub(f.M, name, kk, M)
            g2 = msym_sub(f.g, name, k, M)
            if M2 is not f.M or g2 is not f.g:
                return N.mk_sp(g2, M2, f.i, f.j)
        elif isinstance(f, N.Det):
            M2 = mat_sub(f.M, name, kk, M)
            if M2 is not f.M:
                return N.mk_det(M2)
        elif isinstance(f, N.At):
            if f.name == name and [p.key for p in f.params] == [kk]:
                e = M.at(*f.idx)
                return N.conj(e) if f.cj else e
        elif isinstance(f, (N.EV, N.EL, N.Ch)) and name in _mset(f.M):
            raise Unsupported("spectral term of an orbit matrix")
        return None
    return N.subfac(nf, fn)


def _mset(M):
    r = set()
    _mm(M, r)
    return r


def _ments(p):
    r = set()
    _mx(p, r)
    return r


def mat_sub(M0, name, kk, M):
    if isinstance(M0, N.MSym):
        if M0.name == name and [p.key for p in M0.params] == [kk]:
            return M
        if any(isinstance(p, (N.ALam, N.NF)) and name in _ments(p) for p in M0.params):
            return N.MSym(M0.name, M0.size, [N.param_map(p, lambda n: msym_sub(n, name, _KP(kk), M)) for p in M0.params], M0.kind, M0.isreal)
        return M0
    if name not in mentions(M0.nf):
        return M0
    n2 = msym_sub(M0.nf, name, _KP(kk), M)
    if n2.key == M0.nf.key:
        return M0
    r, c = fresh(M0.size, "i"), fresh(M0.size, "i")
    return N.mat_from(n2.sub({M0.r: toP(r), M0.c: toP(c)}), r, c, M0.size)


class _KP:
    def __init__(self, k):
        self.key = k


_toP = PL.toP
