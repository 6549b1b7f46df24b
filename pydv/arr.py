"""pydv.arr - n-dimensional arrays of symbolic shape: a buffer (function of the indices) plus a strided view."""
import z3
from .core import C, Unsupported, _z, I, touch, mutated, tick
from . import terms
from .values import (SNum, SBool, SStr, SN, SB, Sym, Seq, PList, PDict, simp, merge, subst, num_parts, bool_term, is_sym,
                     as_seq, norm_slice, compress, to_int, to_float, _or, real, Opaque, n_ceil, n_floor, n_round, n_sqrt,
                     n_exp, n_log, n_exp2, n_log2, num_pow, eq_term, _at, _is_int_type, _deep_sym, SymObj)


def dim(x):
    """normalise a dimension to int or z3 Int"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SArr) and x.ndim == 0:
        x = x.get(())
        if isinstance(x, int):
            return x
    if isinstance(x, SNum):
        x = x.e
    if isinstance(x, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if not z3.is_expr(x):
        raise TypeError("not an integer dimension: %r" % (x,))
    x = simp(x)
    if z3.is_int_value(x):
        return x.as_long()
    if not z3.is_int(x):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return x


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = _z(a), _z(b)
    if a.eq(b):
        return True
    c = C()
    if c.entails(a == b):
        return True
    if c.entails(a != b):
        return False
    if c.qfacts or True:
        if c.entails_q(a == b):
            return True
    return None


class Buf:
    def __init__(self, fn):
        self.fn = fn
        self.born = tick()

    def __pv_get__(self):
        return {"fn": ArrFn(self.fn)}

    def __pv_set__(self, st):
        self.fn = st["fn"].fn


class ArrFn:
    """content of a buffer as a value (function of an index tuple)"""
    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, ArrFn) and self.fn is o.fn
    __hash__ = None


def memo(fn):
    cache = {}

    def f(idx):
        try:
            key = tuple(i if isinstance(i, int) else i.get_id() for i in idx)
        except AttributeError:
            return fn(idx)
        r = cache.get(key)
        if r is not None and all(x is y or (isinstance(x, int) and x == y) or (not isinstance(x, int) and not isinstance(y, int) and x.eq(y))
                                 for x, y in zip(r[0], idx)):
            return r[1]
        v = fn(idx)
        cache[key] = (tuple(idx), v)
        return v
    return f


def ix(i):
    """index as int or simplified z3"""
    if isinstance(i, int):
        return i
    if isinstance(i, SNum):
        i = i.e
    i = simp(i)
    if z3.is_int_value(i):
        return i.as_long()
    return i


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return ix(_z(a) + _z(b))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return ix(_z(a) * _z(b))


def split_div(a, b):
    """quotient and remainder of a >= 0 by b > 0: a = q b + r with 0 <= r < b found in the polynomial a where possible"""
    a, b = _z(a), _z(b)
    plain = ix(a / b), ix(a % b)
    if z3.is_int_value(b):
        return plain
    sym = z3.Int("$dv")
    v = cf = None
    for w in terms.free_consts(b):
        r = terms.linear_in(b, w) if z3.is_int(w) else None
        if r is not None and not terms.occurs(r[1], w):
            v, (cf, rest) = w, r
            break
    if v is None:
        return plain
    back = (sym - rest) if cf == 1 else (rest - sym)
    e = z3.simplify(z3.substitute(a, (v, back)), som=True)
    q, r = [], []
    for t in (e.children() if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD else [e]):
        fs = [t]
        while any(z3.is_app(f) and f.decl().kind() == z3.Z3_OP_MUL for f in fs):
            fs = [g for f in fs for g in (f.children() if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_MUL else [f])]
        hit = [i for i, f in enumerate(fs) if f.eq(sym)]
        if hit:
            rest_f = [f for i, f in enumerate(fs) if i != hit[0]]
            q.append(z3.Product(*rest_f) if len(rest_f) > 1 else rest_f[0] if rest_f else z3.IntVal(1))
        else:
            r.append(t)
    if not q or any(terms.occurs(t, sym) for t in r):
        return plain
    q, r = [z3.simplify(z3.substitute(z3.Sum(*x) if len(x) > 1 else x[0] if x else z3.IntVal(0), (sym, b))) for x in (q, r)]
    c = C()
    if c.entails_q(z3.And(r >= 0, r < b)):
        return ix(q), ix(r)
    return plain


class SArr(Sym):
    """array; kind: 'float' | 'int' | 'bool' | 'obj' | 'str'"""
    __array_priority__ = 1000
    __pv_adopt__ = True

    def __init__(self, shape, fn, kind="float", _buf=None, _spec=None):
        self.shape_t = tuple(dim(d) for d in shape)
        self.kind = kind
        if _buf is None:
            self.buf = Buf(memo(fn)); self.buf.shape = self.shape_t
            self.spec = tuple(("rng", 0, 1, a) for a in range(len(self.shape_t)))
        else:
            self.buf = _buf
            self.spec = _spec

    # -------------------------------------------------------------- reading
    def _bidx(self, idx):
        out = []
        for s in self.spec:
            if s[0] == "fix":
                out.append(s[1])
            else:
                _, a, st, ax = s
                out.append(iadd(a, imul(st, idx[ax])))
        return tuple(out)

    def get(self, idx):
        return self.buf.fn(self._bidx(tuple(ix(i) for i in idx)))

    def reader(self):
        f = self.buf.fn
        sp = self
        return lambda idx: f(SArr._bidx(sp, tuple(ix(i) for i in idx)))

    @property
    def ndim(self):
        return len(self.shape_t)

    @property
    def shape(self):
        return tuple(SN(d) if not isinstance(d, int) else d for d in self.shape_t)

    @shape.setter
    def shape(self, s):
        raise Unsupported("assignment to shape")

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        from . import npmodel
        return npmodel.DType(self.kind)

    def __len__(self):
        if not self.shape_t:
            raise TypeError("len() of unsized object")
        if isinstance(self.shape_t[0], int):
            return self.shape_t[0]
        raise Unsupported("native len of a symbolic array")

    def __pv_len__(self):
        if not self.shape_t:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def as_seq(self):
        if not self.shape_t:
            raise TypeError("iteration over a 0-d array")
        n = self.shape_t[0]
        if isinstance(n, int):
            return Seq.const([self[i] for i in range(n)])
        rd = self.reader()
        rest = self.shape_t[1:]
        kind = self.kind
        return Seq(n, lambda i: _scal(rd((i,))) if not rest else SArr(rest, lambda idx: rd((i,) + tuple(idx)), kind))

    def __iter__(self):
        s = self.as_seq()
        if s.concrete():
            return iter(s.parts)
        raise Unsupported("native iteration over a symbolic array")

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.get(()))
        if all(d == 1 for d in self.shape_t if isinstance(d, int)) and all(isinstance(d, int) for d in self.shape_t):
            return bool(self.get((0,) * self.ndim))
        n = self.size
        if isinstance(n, int):
            if n == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        raise Unsupported("truth of a symbolic array")

    def subst(self, pairs):
        rd = self.reader()
        shp = [subst(d, pairs) if not isinstance(d, int) else d for d in self.shape_t]

        def fn(idx):
            cst, ren = [], []
            for i in idx:
                if isinstance(i, int):
                    cst.append(i)
                else:
                    x = C().fresh_const("ax", I)
                    cst.append(x)
                    ren.append((x, i))
            v = subst(rd(tuple(cst)), pairs)
            return subst(v, ren) if ren else v
        return SArr(shp, fn, self.kind)

    # -------------------------------------------------------------- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n_used = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, SArr) and k.kind == "bool":
                n_used += k.ndim
            else:
                n_used += 1
        if Ellipsis in [k for k in key if not is_sym(k) and not isinstance(k, list)]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (self.ndim - n_used)
        else:
            key += [slice(None)] * (self.ndim - n_used)
        if n_used > self.ndim:
            raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (self.ndim, n_used))
        return key

    def _index(self, k, n):
        """bounds-checked integer index"""
        p = num_parts(k)
        if p is None or not z3.is_int(p[0]):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        k = ix(p[0])
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                raise IndexError("index %d is out of bounds for axis with size %d" % (k, n))
            return k if k >= 0 else k + n
        c = C()
        kz, nz = _z(k), _z(n)
        if c.branch(z3.And(kz >= 0, kz < nz)):
            return k
        if c.branch(z3.And(kz < 0, kz >= -nz)):
            return ix(nz + kz)
        raise IndexError("index out of bounds")

    def _view(self, key):
        """basic indexing -> view, or None if advanced"""
        key = self._norm_key(key)
        for k in key:
            if isinstance(k, (list, SArr)) and not (isinstance(k, SArr) and k.ndim == 0) or isinstance(k, range):
                return None
        ax = 0
        vshape = []
        axmap = {}    # own view axis -> ('fix', e) | ('rng', a, step, newaxis)
        for k in key:
            if k is None:
                vshape.append(1)
                continue
            n = self.shape_t[ax]
            if isinstance(k, slice):
                a, st, ln = _slice(k, n)
                axmap[ax] = ("rng", a, st, len(vshape))
                vshape.append(ln)
            else:
                axmap[ax] = ("fix", self._index(k, n))
            ax += 1
        spec = []
        for s in self.spec:
            if s[0] == "fix":
                spec.append(s)
            else:
                _, a, st, vx = s
                m = axmap[vx]
                if m[0] == "fix":
                    spec.append(("fix", iadd(a, imul(st, m[1]))))
                else:
                    spec.append(("rng", iadd(a, imul(st, m[1])), imul(st, m[2]), m[3]))
        return vshape, tuple(spec)

    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported("field access of an array")
        v = self._view(key)
        if v is not None:
            vshape, spec = v
            if not vshape:
                return _scal(self.buf.fn(tuple(s[1] for s in spec)))
            r = SArr(vshape, None, self.kind, _buf=self.buf, _spec=spec)
            from .core import OWN
            o = OWN.get(id(self))
            if o is not None and o[0] is self:
                OWN[id(r)] = (r, lambda _: o[1](self))
            return r
        return self._advanced(self._norm_key(key))

    def _advanced(self, key):
        # apply one advanced index at a time, right to left; several advanced indices together are not supported
        adv = [i for i, k in enumerate(key) if isinstance(k, (list, SArr, range)) and not (isinstance(k, SArr) and k.ndim == 0)]
        if len(adv) != 1:
            raise Unsupported("several advanced indices")
        p = adv[0]
        k = key[p]
        if not isinstance(k, SArr):
            from .npmodel import array
            k = array(k)
        basic = [slice(None) if i == p else kk for i, kk in enumerate(key)]
        if k.kind == "bool" and k.ndim != 1:
            raise Unsupported("n-d boolean mask")
        if any(isinstance(kk, int) or isinstance(kk, SNum) for kk in basic):
            pass
        base = SArr(*self._view(tuple(basic))[:1], None, self.kind, _buf=self.buf, _spec=self._view(tuple(basic))[1])
        # position of axis p in base
        q = 0
        for i in range(p):
            if basic[i] is None or isinstance(basic[i], slice):
                q += 1
        rd = base.reader()
        shp = list(base.shape_t)
        if k.kind == "bool":
            n = shp[q]
            krd = k.reader()
            if isinstance(n, int):
                vals = [krd((i,)) for i in range(n)]
                if all(isinstance(v, bool) for v in vals):
                    pos = [i for i, v in enumerate(vals) if v]
                    shp[q] = len(pos)
                    return SArr(shp, lambda idx: rd(tuple(idx[:q]) + (_pick(pos, idx[q]),) + tuple(idx[q + 1:])), self.kind)
            d = same_dim(k.shape_t[0], n)
            if d is None:
                d = C().branch(_z(k.shape_t[0]) == _z(n))
            if not d:
                raise IndexError("boolean index did not match indexed array")
            m, sel, rank = compress(_z(n), lambda t: bool_term(krd((t,))))
            shp[q] = m
            return SArr(shp, lambda idx: rd(tuple(idx[:q]) + (ix(sel(_z(idx[q]))),) + tuple(idx[q + 1:])), self.kind)
        krd = k.reader()
        kn = k.ndim
        n = shp[q]
        _check_fancy(k, n)
        shp[q:q + 1] = list(k.shape_t)

        def neg(v):
            p_ = num_parts(v)[0]
            p_ = ix(p_)
            if isinstance(p_, int):
                return p_ if p_ >= 0 else iadd(n, p_)
            return ix(z3.If(p_ >= 0, p_, _z(n) + p_)) if not C().entails(p_ >= 0) else p_
        return SArr(shp, lambda idx: rd(tuple(idx[:q]) + (neg(krd(tuple(idx[q:q + kn]))),) + tuple(idx[q + kn:])), self.kind)

    def __setitem__(self, key, val):
        if isinstance(key, str):
            raise Unsupported("field assignment of an array")
        v = self._view(key)
        if v is not None:
            vshape, spec = v
            self._store(vshape, spec, val)
            return
        key = self._norm_key(key)
        adv = [i for i, k in enumerate(key) if isinstance(k, (list, SArr, range)) and not (isinstance(k, SArr) and k.ndim == 0)]
        if len(adv) != 1:
            raise Unsupported("several advanced indices in assignment")
        p = adv[0]
        k = key[p]
        from .npmodel import array
        k = array(k)
        if any(kk is None or (not isinstance(kk, slice) and i != p) for i, kk in enumerate(key)):
            raise Unsupported("mixed advanced assignment")
        if k.ndim != 1:
            raise Unsupported("n-d advanced assignment")
        krd = k.reader()
        old = self.reader()
        n = self.shape_t[p]
        if any(isinstance(kk, slice) and kk != slice(None) for kk in key):
            raise Unsupported("sliced advanced assignment")
        if k.kind == "bool":
            m, sel, rank = compress(_z(n), lambda t: bool_term(krd((t,))))
            has = lambda t: simp(bool_term(krd((t,))))
            inv = lambda t: ix(rank(_z(t)))
        else:
            m = k.shape_t[0]
            _check_fancy(k, n)
            if isinstance(m, int):
                for j in range(m):
                    sub = tuple(slice(None) if i != p else krd((j,)) for i in range(self.ndim))
                    vv = val
                    va = val if isinstance(val, SArr) else (array(val) if isinstance(val, (list, tuple)) else None)
                    if va is not None and va.ndim == self.ndim and va.shape_t[p] != 1:
                        vv = va[tuple(slice(None) if i != p else j for i in range(self.ndim))]
                    elif va is not None:
                        raise Unsupported("broadcast advanced assignment")
                    self[sub] = vv
                return
            c = C()
            a, b = c.fresh_const("fa", I), c.fresh_const("fb", I)
            g = lambda t: num_parts(krd((t,)))[0]
            if not c.entails_q(z3.Implies(z3.And(a >= 0, a < b, b < _z(m)), g(a) != g(b))):
                raise Unsupported("advanced assignment with possibly repeated indices")
            INV = c.fresh_fun("inv", [I], I)
            HAS = c.fresh_fun("has", [I], z3.BoolSort())
            q = z3.Int("$iq")
            c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < _z(m)), z3.And(INV(g(q)) == q, HAS(g(q)))), patterns=[g(q)]) if not z3.is_const(g(q)) and z3.is_app(g(q)) and g(q).num_args() > 0 and g(q).decl().kind() == z3.Z3_OP_UNINTERPRETED
                     else z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < _z(m)), z3.And(INV(g(q)) == q, HAS(g(q))))))
            c.assume(z3.ForAll([q], z3.Implies(HAS(q), z3.And(INV(q) >= 0, INV(q) < _z(m), g(INV(q)) == q)), patterns=[HAS(q)]))
            has = lambda t: HAS(_z(t))
            inv = lambda t: ix(INV(_z(t)))
        if isinstance(val, (list, tuple)):
            val = array(val)
        if isinstance(val, SArr):
            vr = val.reader()
            vn = val.ndim
            d = same_dim(val.shape_t[p if vn == self.ndim else 0], m)
            if not d:
                if d is None and C().branch(_z(val.shape_t[p if vn == self.ndim else 0]) == _z(m)):
                    pass
                else:
                    raise ValueError("shape mismatch in advanced assignment")
            if vn != self.ndim:
                raise Unsupported("broadcast advanced assignment")
            vget = lambda idx: vr(tuple(idx[:p]) + (inv(idx[p]),) + tuple(idx[p + 1:]))
        else:
            vget = lambda idx: val
        nk = self.kind
        self._write(lambda idx: merge(has(idx[p]), _cast(vget(idx), nk), old(idx)), self.shape_t)

    def _write(self, fn, shape):
        """replace the whole view by fn"""
        self._store(self.shape_t, self.spec, SArr(shape, fn, self.kind))

    def _store(self, vshape, spec, val):
        kind = self.kind
        if isinstance(val, (list, tuple, PList)) or isinstance(val, range):
            from .npmodel import array
            if kind != "obj":
                val = array(val)
        if isinstance(val, SArr):
            if val.ndim > len(vshape):
                drop = val.ndim - len(vshape)
                if all(d == 1 for d in val.shape_t[:drop]):
                    vr0 = val.reader()
                    val = SArr(val.shape_t[drop:], lambda idx: vr0((0,) * drop + tuple(idx)), val.kind)
                else:
                    raise ValueError("could not broadcast input array")
            off = len(vshape) - val.ndim
            bc = []
            for a in range(val.ndim):
                d, t = val.shape_t[a], vshape[off + a]
                if isinstance(d, int) and d == 1:
                    bc.append(True)
                    continue
                s = same_dim(d, t)
                if s is None:
                    s = C().branch(_z(d) == _z(t))
                if not s:
                    if not isinstance(d, int) and C().branch(_z(d) == 1):
                        bc.append(True)
                        continue
                    raise ValueError("could not broadcast input array")
                bc.append(False)
            vr = val.reader()
            vget = lambda idx: vr(tuple(0 if bc[a] else idx[off + a] for a in range(len(bc))))
        else:
            vget = lambda idx: val
        touch(self.buf)
        old = self.buf.fn
        vs = tuple(vshape)
        full = _is_full(spec, self, vs)

        def fn(b):
            if full is not None:
                idx = [None] * len(vs)
                for pos, s in enumerate(spec):
                    idx[s[3]] = b[pos]
                return _cast(vget(tuple(0 if i is None else i for i in idx)), kind)
            conds = []
            idx = [0] * len(vs)
            for pos, s in enumerate(spec):
                if s[0] == "fix":
                    if isinstance(b[pos], int) and isinstance(s[1], int):
                        if b[pos] != s[1]:
                            return old(b)
                    else:
                        conds.append(_z(b[pos]) == _z(s[1]))
                else:
                    _, a, st, ax = s
                    i = iadd(b[pos], imul(-1, a))
                    if st != 1:
                        if not isinstance(st, int):
                            raise Unsupported("symbolic stride")
                        if isinstance(i, int):
                            if i % st:
                                return old(b)
                            i = i // st
                        else:
                            conds.append(_z(i) % st == 0)
                            i = ix(_z(i) / st)
                    ln = vs[ax]
                    if isinstance(i, int) and isinstance(ln, int):
                        if not 0 <= i < ln:
                            return old(b)
                    else:
                        conds.append(z3.And(_z(i) >= 0, _z(i) < _z(ln)))
                    idx[ax] = i
            v = _cast(vget(tuple(idx)), kind)
            if not conds:
                return v
            cnd = simp(z3.And(*conds))
            if z3.is_true(cnd):
                return v
            if z3.is_false(cnd):
                return old(b)
            return merge(cnd, v, old(b))
        self.buf.fn = memo(fn)
        mutated(self.buf)
        mutated(self)

    # -------------------------------------------------------------- shape manipulation
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        if len(axes) != self.ndim:
            raise ValueError("axes don't match array")
        if sorted(a % self.ndim for a in axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        axes = [a % self.ndim for a in axes]
        inv = {a: i for i, a in enumerate(axes)}
        spec = tuple(s if s[0] == "fix" else (s[0], s[1], s[2], inv[s[3]]) for s in self.spec)
        return SArr([self.shape_t[a] for a in axes], None, self.kind, _buf=self.buf, _spec=spec)

    @property
    def T(self):
        return self.transpose()

    def copy(self, *a, **k):
        return SArr(self.shape_t, self.reader(), self.kind)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo_):
        return self.copy()

    def astype(self, t, *a, **k):
        from .npmodel import kind_of
        kd = kind_of(t)
        rd = self.reader()
        return SArr(self.shape_t, lambda idx: _cast(rd(idx), kd), kd)

    def flatten(self, *a):
        return self.reshape(-1).copy()

    ravel = flatten

    def tolist(self):
        s = self.as_seq()
        if self.ndim == 1:
            return PList(_seq=s)
        return PList(_seq=s.map(lambda r: r.tolist()))

    def item(self):
        return self.get((0,) * self.ndim)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SArr)):
            shape = tuple(shape[0])
        shape = [dim(d) for d in shape]
        src = list(self.shape_t)
        if -1 in [d for d in shape if isinstance(d, int)]:
            p = shape.index(-1) if all(isinstance(d, int) for d in shape) else [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1][0]
            shape[p] = _infer(src, [d for i, d in enumerate(shape) if i != p])
        groups = _match_dims(src, shape)
        if groups is None:
            a, b = _prod(src), _prod(shape)
            s = same_dim(a, b)
            if s is False or (s is None and not C().branch(_z(a) == _z(b))):
                raise ValueError("cannot reshape array")
            groups = [(list(range(len(src))), list(range(len(shape))))]
        rd = self.reader()

        def fn(idx):
            out = [0] * len(src)
            for sg, dg in groups:
                if len(sg) == 1 and len(dg) == 1:
                    out[sg[0]] = idx[dg[0]]
                    continue
                if not sg:
                    continue
                lin = 0
                for d in dg:
                    lin = iadd(imul(lin, shape[d]), idx[d])
                if len(sg) == 1:
                    out[sg[0]] = lin
                    continue
                if isinstance(lin, int) and all(isinstance(src[x], int) for x in sg):
                    for x in reversed(sg):
                        out[x] = lin % src[x]
                        lin //= src[x]
                    continue
                for n_, x in enumerate(reversed(sg)):
                    if n_ == len(sg) - 1:
                        out[x] = lin
                    else:
                        if isinstance(src[x], int) and src[x] == 1:
                            out[x] = 0
                            continue
                        lin, out[x] = split_div(lin, src[x])
            return rd(tuple(out))
        r = SArr(shape, fn, self.kind)
        return r

    def squeeze(self, axis=None):
        keep = [i for i, d in enumerate(self.shape_t) if not (isinstance(d, int) and d == 1)] if axis is None else [i for i in range(self.ndim) if i != axis % self.ndim]
        rd = self.reader()
        nd = self.ndim
        return SArr([self.shape_t[i] for i in keep], lambda idx: rd(tuple(idx[keep.index(i)] if i in keep else 0 for i in range(nd))), self.kind)

    # -------------------------------------------------------------- reductions
    def _reduce(self, f, axis, kind, keepdims=False):
        """f(n, get) reduces one axis to a scalar"""
        if axis is None:
            r = self
            while isinstance(r, SArr) and r.ndim > 0:
                r = r._reduce(f, r.ndim - 1, kind)
            return r
        if isinstance(axis, (tuple, list)):
            axes = sorted([a % self.ndim for a in axis], reverse=True)
            r = self
            for a in axes:
                r = r._reduce(f, a, kind)
            return r
        axis = axis if isinstance(axis, int) else axis.__index__()
        if not -self.ndim <= axis < self.ndim:
            raise ValueError("axis %d is out of bounds for array of dimension %d" % (axis, self.ndim))
        axis %= self.ndim
        n = self.shape_t[axis]
        rest = self.shape_t[:axis] + self.shape_t[axis + 1:]
        rd = self.reader()
        def fn(idx):
            get = lambda j: rd(tuple(idx[:axis]) + (j,) + tuple(idx[axis:]))
            if f is r_sum:
                return f(n, get, [z3.And(_z(i) >= 0, _z(i) < _z(d)) for i, d in zip(idx, rest)])
            return f(n, get)
        if not rest:
            return _scal(fn(()))
        r = SArr(rest, fn, kind)
        if keepdims:
            r = r[tuple([slice(None)] * axis + [None])]
        return r

    def sum(self, axis=None, keepdims=False, **k):
        return self._reduce(r_sum, axis, "int" if self.kind == "bool" else self.kind, keepdims)

    def prod(self, axis=None, **k):
        return self._reduce(r_prod, axis, self.kind)

    def any(self, axis=None, **k):
        return self._reduce(r_any, axis, "bool")

    def all(self, axis=None, **k):
        return self._reduce(r_all, axis, "bool")

    def max(self, axis=None, **k):
        return self._reduce(r_max, axis, self.kind)

    def min(self, axis=None, **k):
        return self._reduce(r_min, axis, self.kind)

    def mean(self, axis=None, **k):
        s = self.sum(axis=axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def dot(self, o):
        from .npmodel import dot
        return dot(self, o)

    # -------------------------------------------------------------- elementwise operators
    def _ufunc_dispatch(self, o, name, rev):
        f = getattr(type(o), "__array_ufunc__", None)
        return f is not None and not isinstance(o, SArr)

    def _b(self, o, op, rev=False, kind=None):
        if getattr(type(o), "__array_ufunc__", None) is not None and not isinstance(o, SArr):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            from .npmodel import array
            o = array(o)
        if o is None or isinstance(o, (str, PDict)) and kind != "bool":
            raise TypeError("unsupported operand")
        return elem2(op, o, self, kind) if rev else elem2(op, self, o, kind)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._b(o, lambda a, b: div(a, b), kind="float")
    def __rtruediv__(self, o): return self._b(o, lambda a, b: div(a, b), True, kind="float")
    def __floordiv__(self, o): return self._b(o, lambda a, b: a // b)
    def __mod__(self, o): return self._b(o, lambda a, b: a % b)
    def __rmod__(self, o): return self._b(o, lambda a, b: a % b, True)
    def __pow__(self, o): return self._b(o, lambda a, b: num_pow(a, b))
    def __rpow__(self, o): return self._b(o, lambda a, b: num_pow(a, b), True)
    def __lt__(self, o): return self._b(o, lambda a, b: a < b, kind="bool")
    def __le__(self, o): return self._b(o, lambda a, b: a <= b, kind="bool")
    def __gt__(self, o): return self._b(o, lambda a, b: a > b, kind="bool")
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b, kind="bool")
    def __eq__(self, o):
        if o is None:
            return False
        return self._b(o, lambda a, b: a == b, kind="bool")
    def __ne__(self, o):
        if o is None:
            return True
        return self._b(o, lambda a, b: a != b, kind="bool")
    def __and__(self, o): return self._b(o, lambda a, b: a & b, kind="bool")
    def __or__(self, o): return self._b(o, lambda a, b: a | b, kind="bool")
    __rand__, __ror__ = __and__, __or__
    def __neg__(self): return elem1(lambda a: -a, self)
    def __pos__(self): return self
    def __abs__(self): return elem1(abs, self)

    def __invert__(self):
        def inv(a):
            return (not a) if isinstance(a, bool) else ~a
        return elem1(inv, self)

    def __matmul__(self, o):
        from .npmodel import matmul
        return matmul(self, o)

    def __rmatmul__(self, o):
        from .npmodel import matmul
        return matmul(o, self)
    __hash__ = None

    def _inplace(self, r):
        if not isinstance(r, SArr):
            return NotImplemented
        self._store(self.shape_t, self.spec, r)
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __array__(self, *a, **k):
        raise Unsupported("native numpy on a symbolic array")

    def __array_ufunc__(self, ufunc, method, *a, **k):
        raise Unsupported("native numpy ufunc on a symbolic array")

    def __contains__(self, x):
        return bool((self == x).any())

    def __repr__(self):
        return "SArr(%s,%s)" % (self.shape_t, self.kind)

    def fill(self, v):
        self[...] = v

    def view(self, *a):
        return self


# SArr must not look like it overrides array_ufunc to itself
def _scal(v):
    return v


def _pick(pos, i):
    if isinstance(i, int):
        return pos[i]
    r = z3.IntVal(pos[-1]) if pos else z3.IntVal(0)
    for k in range(len(pos) - 2, -1, -1):
        r = z3.If(_z(i) == k, z3.IntVal(pos[k]), r)
    return ix(r)


def _check_fancy(k, n):
    """index arrays must be in bounds"""
    c = C()
    krd = k.reader()
    if all(isinstance(d, int) for d in k.shape_t) and k.ndim == 1:
        for j in range(k.shape_t[0]):
            v = num_parts(krd((j,)))[0]
            if not c.branch(z3.And(v >= -_z(n), v < _z(n))):
                raise IndexError("index out of bounds")
        return
    idx = tuple(c.fresh_const("fi", I) for _ in k.shape_t)
    v = num_parts(krd(idx))[0]
    g = z3.Implies(z3.And(*[z3.And(i >= 0, i < _z(d)) for i, d in zip(idx, k.shape_t)]), z3.And(v >= -_z(n), v < _z(n)))
    if not c.entails_q(g):
        raise Unsupported("index array not known to be in bounds")


def _is_full(spec, a, vs):
    """does the view cover the whole buffer in order (then the old content is irrelevant)?  needs the base shape"""
    bs = getattr(a.buf, "shape", None)
    if bs is None or len(bs) != len(vs) or len(spec) != len(vs):
        return None
    for pos, s in enumerate(spec):
        if s[0] != "rng" or not isinstance(s[1], int) or s[1] != 0 or not isinstance(s[2], int) or s[2] != 1:
            return None
        x, y = bs[pos], vs[s[3]]
        if isinstance(x, int) != isinstance(y, int) or (isinstance(x, int) and x != y) or (not isinstance(x, int) and not x.eq(y)):
            return None
    return True


def _slice(k, n):
    st = k.step
    if st is None:
        st = 1
    if isinstance(st, SNum):
        raise Unsupported("symbolic slice step")
    if isinstance(n, int) and not any(is_sym(x) for x in (k.start, k.stop)):
        a, b, s = k.indices(n)
        ln = len(range(a, b, s))
        return a, s, ln
    if st == 1:
        a, b = norm_slice(k, n)
        return ix(a), 1, ix(b - a)
    if st > 1:
        a, b = norm_slice(slice(k.start, k.stop), n)
        ln = simp((b - a + (st - 1)) / st)
        return ix(a), st, ix(ln)
    if st == -1 and k.start is None and k.stop is None:
        return ix(_z(n) - 1), -1, n
    raise Unsupported("slice with negative step")


def _prod(ds):
    r = 1
    for d in ds:
        r = imul(r, d) if not isinstance(r, int) or not isinstance(d, int) else r * d
    return r


def _infer(src, others):
    s = list(src)
    rest = []
    for d in others:
        for i, e in enumerate(s):
            if (isinstance(d, int) and isinstance(e, int) and d == e) or (not isinstance(d, int) and not isinstance(e, int) and d.eq(e)):
                s.pop(i)
                break
        else:
            rest.append(d)
    num, den = _prod(s), _prod(rest)
    if isinstance(den, int) and den == 1:
        return num
    if isinstance(num, int) and isinstance(den, int):
        if den == 0 or num % den:
            raise ValueError("cannot reshape array")
        return num // den
    return ix(_z(num) / _z(den))


def _match_dims(src, dst):
    """partition both shapes into consecutive groups with provably equal products"""
    i = j = 0
    groups = []
    while i < len(src) or j < len(dst):
        if i < len(src) and j < len(dst) and same_dim(src[i], dst[j]):
            groups.append(([i], [j]))
            i += 1
            j += 1
            continue
        si, dj = [], []
        pi, pj = 1, 1
        ok = False
        # extend the shorter side until the products agree
        a, b = i, j
        tries = [(x, y) for x in range(i, len(src) + 1) for y in range(j, len(dst) + 1) if (x, y) != (i, j)]
        tries.sort(key=lambda t: (t[0] - i) + (t[1] - j))
        for x, y in tries:
            if same_dim(_prod(src[i:x]), _prod(dst[j:y])):
                # prefer a split that leaves the remaining dims alignable
                groups.append((list(range(i, x)), list(range(j, y))))
                i, j = x, y
                ok = True
                break
        if not ok:
            return None
    return groups


def _cast(v, kind):
    if kind == "float":
        if isinstance(v, (SNum, SBool)):
            return to_float(v)
        if isinstance(v, (bool, int)):
            return float(v) if abs(v) < 2 ** 52 else v
        if isinstance(v, SArr) and v.ndim == 0:
            return _cast(v.get(()), kind)
        return v
    if kind == "int":
        if isinstance(v, (SNum, SBool, bool, float)):
            return to_int(v)
        return v
    if kind == "bool":
        if isinstance(v, (SNum, SBool)):
            return SB(bool_term(v))
        if isinstance(v, (int, float)):
            return bool(v)
        return v
    return v


def div(a, b):
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            return float("nan") if a == 0 or a != a else (float("inf") if a > 0 else float("-inf"))
        return a / b
    return a / b


def elem1(f, a, kind=None):
    if not isinstance(a, SArr):
        return f(a)
    rd = a.reader()
    return SArr(a.shape_t, lambda idx: f(rd(idx)), kind or a.kind)


def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for a in range(nd):
        d = 1
        for s in shapes:
            off = nd - len(s)
            if a < off:
                continue
            e = s[a - off]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
                continue
            r = same_dim(d, e)
            if r is None:
                r = C().branch(_z(d) == _z(e))
                if not r:
                    if not isinstance(e, int) and C().branch(_z(e) == 1):
                        continue
                    if not isinstance(d, int) and C().branch(_z(d) == 1):
                        d = e
                        continue
            elif r is False:
                if not isinstance(e, int) and C().entails(_z(e) == 1):
                    continue
                if not isinstance(d, int) and C().entails(_z(d) == 1):
                    d = e
                    continue
            if not r:
                raise ValueError("operands could not be broadcast together")
            if isinstance(e, int):
                d = e
        out.append(d)
    return out


def brd(a, nd, out_shape):
    """reader of a broadcast to nd dims"""
    if not isinstance(a, SArr):
        return lambda idx: a
    rd = a.reader()
    off = nd - a.ndim
    ones = []
    for i, d in enumerate(a.shape_t):
        o = out_shape[off + i]
        if isinstance(d, int) and d == 1:
            ones.append("one")
        elif isinstance(d, int) or (not isinstance(o, int) and _z(o).eq(_z(d))):
            ones.append(None)
        elif C().entails(_z(d) == _z(o)):
            ones.append(None)
        elif C().entails(_z(d) == 1):
            ones.append("one")
        else:
            ones.append(None)
    return lambda idx: rd(tuple(0 if ones[i] else idx[off + i] for i in range(len(ones))))


def rkind(*ks):
    for k in ("obj", "str"):
        if k in ks:
            return k
    if "float" in ks:
        return "float"
    if "int" in ks:
        return "int"
    return "bool"


def vkind(v):
    if isinstance(v, SArr):
        return v.kind
    if isinstance(v, (SBool, bool)):
        return "bool"
    if isinstance(v, int) or (isinstance(v, SNum) and z3.is_int(v.e)):
        return "int"
    if isinstance(v, (float, SNum)):
        return "float"
    if isinstance(v, (str, SStr)):
        return "str"
    return "obj"


def elem2(op, a, b, kind=None):
    sa = a.shape_t if isinstance(a, SArr) else ()
    sb = b.shape_t if isinstance(b, SArr) else ()
    shp = bshape(sa, sb)
    if not shp:
        x = a.get(()) if isinstance(a, SArr) else a
        y = b.get(()) if isinstance(b, SArr) else b
        return op(x, y)
    ra, rb = brd(a, len(shp), shp), brd(b, len(shp), shp)
    k = kind or rkind(vkind(a), vkind(b))
    if k == "bool" and kind is None:
        k = "int"

    def fn(idx):
        r = op(ra(idx), rb(idx))
        if r is NotImplemented:
            raise TypeError("unsupported operand types")
        return r
    return SArr(shp, fn, k)


def elemn(op, args, kind):
    shp = bshape(*[a.shape_t if isinstance(a, SArr) else () for a in args])
    if not shp:
        return op(*[a.get(()) if isinstance(a, SArr) else a for a in args])
    rs = [brd(a, len(shp), shp) for a in args]
    return SArr(shp, lambda idx: op(*[r(idx) for r in rs]), kind)


# ------------------------------------------------------------------ scalar reductions
def _sum_num(n, get, hyp=()):
    """sum with NaN propagation; hyp: the position of the result is within its bounds"""
    if isinstance(n, int):
        r = 0
        for j in range(n):
            r = r + get(j)
        return r
    hasnan = [False]
    isint = [True]

    def body(b):
        v = get(b)
        p = num_parts(v)
        if p is None:
            raise Unsupported("sum of non-numbers")
        if p[1] is not None:
            hasnan[0] = True
        return simp(p[0])
    t = terms.mk_sum(n, body)
    nan = None
    if hasnan[0]:
        j = C().fresh_const("nj", I)
        if C().entails_q(z3.Implies(z3.And(j >= 0, j < _z(n), *hyp), z3.Not(_nanpart(get(j)))), 1000):
            return SN(t)
        cn = terms.mk_sum(n, lambda b: z3.If(_nanpart(get(b)), z3.IntVal(1), z3.IntVal(0)))
        nan = simp(cn > 0)
    return SN(t, nan)


def _nanpart(v):
    p = num_parts(v)[1]
    return p if p is not None else z3.BoolVal(False)


r_sum = _sum_num


def r_prod(n, get):
    if isinstance(n, int):
        r = 1
        for j in range(n):
            r = r * get(j)
        return r
    raise Unsupported("product over a symbolic axis")


class bvar:
    """bound variable named by its nesting depth: equal formulas are equal terms"""
    depth = 0

    def __enter__(self):
        bvar.depth += 1
        return z3.Int("$a%d" % bvar.depth)

    def __exit__(self, *a):
        bvar.depth -= 1


def r_any(n, get):
    if isinstance(n, int):
        return SB(z3.Or(*[bool_term(get(j)) for j in range(n)])) if n else False
    with bvar() as j:
        return SB(z3.Exists([j], z3.And(j >= 0, j < n, bool_term(get(j)))))


def r_all(n, get):
    if isinstance(n, int):
        return SB(z3.And(*[bool_term(get(j)) for j in range(n)])) if n else True
    with bvar() as j:
        return SB(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), bool_term(get(j)))))


_c = [0]


def _nx():
    _c[0] += 1
    return _c[0]


def r_max(n, get, sign=1, nonempty=True):
    if isinstance(n, int):
        if n == 0:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        r = get(0)
        for j in range(1, n):
            v = get(j)
            pr, pv = num_parts(r), num_parts(v)
            c = (pv[0] > pr[0]) if sign > 0 else (pv[0] < pr[0])
            if z3.is_int(pv[0]) != z3.is_int(pr[0]):
                c = (real(pv[0]) > real(pr[0])) if sign > 0 else (real(pv[0]) < real(pr[0]))
            m = merge(simp(c), v, r)
            nan = _or(pr[1], pv[1])
            if nan is not None:
                m = SN(num_parts(m)[0], nan)
            r = m
        return r
    c = C()
    if nonempty and not c.branch(_z(n) > 0):
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    q = z3.Int("$mx%d" % _nx())
    body, bnan = num_parts(get(q))
    if bnan is not None:
        raise Unsupported("maximum of values that may be NaN")
    # a maximum is a function of the parameters of its body (lambda lifted), so equal bodies share it
    M, W = max_term(_z(n), q, body, sign)
    return SN(M)


_maxs = {}


def max_term(n, q, body, sign):
    import hashlib
    body = simp(body)
    params = terms.max_free(body, q)
    if not (z3.is_int_value(n)) and not any(n.eq(x) for x in params):
        params = params + [n]
    ph = [z3.Const("$p%d" % i, p.sort()) for i, p in enumerate(params)]
    key = hashlib.md5((z3.substitute(body, (q, z3.Int("$B")), *zip(params, ph)).sexpr() + z3.substitute(n, *zip(params, ph)).sexpr() + str(sign)).encode()).hexdigest()[:12]
    Mf = z3.Function("MAX_" + key, *([p.sort() for p in params] + [body.sort()]))
    Wf = z3.Function("ARG_" + key, *([p.sort() for p in params] + [I]))
    M, W = Mf(*params), Wf(*params)
    name = "MAX_" + key
    if name not in terms.AX:
        r = z3.Int("$mq")
        sub = list(zip(params, ph))
        cl = lambda f: z3.substitute(f, *sub) if sub else f
        at = lambda t: z3.substitute(body, (q, t))
        qa = (lambda vs, f, **k: z3.ForAll(vs, f, **k) if vs else f)
        a1 = qa(ph, cl(z3.Implies(n > 0, z3.And(W >= 0, W < n, at(W) == M))), **({"patterns": [cl(M)]} if ph else {}))
        rel = (at(r) <= M) if sign > 0 else (at(r) >= M)
        a2 = z3.ForAll([r] + ph, cl(z3.Implies(z3.And(r >= 0, r < n), rel)))
        terms.register(name, a1, a2)
        terms.register("ARG_" + key, a1, a2)
    C().assume_once(z3.Implies(n > 0, z3.And(W >= 0, W < n, z3.substitute(body, (q, W)) == M)), "ax")
    for e in (n - 1, z3.IntVal(0)):
        x = z3.substitute(body, (q, e))
        C().assume_once(z3.Implies(n > 0, x <= M if sign > 0 else x >= M), "ax")
    return M, W


def r_min(n, get):
    return r_max(n, get, -1)
