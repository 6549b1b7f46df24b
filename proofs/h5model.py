"""contract of h5py as mlmc/tool/hdf5.py uses it: files are trees of groups and growable data sets that persist between openings.
Files are python objects here; nothing is written to disk."""
import types
from pydv.api import *

TRUNC = z3.Function("cut_to_bytes", I, Str, Str)          # first n bytes of a text (nothing known when it does not fit)
TEXT_BYTES = 100                                          # identifiers are at most this long


class Row(Sym):
    """one record of a structured data set"""
    def __init__(self, vals, names):
        self.vals, self.names = tuple(vals), tuple(names)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.names:
                raise ValueError("no field of name " + k)
            return self.vals[self.names.index(k)]
        return self.vals[k]

    def __iter__(self):
        return iter(self.vals)

    def __pv_len__(self):
        return len(self.vals)

    def tolist(self):
        return tuple(self.vals)
    item = tolist

    def __pv_subst__(self, pairs):
        return Row(subst(self.vals, pairs), self.names)

    def __pv_merge__(self, c, b):
        return Row(merge(c, self.vals, b.vals), self.names)

    def __pv_key__(self, f):
        return "row" + f(self.vals)

    def __eq__(self, o):
        return isinstance(o, Row) and len(self.vals) == len(o.vals) and SB(z3.And(*[bool_term(a == b) for a, b in zip(self.vals, o.vals)]))
    __hash__ = None


def stored(v, fmt):
    """what is read back of a value stored in a field of the given format"""
    if isinstance(fmt, str) and fmt[:1] == "S":
        w = int(fmt[1:])
        if isinstance(v, bytes):
            v = v.decode()
        if isinstance(v, SStr) and v.made and v.made[0] == "wild":
            v = v.encode()
        s = v.s if isinstance(v, SBytes) else v
        if not isinstance(s, (SStr, str)):
            raise TypeError("No conversion path for %s" % type(v).__name__)
        if w >= TEXT_BYTES:
            return SBytes(s if isinstance(s, SStr) else SStr(values.lit(s)))
        return SBytes(SStr(TRUNC(z3.IntVal(w), str_term(s))))
    if npmodel.kind_of(fmt) in ("float", "int"):
        return v
    raise Unsupported("field format %r" % (fmt,))


class Dataset(Base):
    def __init__(self, name, rows, dtype, maxshape):
        self.name, self.rows, self.maxshape = name, rows, maxshape
        self.dt = dtype

    # rows: PList; growing fills with unspecified rows
    @property
    def rec(self):
        return isinstance(self.dt, npmodel.RecDType)

    @property
    def dtype(self):
        return self.dt

    @property
    def shape(self):
        return (p_len(self.rows),)

    @property
    def size(self):
        return p_len(self.rows)

    def __pv_len__(self):
        return p_len(self.rows)

    def __len__(self):
        n = _z(p_len(self.rows))
        n = simp(n)
        if z3.is_int_value(n):
            return n.as_long()
        raise Unsupported("native len of a data set")

    def _blank(self):
        if self.rec:
            return Row([SBytes(fstr("unset")) for _ in self.dt.names], self.dt.names)
        if self.dt.sub:
            return farr("unset", *self.dt.sub)
        return freal("unset")

    def resize(self, size, axis=None):
        if self.maxshape is None or self.maxshape[0] is not None:
            raise TypeError("Only chunked data sets can be resized")
        if axis is None and isinstance(size, tuple):
            size = size[0]
        elif axis != 0:
            raise Unsupported("resize along axis %r" % (axis,))
        if isinstance(size, SArr) and size.ndim == 0:
            size = size.get(())
        m, s = _z(size), self.rows.seq()
        c = C()
        if not c.entails(m >= 0):
            raise Unsupported("size of a data set")
        if c.entails(m >= s.nt):
            u = self._blank()
            extra = simp(m - s.nt)
            k = extra.as_long() if z3.is_int_value(extra) else extra
            more = Seq.const([u] * k) if isinstance(k, int) else Seq(extra, lambda i: u)
            self.rows = PList(_seq=Seq.cat(s, more))
        elif c.entails(m <= s.nt):
            self.rows = PList(_seq=s.slice(z3.IntVal(0), m))
        else:
            raise Unsupported("size of a data set")

    def _row(self, v):
        if self.rec:
            names, fm = self.dt.names, self.dt.formats
            if isinstance(v, Row):
                v = v.vals
            if not isinstance(v, tuple):
                if len(names) > 1:
                    raise TypeError("a record needs a tuple")
                v = (v,)
            if len(v) != len(names):
                raise ValueError("could not assign tuple of length %d to structure" % len(v))
            return Row([stored(x, f) for x, f in zip(v, fm)], names)
        if self.dt.sub:
            a = np.asarray(v)
            if not isinstance(a, SArr) or a.ndim != len(self.dt.sub):
                raise TypeError("Can't broadcast")
            for x, y in zip(a.shape_t, self.dt.sub):
                if not C().entails(_z(x) == _z(y)):
                    raise Unsupported("shape of a stored array")
            return a.copy()
        return values.to_float(v)

    def __setitem__(self, key, val):
        s = self.rows.seq()
        if isinstance(key, tuple) and len(key) == 0 or key is Ellipsis:
            key = slice(None)
        if not isinstance(key, slice):
            raise Unsupported("index of a data set")
        a, b = values.norm_slice(key, s.nt)
        v = as_seq(val)
        if v is None:
            raise Unsupported("value written to a data set")
        if not C().branch(v.nt == b - a):
            raise TypeError("Can't broadcast")
        k = z3.Int("$row")
        v2 = v.map(self._row)
        left, right = s.slice(z3.IntVal(0), a), s.slice(b, s.nt)
        self.rows = PList(_seq=Seq.cat(Seq.cat(left, v2), right))

    def __getitem__(self, key):
        s = self.rows.seq()
        if isinstance(key, str) and self.rec:
            i = self.dt.names.index(key)
            return PList(_seq=s.map(lambda r: r[i]))
        if isinstance(key, tuple) and len(key) == 0 or key is Ellipsis:
            key = slice(None)
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, slice):
            a, b = values.norm_slice(key, s.nt)
            s = s.slice(a, b)
            if self.rec:
                return PList(_seq=s)
            if self.dt.sub:
                return SArr([s.n] + list(self.dt.sub), lambda idx: s.get(idx[0]).get(tuple(idx[1:])), self.dt.kind)
            return SArr([s.n], lambda idx: s.get(idx[0]), self.dt.kind)
        if isinstance(key, (int, SNum)):
            return self.rows[key]
        raise Unsupported("index of a data set")

    def __iter__(self):
        return iter(self[()])

    def iter_chunks(self, sel=None):
        """consecutive slices of a size the library chooses"""
        if sel is not None:
            raise Unsupported("iter_chunks of a selection")
        n = self.rows.seq().nt
        c = C().fresh("chunk_rows", I)
        m = C().fresh("n_chunks", I)
        C().assume(z3.And(c >= 1, m >= 0, c * m >= n, z3.Or(m == 0, c * (m - 1) < n), z3.Implies(n == 0, m == 0)))
        CHUNKS.append((c, m))

        def at(j):
            j = _z(j)
            hi = c * (j + 1)
            return (slice(SN(c * j), SN(z3.If(hi <= n, hi, n)), 1),)
        return SIter(Seq(m, at))


CHUNKS = []


class Attrs(Base):
    def __init__(self, owner):
        self.d = PDict()
        self.owner = owner

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        v = self.d[k]
        return v.copy() if isinstance(v, SArr) else v

    def __setitem__(self, k, v):
        writable(self.owner)
        self.d[k] = np.array(v) if isinstance(v, (PList, SArr)) else v

    def get(self, k, default=None):
        return self[k] if k in self.d else default

    def items(self):
        return self.d.items()

    def keys(self):
        return self.d.keys()


def writable(f):
    if f.mode == "r" or f.depth == 0:
        raise OSError("no write intent on file")


class Tree(Base):
    """a group of the file, or the root"""
    def __init__(self, fil):
        self.kids = PDict()
        self.fil = fil
        self.attrs = Attrs(fil)

    def _find(self, path):
        if not isinstance(path, str):
            raise Unsupported("path %r" % (path,))
        if self.fil.depth == 0:
            raise ValueError("Not a location (file is closed)")
        g = self.fil.root if path.startswith("/") else self
        for p in path.split("/"):
            if p:
                if not isinstance(g, Tree) or p not in g.kids:
                    return None
                g = g.kids[p]
        return g

    def __contains__(self, path):
        return self._find(path) is not None

    def __getitem__(self, path):
        g = self._find(path)
        if g is None:
            raise KeyError("Unable to open object (object %r doesn't exist)" % (path,))
        return g

    def get(self, path, default=None):
        g = self._find(path)
        return default if g is None else g

    def __delitem__(self, path):
        writable(self.fil)
        if self._find(path) is None:
            raise KeyError("Couldn't delete link")
        head, _, last = path.rpartition("/")
        del (self._find(head) if head else self).kids[last]

    def keys(self):
        return PList(list(dict.keys(self.kids)))

    def __iter__(self):
        return iter(list(dict.keys(self.kids)))

    def create_group(self, name):
        writable(self.fil)
        if name in self:
            raise ValueError("Unable to create group (name already exists)")
        head, _, last = name.rpartition("/")
        g = self._find(head) if head else self
        g.kids[last] = Tree(self.fil)
        return g.kids[last]

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, maxshape=None, chunks=None, data=None):
        writable(self.fil)
        if name in self:
            raise ValueError("Unable to create dataset (name already exists)")
        if data is not None or not (isinstance(shape, tuple) and len(shape) == 1):
            raise Unsupported("data set with data or several axes")
        if maxshape is not None and not chunks and chunks is not None:
            raise ValueError("Chunked format required")
        if isinstance(dtype, dict):
            dtype = npmodel.RecDType(dtype)
        elif not isinstance(dtype, npmodel.RecDType):
            dtype = np.dtype(dtype)
        d = Dataset(name, PList(), dtype, maxshape)
        self.kids[name] = d
        if not (isinstance(shape[0], int) and shape[0] == 0):
            u = d._blank()
            n = shape[0]
            d.rows = PList([u] * n) if isinstance(n, int) else PList(_seq=Seq(_z(n), lambda i: u))
        return d


class FileState(Base):
    """one file: its tree and how it is opened"""
    def __init__(self, name):
        self.name, self.mode, self.depth = name, "r", 0
        self.root = Tree(self)


class Library(Base):
    """h5py"""
    def __init__(self):
        self.files = PDict()

    def exists(self, name):
        return name in self.files


def make_h5py():
    lib = Library()

    class File(Base):
        def __init__(self, name, mode="r"):
            if mode not in ("r", "r+", "a", "w", "w-", "x"):
                raise ValueError("Invalid mode")
            if name not in lib.files:
                if mode in ("r", "r+"):
                    raise FileNotFoundError("Unable to open file")
                lib.files[name] = FileState(name)
            elif mode in ("w-", "x"):
                raise FileExistsError("Unable to create file")
            st = lib.files[name]
            if st.depth and (st.mode == "r") != (mode == "r"):
                raise Unsupported("the file is open in another mode")
            if mode == "w":
                st.root = Tree(st)
            st.mode = mode
            st.depth = st.depth + 1
            self.st, self.open = st, True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
            return False

        def close(self):
            if self.open:
                self.open = False
                self.st.depth = self.st.depth - 1

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return getattr(self.st.root, n)

        def __getitem__(self, p):
            return self.st.root[p]

        def __delitem__(self, p):
            del self.st.root[p]

        def __contains__(self, p):
            return p in self.st.root

        def __iter__(self):
            return iter(self.st.root)

    m = types.SimpleNamespace(File=File, Group=Tree, Dataset=Dataset)
    return m, lib
