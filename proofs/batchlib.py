"""contracts of what the batch pool uses: files with symbolic paths (nothing is executed), json/yaml/pickle round trips, qsub/qstat with arbitrary
outcome, glob and a few regular expressions over names of known structure"""
import types
from pydv.api import *
from pydv import text
from proofs.states import *
from proofs.poollib import path_join, is_abs, LevelSim, SimOSError, hashlib_model, traceback_model, queue_model, mp_model, ABS
from proofs.stubs import clock


class Mod:
    """module of which only the given names are under contract"""
    def __init__(self, name, **k):
        self.__dict__.update(k)
        self.__dict__["_name"] = name

    def __getattr__(self, n):
        raise Unsupported("%s.%s is not under contract" % (self._name, n))


def directory(name, *more):
    """an arbitrary absolute path without digits in it that could be taken for a job number, without ; braces blank or newline"""
    return text.plain(SStr(C().fresh(name, Str), ("abs",)), "; \n*{}0123456789")


class Handle:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        if "r" in mode and fs.content(path) is None:
            raise SimFileNotFound(path)
        if "w" in mode:
            fs.put(path, ("empty",))
        if "a" in mode and fs.content(path) is None:
            fs.put(path, ("empty",))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        return None

    def write(self, t):
        c = self.fs.content(self.path)
        if c[0] == "empty":
            self.fs.put(self.path, ("text", t))
        elif c[0] == "text":
            self.fs.put(self.path, ("text", c[1] + t))
        else:
            raise Unsupported("text written to structured data")

    def read(self):
        c = self.fs.content(self.path)
        if c[0] == "empty":
            return ""
        if c[0] != "text":
            raise Unsupported("read() of structured data")
        return c[1]

    def readline(self):
        t = self.read()
        ls = text.split(t, "\n") if isinstance(t, SStr) else t.split("\n")
        return ls[0] if len(ls) == 1 else ls[0] + "\n"


class SimFileNotFound(FileNotFoundError):
    pass


class BFS(Base):
    """files under symbolic paths; paths with different structure name different files"""
    def __init__(self):
        self.files = PDict()
        self.cwd = None
        self.removed = PList()
        self.scripts = PList()
        self.listings = []

    def abs(self, p):
        if is_abs(p) or self.cwd is None:
            return p
        return path_join(self.cwd, p)

    def key(self, p):
        return text.key(self.abs(p))

    def content(self, p):
        k = self.key(p)
        if k not in self.files:
            raise Unsupported("file %s" % k)
        c = self.files[k]
        return c

    def has(self, p):
        return self.key(p) in self.files

    def put(self, p, c):
        self.files[self.key(p)] = c

    def exists(self, p):
        return self.content(p) is not None

    def remove(self, p):
        self.removed.append(self.abs(p))

    def chdir(self, p):
        self.cwd = p


def yaml_model(fs):
    def dump(data, f, *a, **k):
        if not isinstance(data, PList):
            raise Unsupported("yaml of %s" % type(data).__name__)
        c = fs.content(f.path)
        if c[0] == "empty":
            fs.put(f.path, ("yaml", PList(_seq=data.seq())))
        elif c[0] == "yaml" and "a" in f.mode:
            c[1].extend(data)
        else:
            raise Unsupported("yaml appended to other data")

    def load(f, *a, **k):
        c = fs.content(f.path)
        if c[0] != "yaml":
            raise Unsupported("yaml of other data")
        return PList(_seq=c[1].seq())
    return Mod("yaml", dump=dump, load=load, Loader="Loader", UnsafeLoader="Loader", Dumper="Dumper")


def json_model(fs):
    def dump(data, f, *a, **k):
        if fs.content(f.path)[0] != "empty" or not isinstance(data, PDict):
            raise Unsupported("json")
        fs.put(f.path, ("json", values.freeze(data)))

    def load(f, *a, **k):
        c = fs.content(f.path)
        if c[0] != "json":
            raise Unsupported("json of other data")
        return values.freeze(c[1])
    return Mod("json", dump=dump, load=load)


def pickle_model(fs):
    def dump(x, f, *a, **k):
        fs.put(f.path, ("pickle", x))

    def load(f, *a, **k):
        c = fs.content(f.path)
        if c[0] != "pickle":
            raise Unsupported("pickle of other data")
        return c[1]
    return Mod("pickle", dump=dump, load=load)


# ---------------------------------------------------------------- regular expressions over names of known structure
def _atoms(s):
    out = []
    for p in text.pieces(s):
        if p[0] == "t":
            out.extend(("t", ch) for ch in p[1])
        elif text.is_digits(p):
            out.append(("D", p))
        else:
            out.append(("S", p))
    return out


def _parse(pattern):
    """literals, .  \\d+  and one group (\\d+)"""
    import re._parser as sp
    out = []
    for op, av in sp.parse(pattern):
        out.append(_one(op, av))
    return out


def _one(op, av):
    n = str(op)
    if n == "LITERAL":
        return ("lit", chr(av))
    if n == "ANY":
        return ("any",)
    if n == "MAX_REPEAT" and av[0] == 1 and str(av[1]) == "MAXREPEAT" and len(av[2]) == 1:
        o, v = av[2][0]
        if str(o) == "IN" and [(str(a), str(b)) for a, b in v] in ([("CATEGORY", "CATEGORY_DIGIT")], [("RANGE", "(48, 57)")]):
            return ("digits",)
    if n == "SUBPATTERN" and len(av[3]) == 1:
        return ("group", _one(*av[3][0]))
    if n == "AT" and str(av) == "AT_END":
        return ("end",)
    raise Unsupported("regular expression")


def _match(toks, at, i):
    """end position and groups of a match at position i, or None"""
    groups = []
    for t in toks:
        g = t[0] == "group"
        t = t[1] if g else t
        if t[0] == "end":
            if i != len(at):
                return None
            continue
        if i >= len(at):
            return None
        j = i
        if t[0] == "digits":
            while j < len(at) and (at[j][0] == "D" or at[j][0] == "t" and at[j][1].isdigit()):
                j += 1
            if j < len(at) and at[j][0] == "S" and not text.free_of(at[j][1], "0123456789"):
                raise Unsupported("regular expression over symbolic text")
            if j == i:
                return None
        elif at[i][0] == "S" and not (t[0] == "lit" and text.free_of(at[i][1], t[1])):
            raise Unsupported("regular expression over symbolic text")
        elif t[0] == "lit":
            if at[i] != ("t", t[1]):
                return None
            j = i + 1
        else:
            if at[i][0] != "t":
                raise Unsupported("regular expression over symbolic text")
            j = i + 1
        if g:
            groups.append(text.build([a[1] if a[0] != "t" else ("t", a[1]) for a in at[i:j]]) if not all(a[0] == "t" for a in at[i:j]) else "".join(a[1] for a in at[i:j]))
        i = j
    return i, groups


def _search(pattern, s, only_start=False):
    if isinstance(s, str):
        s = SStr(values.lit(s), ("pieces", (("t", s),)))
    toks, at = _parse(pattern), _atoms(s)
    out, i = [], 0
    while i <= len(at):
        if i < len(at) and at[i][0] == "S":
            if not text.free_of(at[i][1], "0123456789"):
                raise Unsupported("regular expression over symbolic text")
            if only_start:
                return out
            i += 1
            continue
        r = _match(toks, at, i)
        if r is None:
            if only_start:
                return out
            # a match cannot start inside a run of digits that did not match
            i += 1
            continue
        out.append((build_of(at[i:r[0]]), r[1]))
        i = max(r[0], i + 1)
        if only_start:
            return out
    return out


def build_of(at):
    ps = []
    for a in at:
        if a[0] == "t":
            if ps and ps[-1][0] == "t":
                ps[-1] = ("t", ps[-1][1] + a[1])
            else:
                ps.append(("t", a[1]))
        else:
            ps.append(a[1])
    return text.build(ps) if ps else ""


class Match:
    def __init__(self, whole, groups):
        self.all = [whole] + groups

    def group(self, k=0):
        return self.all[k]

    def groups(self):
        return tuple(self.all[1:])

    __getitem__ = group


def re_model(findall_other=None):
    def findall(p, s, *a):
        if a:
            raise Unsupported("regular expression flags")
        if findall_other is not None:
            r = findall_other(p, s)
            if r is not None:
                return r
        return PList([(g[0] if len(g) == 1 else tuple(g)) if g else w for w, g in _search(p, s)])

    def search(p, s, *a):
        r = _search(p, s)
        return Match(*r[0]) if r else None

    def match(p, s, *a):
        r = _search(p, s, True)
        return Match(*r[0]) if r else None
    return Mod("re", findall=findall, search=search, match=match)


# ---------------------------------------------------------------- commands
class Bytes:
    def __init__(self, s):
        self.s = s

    def decode(self, *a, **k):
        return self.s


class Proc(Base):
    def __init__(self, rc, out, err):
        self.returncode, self.stdout, self.stderr = rc, out, err


class Commands:
    """qsub accepts or refuses a job; a number of its own is printed for an accepted one"""
    def __init__(self):
        self.calls = PList()
        self.PIPE = -1
        self.rc = None
        self.pbs_id = None
        self.STDOUT = -2

    def run(self, args, *a, **k):
        args = list(args)
        self.calls.append(tuple(args))
        if args[0] != "qsub":
            raise Unsupported("command %s" % (args[0],))
        self.rc = fint("returncode")
        self.pbs_id = text.plain(SStr(C().fresh("pbs_id", Str)), "digits")
        out = SStr(C().fresh("out", Str), ("pieces", (("v", self.pbs_id), ("t", ".pbs-server.example.org\n"))))
        return Proc(self.rc, Bytes(out), Bytes(fstr("stderr")))


def batch_world(fs=None, commands=None, globs=None, findall_other=None, argv=None):
    fs = fs or BFS()
    path = Mod("os.path", join=path_join, exists=fs.exists, isfile=fs.exists, basename=text.basename, abspath=lambda p: p if is_abs(p) else SStr(ABS(str_term(p)), ("abs",)))
    os_ = Mod("os", path=path, chmod=lambda *a: None, remove=fs.remove, unlink=fs.remove, chdir=fs.chdir, makedirs=lambda *a, **k: None, getcwd=lambda: fs.cwd)
    yaml = yaml_model(fs)
    err = Mod("ruamel.yaml.error", ReusedAnchorWarning=UserWarning, UnsafeLoaderWarning=UserWarning)
    ru = Mod("ruamel", yaml=yaml)
    yaml.error = err
    cmd = commands or Commands()
    w = make_world({"time": clock(), "hashlib": hashlib_model, "traceback": traceback_model, "os": os_, "os.path": path, "queue": queue_model,
                    "multiprocessing": mp_model, "multiprocessing.pool": mp_model.pool, "json": json_model(fs), "pickle": pickle_model(fs),
                    "ruamel.yaml": yaml, "ruamel": ru, "ruamel.yaml.error": err, "subprocess": cmd,
                    "glob": Mod("glob", glob=lambda p, **k: globs(fs.abs(p)) if globs else (_ for _ in ()).throw(Unsupported("glob"))),
                    "re": re_model(findall_other), "sys": Mod("sys", argv=argv if argv is not None else PList()), "warnings": Mod("warnings", simplefilter=lambda *a, **k: None)},
                   {"open": lambda p, mode="r", *a, **k: Handle(fs, p, mode)})
    w.fs, w.cmd = fs, cmd
    return w
