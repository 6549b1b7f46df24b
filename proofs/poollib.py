"""contracts of the standard library as the pools use it: hashlib, traceback, queue (with interference of other threads), os/shutil (recorded,
never executed), multiprocessing pools"""
import sys
import types
from pydv.api import *
from proofs.states import *
from proofs.stubs import clock

WORD = z3.Function("md5_word", Str, I, I)
TEXT = z3.Function("error_text", Obj, Str)
JOIN = z3.Function("path_join", Str, Str, Str)
ABS = z3.Function("abspath", Str, Str)


# ---------------------------------------------------------------- hashlib
class Digest:
    def __init__(self, s):
        self.s = s

    def __pv_words__(self, dtype):
        if str(getattr(dtype, "name", getattr(dtype, "__name__", dtype))) != "uint32":
            raise Unsupported("digest as %s" % (dtype,))
        return SArr([4], lambda idx: SN(WORD(str_term(self.s), _z(idx[0]))), "int")


class Hash:
    def __init__(self, s):
        self.s = s

    def digest(self):
        return Digest(self.s)


def md5(b):
    if not isinstance(b, SBytes):
        raise Unsupported("md5 of %s" % type(b).__name__)
    return Hash(b.s)


hashlib_model = types.SimpleNamespace(md5=md5)


# ---------------------------------------------------------------- traceback
class SimError(Exception):
    """an arbitrary exception raised by a simulation"""
    def __init__(self, e):
        self.e = e


def exc_text(e):
    """text of an exception: not empty"""
    t = TEXT(e.e) if isinstance(e, SimError) else C().fresh("error_text", Str)
    C().assume(t != values.lit(""))
    return SStr(t)


def format_exception(*a, **k):
    e = a[1] if len(a) > 1 else a[0]
    return PList([exc_text(e)])


def format_exc(*a, **k):
    return exc_text(sys.exc_info()[1])


traceback_model = types.SimpleNamespace(format_exception=format_exception, format_exc=format_exc, print_exc=lambda *a, **k: None)


# ---------------------------------------------------------------- files
class SimOSError(OSError):
    pass


class FS(Base):
    """a file system with arbitrary content and symbolic paths; nothing is executed.  Operations are logged as (operation, path, path); `state` knows the
    directories seen so far: None absent, otherwise a tag naming the content"""
    def __init__(self):
        self.ops = PList()
        self.fail = False      # operations may raise
        self.cwd = None
        self.copies = PList()  # (file, destination)
        self.state = PDict()   # term of the path -> content tag, "" absent

    def rec(self, op, a="", b=""):
        self.ops.append((op, a, b))
        if self.fail and C().branch(C().fresh(op + "_fails", B)):
            raise SimOSError("cannot " + op)

    def content(self, p):
        k = key(p)
        if k not in self.state:
            self.state[k] = "old:" + k if C().branch(C().fresh("exists", B)) else ""
        return self.state[k]

    def exists(self, p):
        return self.content(p) != ""

    def makedirs(self, p, mode=0, exist_ok=False):
        self.rec("makedirs", p)
        if self.content(p) == "":
            self.state[key(p)] = "new"
        elif not exist_ok:
            raise SimOSError("exists")

    def rmtree(self, p, ignore_errors=False):
        self.rec("rmtree", p)
        if not ignore_errors and self.content(p) == "":
            raise SimOSError("no directory")
        self.state[key(p)] = ""

    def copytree(self, a, b, **k):
        self.rec("copytree", a, b)
        x, y = self.content(a), self.content(b)
        if x == "":
            raise SimOSError("no directory")
        if y != "":
            if not k.get("dirs_exist_ok"):
                raise SimOSError("exists")
            x = x + "+" + y
        self.state[key(b)] = x

    def move(self, a, b):
        self.rec("move", a, b)
        x, y = self.content(a), self.content(b)
        if x == "" or y != "":
            raise Unsupported("shutil.move to an existing directory")
        self.state[key(b)] = x
        self.state[key(a)] = ""

    def copy(self, a, b):
        self.rec("copy", a, b)
        self.copies.append((a, b))
        return b

    def chdir(self, p):
        self.rec("chdir", p)
        self.cwd = p


def key(p):
    return str_term(p).sexpr()


def is_abs(p):
    while isinstance(p, SStr) and p.made and p.made[0] == "join":
        p = p.made[1]
    return isinstance(p, SStr) and p.made == ("abs",) or isinstance(p, str) and p.startswith("/")


def path_join(a, *bs):
    for b in bs:
        if is_abs(b):
            a = b
        elif not (isinstance(b, str) and b == ""):
            a = SStr(JOIN(str_term(a), str_term(b)), ("join", a, b))
    return a


def fs_models():
    fs = FS()
    path = types.SimpleNamespace(join=path_join, abspath=lambda p: SStr(ABS(str_term(p)), ("abs",)) if not is_abs(p) else p, exists=fs.exists, isdir=fs.exists, isfile=lambda p: fbool("isfile"))
    os_ = types.SimpleNamespace(path=path, getcwd=lambda: CWD, makedirs=fs.makedirs, mkdir=lambda p, mode=0: fs.makedirs(p), chdir=fs.chdir,
                                remove=lambda p: fs.rec("remove", p), rmdir=lambda p: fs.rec("rmdir", p), rename=fs.move, sep="/")
    sh = types.SimpleNamespace(rmtree=fs.rmtree, copy=fs.copy, copyfile=fs.copy, copy2=fs.copy, copytree=fs.copytree, move=fs.move)
    return fs, os_, sh


CWD = SStr(z3.Const("cwd", Str), ("abs",))


# ---------------------------------------------------------------- queues
class Mutex:
    def __init__(self, q):
        self.q = q

    def __enter__(self):
        self.q.step()
        self.q.held = True
        return self

    def __exit__(self, *a):
        self.q.held = False
        return False

    acquire = __enter__

    def release(self):
        self.q.held = False


class Items:
    """the deque inside a queue; outside the mutex other threads may put before every access"""
    def __init__(self, q):
        self.q = q

    def clear(self):
        self.q.step()
        self.q.lo = self.q.hi

    def popleft(self):
        return self.q.get()

    def __pv_seq__(self):
        self.q.step()
        lo, hi, it = _z(self.q.lo), _z(self.q.hi), self.q.item
        return Seq(simp(hi - lo), lambda i: it(simp(lo + _z(i))))

    def __pv_len__(self):
        self.q.step()
        return self.q.hi - self.q.lo


class SharedQueue(Base):
    """a queue other threads put to.  Everything ever put is the sequence item(0), item(1), ...; the content is item(lo) .. item(hi-1).
    Outside the mutex hi may grow at any access; inside it cannot."""
    __pv_adopt__ = True

    def __init__(self, item, lo, hi):
        self.item, self.lo, self.hi, self.held = item, lo, hi, False

    def step(self):
        if not self.held:
            n = fint("arrived", 0)
            self.hi = self.hi + n

    @property
    def mutex(self):
        return Mutex(self)

    @property
    def queue(self):
        return Items(self)

    def get(self, *a, **k):
        self.step()
        if not C().branch(_z(self.hi) > _z(self.lo)):
            raise Empty()
        x = self.item(_z(self.lo))
        self.lo = self.lo + 1
        return x

    def get_nowait(self):
        return self.get()

    def empty(self):
        self.step()
        return SB(_z(self.hi) == _z(self.lo))

    def qsize(self):
        self.step()
        return self.hi - self.lo


class Empty(Exception):
    pass


class Queue(Base):
    """a queue this thread puts to"""
    __pv_adopt__ = True

    def __init__(self, maxsize=0, items=None):
        self.items = PList() if items is None else items

    def put(self, x, *a, **k):
        self.items.append(x)

    def put_nowait(self, x):
        self.items.append(x)


queue_model = types.SimpleNamespace(Queue=Queue, SimpleQueue=Queue, Empty=Empty)


# ---------------------------------------------------------------- worker pools
class Workers(Base):
    """contract of multiprocessing pools: the task is run once, its result goes to the callback, an exception to the error callback"""
    def __init__(self, *a, **k):
        self.tasks = PList()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        self.tasks.append((func, args, kwds or {}, callback, error_callback))

    def close(self):
        return None

    def join(self):
        return None

    def terminate(self):
        return None


mp_model = types.SimpleNamespace(Pool=Workers, pool=types.SimpleNamespace(ThreadPool=Workers, Pool=Workers))


def pool_world():
    fs, os_, sh = fs_models()
    w = make_world({"time": clock(), "hashlib": hashlib_model, "traceback": traceback_model, "os": os_, "os.path": os_.path, "shutil": sh,
                    "queue": queue_model, "multiprocessing": mp_model, "multiprocessing.pool": mp_model.pool})
    return w, fs


# ---------------------------------------------------------------- level simulation
class Spec(Base):
    def __init__(self, shape, times, locations):
        self.shape, self.times, self.locations = shape, times, locations


class LevelSim(Base):
    """an arbitrary level simulation: its calculate raises anything or returns arrays of any length"""
    def __init__(self, workspace=None, may_fail=True, level=None, calc=True):
        c = C()
        self.config_dict = Opaque("config")
        self.common_files = flist(fint("n_files", 0), lambda i: SStr(z3.Function("common_file", I, Str)(_z(i))))
        self.need_sample_workspace = fbool("need_workspace") if workspace is None else workspace
        self.task_size = freal("task_size")
        self._level_id = level if level is not None else fint("level_id", 0)
        self.calls = PList()
        self.may_fail = may_fail
        self.raised = None
        self.nf, self.nc = fint("n_fine", 0), fint("n_coarse", 0)
        self.fine, self.coarse = farr("fine", self.nf, nan=True), farr("coarse", self.nc, nan=True)
        self.nq = fint("n_quantities", 0)
        self.d0, self.d1, self.nt, self.nl = [ffun(n, I, I) for n in ("rows", "cols", "n_times", "n_locations")]
        for f in (self.d0, self.d1, self.nt, self.nl):
            q = z3.Int("$q")
            c.assume(z3.ForAll([q], f.raw(q) >= 0, patterns=[f.raw(q)]))

    def _calculate(self, config, seed):
        self.calls.append((config, seed))
        if self.may_fail and C().branch(C().fresh("simulation_raises", B)):
            e = SimError(C().fresh("exception", Obj))
            self.raised = e
            raise e
        return self.fine, self.coarse

    def _result_format(self):
        def spec(j):
            return Spec((self.d0(j), self.d1(j)), flist(self.nt(j), lambda i: freal("t")), flist(self.nl(j), lambda i: fstr("loc")))
        return flist(self.nq, spec)

    def length(self):
        """the prescribed length"""
        return terms.mk_sum(_z(self.nq), lambda j: _z(self.d0(j)) * _z(self.d1(j)) * _z(self.nt(j)) * _z(self.nl(j)))


class CalcContract(Base):
    """contract of SamplingPool.calculate_sample (proved under P02/P04): its own identifier, the results, an error text or "", a time"""
    def __init__(self):
        self.calls = PList()

    def __call__(self, sample_id, level_sim, work_dir=None, seed=None):
        self.calls.append((sample_id, level_sim, work_dir, seed))
        t = freal("running_time")
        if C().branch(C().fresh("sample_fails", B)):
            e = SStr(C().fresh("error", Str))
            C().assume(e.e != values.lit(""))
            self.out = (sample_id, (level_sim.fine, level_sim.coarse) if C().branch(C().fresh("has_result", B)) else (None, None), e, t)
        else:
            self.out = (sample_id, (level_sim.fine, level_sim.coarse), "", t)
        return self.out


def files_contract(sp, fs):
    """contracts of the file operations after a sample (proved under P17): recorded only"""
    sp.SamplingPool.move_successful_rm = staticmethod(lambda sample_id, level_sim, output_dir, dest_dir: fs.rec("move_successful_rm", sample_id))
    sp.SamplingPool.move_failed_rm = staticmethod(lambda sample_id, level_sim, output_dir, dest_dir: fs.rec("move_failed_rm", sample_id))


def make_pool(sp, cls):
    """a new pool; the directories are prepared as P17 says"""
    return getattr(sp, cls)() if cls == "OneProcessPool" else getattr(sp, cls)(2)


def run_tasks(p):
    for t in p._pool.tasks if hasattr(p, "_pool") else []:
        f, a, k, cb, ecb = t
        try:
            r = f(*a, **k)
        except Exception as e:
            ecb(e)
            continue
        cb(r)
