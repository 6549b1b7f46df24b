"""pydv.instr - mechanical extraction: reads the real source files, rewrites loops, comprehensions, generators and string
formatting into calls of the verifier's runtime, and executes the result with symbolic library models.

What the rewriting keeps: every statement and expression of the function, in order.  What it drops or changes:
docstrings stay; print() does nothing; generators are evaluated eagerly; decorators of the `memoization` package are
identities; random number generators deliver arbitrary values; module level code of the third-party libraries is
replaced by the models."""
import ast
import builtins
import os
import sys
import types
from .core import Unsupported, Control

REPO = os.environ.get("PYDV_REPO", "/repo")


class _Names(ast.NodeVisitor):
    """names bound in a function body (not in nested scopes)"""
    def __init__(self):
        self.bound = []
        self.globals = set()
        self.nonlocals = set()

    def add(self, n):
        if n not in self.bound:
            self.bound.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        pass
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.add(a.asname or a.name)


def bound_names(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v


class _HasYield(ast.NodeVisitor):
    def __init__(self):
        self.y = False

    def visit_Yield(self, n):
        self.y = True

    visit_YieldFrom = visit_Yield

    def visit_FunctionDef(self, n):
        pass

    def visit_Lambda(self, n):
        pass


def has_yield(fn):
    v = _HasYield()
    for s in fn.body:
        v.visit(s)
    return v.y


def pv(name):
    return ast.Attribute(ast.Name("__pv__", ast.Load()), name, ast.Load())


def call(name, *args):
    return ast.Call(pv(name), list(args), [])


def name(n):
    return ast.Name(n, ast.Load())


def const(v):
    return ast.Constant(v)


def lam(args, body):
    return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)


class _LoopBody(ast.NodeTransformer):
    """continue/break/return inside a loop body that became a function"""
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(pv("CONT")), n)

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(pv("BRK")), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(call("RET", n.value or const(None))), n)


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.scope = []      # stack of dict(kind, locals, prelude names)
        self.functions = []
        self.qual = []

    def uid(self, p):
        self.n += 1
        return "__%s%d" % (p, self.n)

    # ---- scopes
    def visit_Module(self, n):
        self.scope.append({"kind": "module"})
        n.body = self.block(n.body)
        self.scope.pop()
        return n

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.scope.append({"kind": "class"})
        self.qual.append(n.name)
        n.body = self.block(n.body)
        self.qual.pop()
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d else d for d in n.args.kw_defaults]
        self.functions.append(".".join(self.qual + [n.name]))
        v = bound_names(n.body)
        params = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        if n.args.vararg:
            params.append(n.args.vararg.arg)
        if n.args.kwarg:
            params.append(n.args.kwarg.arg)
        loc = [x for x in params + v.bound if x not in v.globals and x not in v.nonlocals]
        loc = list(dict.fromkeys(loc))
        gen = has_yield(n)
        self.scope.append({"kind": "fn", "locals": loc, "params": params, "gen": gen, "extra": []})
        self.qual.append(n.name)
        doc = []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        if gen:
            self.scope[-1]["locals"] = loc = loc + ["__out"]
        new = self.block(body)
        sc = self.scope.pop()
        self.qual.pop()
        pre = []
        decl = [s for s in new if isinstance(s, (ast.Global, ast.Nonlocal))]
        unb = [x for x in loc if x not in params] + sc["extra"]
        if unb:
            pre.append(ast.If(const(False), [ast.Assign([ast.Name(x, ast.Store()) for x in unb], const(None))], []))
        if gen:
            pre.append(ast.Assign([ast.Name("__out", ast.Store())], call("new_list")))
            new.append(ast.Return(call("gen_result", name("__out"))))
        n.body = doc + decl + pre + [s for s in new if s not in decl]
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            a.annotation = None
        return n

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        self.scope.append({"kind": "lambda"})
        n.body = self.visit(n.body)
        self.scope.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return n

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
        n.body = self.block(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body)
        for h in n.handlers:
            h.body = self.block(h.body)
            if h.type is not None:
                h.type = self.visit(h.type)
        n.orelse = self.block(n.orelse)
        n.finalbody = self.block(n.finalbody)
        if any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException") for h in n.handlers):
            n.handlers.insert(0, ast.ExceptHandler(pv("Control"), None, [ast.Raise()]))
        return n

    # ---- loops
    def _loop(self, n, iter_expr, test_expr):
        sc = self.scope[-1]
        if sc["kind"] != "fn":
            # module/class level loops run natively (they are over concrete data)
            self.generic_visit(n)
            return n
        loc = sc["locals"]
        bname, gname, sname, rname = self.uid("body"), self.uid("get"), self.uid("set"), self.uid("res")
        sc["extra"].append(rname)
        vname = self.uid("v")
        body = self.block(n.body)
        assigned = [x for x in bound_names(n.body + ([ast.Assign([n.target], const(None))] if iter_expr is not None else [])).bound if x in loc]
        assigned += [x for x in sc["extra"] if x != rname and _mentions(body, x)]
        lb = _LoopBody()
        nb = []
        for s in body:
            r = lb.visit(s)
            nb.extend(r if isinstance(r, list) else [r])
        pre = []
        if assigned:
            pre.append(ast.Nonlocal(list(dict.fromkeys(assigned))))
        if iter_expr is not None:
            pre.append(ast.Assign([n.target], name(vname)))
            args = [ast.arg(vname)]
        else:
            pre.append(ast.If(ast.UnaryOp(ast.Not(), test_expr), [ast.Return(pv("END"))], []))
            args = []
        fdef = ast.FunctionDef(bname, ast.arguments([], args, None, [], [], None, []), pre + nb + [ast.Return(pv("CONT"))], [], None, None, [])
        vis = [x for x in loc if not x.startswith("__") or x == "__out"]
        get = ast.FunctionDef(gname, ast.arguments([], [], None, [], [], None, []),
                              [ast.Return(call("locs", ast.Dict([const(x) for x in vis], [lam([], name(x)) for x in vis])))], [], None, None, [])
        snames = [x for x in assigned if not x.startswith("__") or x == "__out"]
        sbody = []
        if snames:
            sbody.append(ast.Nonlocal(list(dict.fromkeys(snames))))
            for x in dict.fromkeys(snames):
                sbody.append(ast.If(ast.Compare(const(x), [ast.In()], [name("__d")]),
                                    [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(name("__d"), const(x), ast.Load())),
                                     ast.If(ast.Compare(name(x), [ast.Is()], [pv("UNBOUND")]), [ast.Delete([ast.Name(x, ast.Del())])], [])], []))
        else:
            sbody.append(ast.Pass())
        sset = ast.FunctionDef(sname, ast.arguments([], [ast.arg("__d")], None, [], [], None, []), sbody, [], None, None, [])
        where = const("%s.%s:%d" % (self.mod, ".".join(self.qual), n.lineno))
        asg = ast.Tuple([const(x) for x in dict.fromkeys(snames)], ast.Load())
        if iter_expr is not None:
            run = call("loop_for", iter_expr, name(bname), name(gname), name(sname), asg, where)
        else:
            run = call("loop_while", name(bname), name(gname), name(sname), asg, where, *([lam([], test_expr)] if n.pure else []))
        out = [fdef, get, sset, ast.Assign([ast.Name(rname, ast.Store())], run)]
        if any(isinstance(x, ast.Return) for s in n.body for x in _walk_noscope(s)):
            out.append(ast.If(ast.Call(name("isinstance"), [name(rname), pv("RET")], []) if False else call("is_ret", name(rname)),
                              [ast.Return(ast.Attribute(name(rname), "value", ast.Load()))], []))
        if n.orelse:
            out.append(ast.If(ast.Compare(name(rname), [ast.IsNot()], [pv("BRK")]), self.block(n.orelse), []))
        for s in out:
            ast.copy_location(s, n)
        return out

    def visit_For(self, n):
        if self.scope[-1]["kind"] != "fn":
            n.iter = self.visit(n.iter)
            n.body = self.block(n.body)
            return n
        return self._loop(n, self.visit(n.iter), None)

    def visit_While(self, n):
        if self.scope[-1]["kind"] != "fn":
            return self.generic_visit(n)
        n.pure = not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len")
                         for x in ast.walk(n.test))
        return self._loop(n, None, self.visit(n.test))

    # ---- generators
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield) and self.scope[-1].get("gen"):
            v = self.visit(n.value.value) if n.value.value else const(None)
            return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(name("__out"), "append", ast.Load()), [v], [])), n)
        if isinstance(n.value, ast.YieldFrom) and self.scope[-1].get("gen"):
            return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(name("__out"), "extend", ast.Load()), [self.visit(n.value.value)], [])), n)
        n.value = self.visit(n.value)
        return n

    def visit_Return(self, n):
        if self.scope[-1].get("gen"):
            return ast.copy_location(ast.Return(call("gen_result", name("__out"))), n)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    # ---- comprehensions
    def _pattern(self, t):
        """(pattern expr, flat names)"""
        if isinstance(t, ast.Name):
            return const(0), [t.id]
        if isinstance(t, (ast.Tuple, ast.List)):
            ps, ns = [], []
            for e in t.elts:
                if isinstance(e, ast.Starred):
                    return None
                r = self._pattern(e)
                if r is None:
                    return None
                ps.append(r[0])
                ns += r[1]
            return ast.Tuple(ps, ast.Load()), ns
        return None

    def _comp(self, n, kind):
        pats = [self._pattern(g.target) for g in n.generators]
        if any(p is None for p in pats) or any(g.is_async for g in n.generators):
            return self.generic_visit(n)
        if kind == "dict":
            elt = ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load())
        else:
            elt = self.visit(n.elt)
        expr = ast.Tuple([elt], ast.Load())   # one produced element
        first = True
        for g, (pat, names) in reversed(list(zip(n.generators, pats))):
            cond = None
            for c in g.ifs:
                c = self.visit(c)
                cond = c if cond is None else ast.BoolOp(ast.And(), [cond, c])
            inner = expr if cond is None else ast.IfExp(cond, expr, pv("SKIP"))
            v = self.uid("cv")
            f = lam([v], ast.Call(lam(names, inner), [ast.Starred(call("unpack", name(v), pat), ast.Load())], []))
            expr = call("comp", self.visit(g.iter), f, const("%s.%s:%d" % (self.mod, ".".join(self.qual), n.lineno)))
        return ast.copy_location(call("comp_" + kind, expr), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    # ---- displays
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("new_list", *n.elts), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        return ast.copy_location(call("new_dict", *[ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)]), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(call("new_set", *n.elts), n)

    # ---- strings and special calls
    def visit_JoinedStr(self, n):
        tm, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                tm += str(v.value).replace("{", "{{").replace("}", "}}")
            else:
                spec = ""
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = "".join(str(x.value) for x in v.format_spec.values)
                conv = "!" + chr(v.conversion) if v.conversion != -1 else ""
                tm += "{%s%s}" % (conv, ":" + spec if spec else "")
                args.append(self.visit(v.value))
        return ast.copy_location(call("fmt", const(tm), ast.Tuple(args, ast.Load()), ast.Dict([], [])), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(call("strmod", n.left, n.right), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "format" and not any(isinstance(a, ast.Starred) for a in n.args) \
                and all(k.arg for k in n.keywords):
            return ast.copy_location(call("fmt", f.value, ast.Tuple(n.args, ast.Load()),
                                          ast.Dict([const(k.arg) for k in n.keywords], [k.value for k in n.keywords])), n)
        if isinstance(f, ast.Attribute) and f.attr == "format" and not n.args and len(n.keywords) == 1 and n.keywords[0].arg is None:
            return ast.copy_location(call("fmtd", f.value, n.keywords[0].value), n)
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(n.args) == 1 and isinstance(f.value, ast.Constant):
            return ast.copy_location(call("strjoin", f.value, n.args[0]), n)
        if len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords and \
                (isinstance(f, ast.Attribute) and f.attr == "chain" or isinstance(f, ast.Name) and f.id == "chain"):
            return ast.copy_location(call("chain_star", n.args[0].value), n)
        if isinstance(f, ast.Name) and f.id == "locals":
            raise Unsupported("locals()")
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "__dict__" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("idict", n.value), n)
        return n

    def visit_AnnAssign(self, n):
        n.value = self.visit(n.value) if n.value else None
        return n


def _mentions(stmts, x):
    for s in stmts:
        for e in ast.walk(s):
            if isinstance(e, ast.Name) and e.id == x:
                return True
    return False


def _walk_noscope(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield from _walk_noscope(c)


class World:
    """a set of instrumented modules sharing the same models"""
    def __init__(self, models, repo=None, stubs=None):
        self.repo = repo or REPO
        self.models = dict(models)
        self.mods = {}
        self.functions = {}
        self.sources = {}
        self.builtins = None

    def _find(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.models:
            return self.models[name]
        path, pkg = self._find(name)
        if path is None:
            raise ImportError(name)
        parent = None
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__package__ = name if pkg else name.rpartition(".")[0]
        self.mods[name] = m
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        src = open(path).read()
        if name == "mlmc":
            return m       # the package's __init__ only re-exports; submodules are imported on demand
        tree = ast.parse(src, path)
        ins = Instr(name)
        tree = ins.visit(tree)
        ast.fix_missing_locations(tree)
        self.functions[name] = ins.functions
        self.sources[name] = src
        code = compile(tree, path, "exec")
        m.__dict__["__builtins__"] = self.builtins
        from . import runtime
        m.__dict__["__pv__"] = runtime
        exec(code, m.__dict__)
        for v in list(m.__dict__.values()):
            if isinstance(v, type) and getattr(v, "__module__", None) == name:
                runtime.journal_class(v)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if name in self.models:
            m = self.models[name]
            if fromlist or name == top:
                return m
            t = self.models.get(top)
            if t is not None and type(t).__name__ != "Blank" and hasattr(t, name.split(".")[1]):
                return t
            for part in reversed(name.split(".")[1:]):
                m = types.SimpleNamespace(**{part: m})
            return m
        if top in self.models and not fromlist:
            return self.models[top]
        if top in self.models and fromlist:
            m = self.models[top]
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        path, _ = self._find(name)
        if path is not None and top in ("mlmc", "examples", "test"):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        sub, _ = self._find(name + "." + f)
                        if sub:
                            self.load(name + "." + f)
                return m
            return self.mods[top]
        if top in ("typing", "abc", "attr", "copy", "enum", "itertools", "operator", "functools", "warnings", "collections", "__future__", "math", "sys", "numbers", "statistics"):
            if top == "math":
                from . import runtime
                return runtime.math_model
            if top == "itertools":
                from . import runtime
                return runtime.itertools_model
            if top == "copy":
                from . import runtime
                return runtime.copy_model
            return __import__(name, globals, locals, fromlist, 0)
        raise Unsupported("import of %s" % name)
