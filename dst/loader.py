"""Loads the code under test into the simulation.

`dataplicity.*` (from /repo's working tree) and `lomond.*` are compiled with a yield
point before every statement; stdlib modules that touch the outside world are replaced
(simmods) or executed again on top of the replacements; pure ones are shared.
"""
import ast
import builtins
import importlib.util
import os as _os
import sys as _sys
import types
import zlib

from . import core

REPO = _os.environ.get("DST_REPO", "/repo")

# Real modules that do no I/O of their own (as far as the agent can use them).
REAL = set("""
__future__ _abc _ast _bisect _codecs _collections _collections_abc _csv _functools _heapq
_json _operator _sre _stat _string _struct _warnings _weakref _weakrefset abc array ast atexit_
base64 binascii bisect builtins bz2 calendar_ cmath collections collections.abc contextlib copy
copyreg decimal difflib dis enum errno fnmatch fractions functools hashlib heapq hmac html inspect
itertools json json.decoder json.encoder json.scanner keyword linecache locale lzma
math numbers opcode operator pickle pprint re reprlib shlex sre_compile sre_constants sre_parse
stat string stringprep struct textwrap token tokenize traceback types typing unicodedata
urllib.parse urllib.error warnings weakref zlib encodings _io_real __pypy__ _locale _md5 _sha1
marshal __exceptions__ bdb_ cmd_ argparse getopt statistics_ _contextvars contextvars
_sha256 _sha512 _sha3 _blake2 _hashlib _opcode nturl2path identity ctypes ctypes.util
__pypy__._pypydatetime __pypy__.builders __pypy__.intop _imp _frozen_importlib
_frozen_importlib_external _datetime
http http.HTTPStatus _pypy_util_cffi _pypy_interact pypyjit greenlet dataclasses graphlib
""".split())

MISSING = set("_winapi msvcrt nt winreg _winreg org org.python.core _scproxy typing_extensions".split())

_real_import = builtins.__import__


class Instrument(ast.NodeTransformer):
    def __init__(self, name):
        self.depth = 0
        self.name = name
        self.sites = []

    def yield_call(self, node):
        site = zlib.crc32(("%s:%d" % (self.name, len(self.sites))).encode()) % core.SITES
        self.sites.append(site)
        return ast.copy_location(ast.Call(func=ast.Name(id="__y__", ctx=ast.Load()),
                                          args=[ast.copy_location(ast.Constant(value=site), node)],
                                          keywords=[]), node)

    def _func(self, node):
        self.depth += 1
        node.body = self._body(node.body, True)
        self.depth -= 1
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        save, self.depth = self.depth, 0
        node.body = self._body(node.body, True)
        self.depth = save
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def _body(self, stmts, top=False):
        out = []
        for i, s in enumerate(stmts):
            doc = (top and i == 0 and isinstance(s, ast.Expr) and
                   isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))
            fut = isinstance(s, ast.ImportFrom) and s.module == "__future__"
            if self.depth and not doc and not fut:
                out.append(ast.copy_location(ast.Expr(value=self.yield_call(s)), s))
            if self.depth and isinstance(s, ast.AugAssign) and \
                    isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name):
                # load, yield, modify, store: as interruptible as in the bytecode
                t = s.target
                mk = lambda n: ast.copy_location(n, s)
                load = mk(ast.Attribute(value=mk(ast.Name(id=t.value.id, ctx=ast.Load())),
                                        attr=t.attr, ctx=ast.Load()))
                out.append(mk(ast.Assign(targets=[mk(ast.Name(id="_ds_tmp", ctx=ast.Store()))],
                                         value=load)))
                out.append(mk(ast.Expr(value=self.yield_call(s))))
                s2 = mk(ast.AugAssign(target=mk(ast.Name(id="_ds_tmp", ctx=ast.Store())), op=s.op,
                                      value=self.visit(s.value)))
                out.append(s2)
                out.append(mk(ast.Assign(targets=[t], value=mk(ast.Name(id="_ds_tmp",
                                                                        ctx=ast.Load())))))
                continue
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list):
                if old and isinstance(old[0], ast.stmt):
                    setattr(node, field, self._body(old, isinstance(node, ast.Module)))
                else:
                    new = []
                    for v in old:
                        if isinstance(v, ast.AST):
                            v = self.visit(v)
                        new.append(v)
                    setattr(node, field, new)
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        vals = [node.values[0]]
        for v in node.values[1:]:
            vals.append(ast.copy_location(ast.BoolOp(op=ast.And(), values=[self.yield_call(v), v]), v))
        node.values = vals
        return node

    def _comp(self, node):
        self.generic_visit(node)
        if self.depth:
            f = "value" if isinstance(node, ast.DictComp) else "elt"
            v = getattr(node, f)
            setattr(node, f, ast.copy_location(
                ast.BoolOp(op=ast.And(), values=[self.yield_call(v), v]), v))
        return node
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


class CodeCache(object):
    """Compiled code, shared by all incarnations in this process."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.cache = {}
        self.lomond = _os.path.dirname(importlib.util.find_spec("lomond").origin)
        self.specs = {}
        self._sites = {}

    def sites(self, name):
        """Ids of the places of a module where tasks can be switched."""
        if self.find(name) is None or self.find(name)[0] is None:
            return []
        self.code(name)
        return self._sites.get(name) or []

    def find(self, name):
        """(path, is_pkg) or None."""
        if name in self.specs:
            return self.specs[name]
        root = name.split(".")[0]
        res = None
        if root in ("dataplicity", "lomond"):
            base = self.repo if root == "dataplicity" else _os.path.dirname(self.lomond)
            p = _os.path.join(base, *name.split("."))
            if _os.path.isfile(p + ".py"):
                res = (p + ".py", False)
            elif _os.path.isfile(_os.path.join(p, "__init__.py")):
                res = (_os.path.join(p, "__init__.py"), True)
        else:
            try:
                sp = importlib.util.find_spec(name)
            except (ImportError, ValueError):
                sp = None
            if sp is not None and sp.origin and sp.origin.endswith(".py"):
                res = (sp.origin, sp.submodule_search_locations is not None)
            elif sp is not None:
                res = (None, False)
        self.specs[name] = res
        return res

    def code(self, name):
        c = self.cache.get(name)
        if c is None:
            path, pkg = self.find(name)
            with open(path, "rb") as f:
                src = f.read()
            if name.split(".")[0] in ("dataplicity", "lomond"):
                tree = ast.parse(src, path)
                ins = Instrument(name)
                tree = ins.visit(tree)
                self._sites[name] = ins.sites
                ast.fix_missing_locations(tree)
                c = compile(tree, path, "exec", dont_inherit=True)
            else:
                c = compile(src, path, "exec", dont_inherit=True)
            self.cache[name] = c
        return c


CACHE = None


def code_cache():
    global CACHE
    if CACHE is None:
        CACHE = CodeCache()
    return CACHE


class _Print(object):
    pass


def _no_print(*a, **kw):
    pass


class Loader(object):
    def __init__(self, mods):
        self.mods = mods
        self.cc = code_cache()
        self.modules = {}
        self.track = None           # called with each module of the agent once it is loaded
        mods.loader = self

    # -- used by mods.mod_os for os.path
    def load_copy(self, name, osmod=None, preset=None):
        if preset:
            for k, v in preset.items():
                self.modules.setdefault(k, v)
        return self.get(name)

    def _exec(self, name):
        path, pkg = self.cc.find(name)
        code = self.cc.code(name)
        m = types.ModuleType(name)
        g = m.__dict__
        g["__file__"] = path
        g["__simld__"] = self
        g["__y__"] = core.y
        g["open"] = self.mods.open
        g["print"] = _no_print
        if pkg:
            g["__path__"] = [_os.path.dirname(path)]
            g["__package__"] = name
        else:
            g["__package__"] = name.rpartition(".")[0]
        self.modules[name] = m
        try:
            exec(code, g)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if self.track is not None and name.split(".")[0] in ("dataplicity", "lomond"):
            self.track(m)
        return self.modules.get(name, m)

    def get(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition(".")
        if parent:
            pm = self.get(parent)
            m = self.modules.get(name)
            if m is not None:
                return m
        m = self._load(name)
        self.modules[name] = m
        if parent and pm.__dict__.get("__simld__") is self or parent and "__sim__" in pm.__dict__:
            pm.__dict__[leaf] = m
        return m

    def _load(self, name):
        mods = self.mods
        if name in mods.NAMES:
            if name == "posix":
                return mods.get("os")
            return mods.get(name)
        if name == "os.path":
            return self.get("os").path
        if name.startswith("six.moves"):
            six = self.get("six")
            return six._importer.load_module(name)
        if name in REAL:
            __import__(name)
            return _sys.modules[name]
        if name in MISSING or name.split(".")[0] in MISSING:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        f = self.cc.find(name)
        if f is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if f[0] is not None:
            return self._exec(name)
        # an interpreter built-in nobody looked at
        if core.SIM is not None and name not in ("_thread",):
            core.SIM.gap("built-in module %s" % name)
        __import__(name)
        return _sys.modules[name]

    def import_(self, name, globals, fromlist, level):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:len(parts) - level + 1]
            base = ".".join(parts)
            full = base + "." + name if name else base
        else:
            full = name
        m = self.get(full)
        if not fromlist:
            if level:
                return m
            return self.get(full.partition(".")[0])
        if m.__dict__.get("__path__") is not None or "__path__" in m.__dict__ or \
                full.startswith("six.moves"):
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        self.get(full + "." + f)
                    except ModuleNotFoundError as e:
                        if e.name != full + "." + f:
                            raise
        return m


def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    g = globals
    if g is None:
        g = _sys._getframe(1).f_globals
    ld = g.get("__simld__")
    if ld is None:
        return _real_import(name, globals, locals, fromlist, level)
    if not level:
        m = ld.modules.get(name)
        if m is not None and (not fromlist or "__path__" not in m.__dict__):
            if fromlist or "." not in name:
                return m
    s = core.SIM
    if s is not None:
        s.noyield += 1
        save = core._yc.n
        core._yc.n = core.HUGE
        try:
            return ld.import_(name, g, fromlist, level)
        finally:
            s.noyield -= 1
            core._yc.n = save
    return ld.import_(name, g, fromlist, level)


def install():
    builtins.__import__ = sim_import
