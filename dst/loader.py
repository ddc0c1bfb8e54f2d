"""Incarnations: fresh in-process instances of the library under test.

A simulated node (process) is one Incarnation: a complete, separate import of
the pycose package from VERIF_REPO (default /repo), compiled from the source in
the working tree.  Restarting a node = a new Incarnation; nothing of the old one
survives except what the simulated disk holds.
"""
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pycose"
sys.dont_write_bytecode = True

_code = {}      # module name -> (code, filename, is_package)


def _scan():
    root = os.path.join(REPO, PKG)
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, REPO)[:-3].split(os.sep)
            is_pkg = rel[-1] == "__init__"
            name = ".".join(rel[:-1] if is_pkg else rel)
            with open(path, "rb") as fh:
                src = fh.read()
            _code[name] = (compile(src, path, "exec", dont_inherit=True), path, is_pkg)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        if not _code:
            _scan()
        if name not in _code:
            return None
        code, fn, is_pkg = _code[name]
        spec = importlib.util.spec_from_loader(name, self, origin=fn, is_package=is_pkg)
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(fn)]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, fn, _ = _code[module.__spec__.name]
        module.__file__ = fn
        exec(code, module.__dict__)


_finder = _Finder()
sys.meta_path.insert(0, _finder)


def code_names():
    if not _code:
        _scan()
    return sorted(_code)


ROOTS = ["pycose.messages", "pycose.keys", "pycose.keys.keyops", "pycose.keys.keyparam", "pycose.keys.curves",
         "pycose.keys.cosekey", "pycose.keys.ec2", "pycose.keys.okp", "pycose.keys.rsa", "pycose.keys.symmetric",
         "pycose.keys.keytype", "pycose.headers", "pycose.algorithms", "pycose.utils", "pycose.exceptions",
         "pycose.messages.recipient", "pycose.messages.context", "pycose.messages.cosemessage",
         "pycose.messages.cosebase", "pycose.messages.enc0message", "pycose.messages.encmessage",
         "pycose.messages.mac0message", "pycose.messages.macmessage", "pycose.messages.sign1message",
         "pycose.messages.signmessage", "pycose.messages.signer", "pycose.extensions.x509"]

_active = [None]
ON_BOOT = []        # callables told of every new incarnation


def _purge():
    for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + ".")]:
        del sys.modules[n]


class Incarnation:
    """One freshly started process image of the library."""

    def __init__(self, x509=False):
        _purge()
        _active[0] = None
        import importlib
        for r in ROOTS:
            if r == "pycose.extensions.x509" and not x509:
                continue
            if r in code_names():
                importlib.import_module(r)
        self.mods = {n: m for n, m in sys.modules.items() if n == PKG or n.startswith(PKG + ".")}
        _active[0] = self
        m = self.mods
        self.messages = m["pycose.messages"]
        self.headers = m["pycose.headers"]
        self.algorithms = m["pycose.algorithms"]
        self.keys = m["pycose.keys"]
        self.recipient = m["pycose.messages.recipient"]
        self.signer = m["pycose.messages.signer"]
        self.keyparam = m["pycose.keys.keyparam"]
        self.keyops = m["pycose.keys.keyops"]
        self.curves = m["pycose.keys.curves"]
        self.context = m.get("pycose.messages.context")
        self.exceptions = m["pycose.exceptions"]
        self.x509 = m.get("pycose.extensions.x509")
        for f in ON_BOOT:
            f(self)

    def activate(self):
        """Make this the image that import statements see (a process switch)."""
        if _active[0] is self:
            return self
        if _active[0] is not None:      # modules the old one imported lazily belong to it
            for n, m in list(sys.modules.items()):
                if n == PKG or n.startswith(PKG + "."):
                    _active[0].mods[n] = m
        _purge()
        sys.modules.update(self.mods)
        _active[0] = self
        return self
