"""Source model of the analysed package: parsed modules, node numbering, site naming.

Nothing of the analysed package is imported or executed: every module is read
from the working tree and parsed on each run.
"""
import ast
import warnings
import hashlib
import os


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src
        self.is_pkg = os.path.basename(path) == '__init__.py'

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]


class Program:
    """All python modules of `pkg` below `root`."""

    def __init__(self, root='/repo', pkg='ylearn', skip=()):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.pyx = {}
        self.nodes = {}
        self._n = 0
        self.parse_errors = []
        base = os.path.join(root, pkg)
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                if f.endswith('.pyx'):
                    mod = rel[:-4].replace(os.sep, '.')
                    self.pyx[mod] = p
                if not f.endswith('.py'):
                    continue
                mod = rel[:-3].replace(os.sep, '.')
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                if mod in skip:
                    continue
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(src, p)
                except SyntaxError as e:   # the build would fail too
                    self.parse_errors.append((rel, str(e)))
                    continue
                m = Module(mod, p, rel, tree, src)
                self.modules[mod] = m
                self._number(m)

    def _number(self, m):
        stack = [(m.tree, '<module>', None)]
        while stack:
            node, qual, parent = stack.pop()
            self._n += 1
            node.nid = self._n
            node.mod = m
            node.qual = qual
            node.parent = parent
            q = qual
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = node.name if qual == '<module>' else qual + '.' + node.name
                node.myqual = q
            elif isinstance(node, ast.Lambda):
                q = qual + '.<lambda>'
                node.myqual = q
            kids = list(ast.iter_child_nodes(node))
            for ch in reversed(kids):
                stack.append((ch, q, node))


def text(node, limit=160):
    try:
        s = ast.unparse(node)
    except Exception:
        s = type(node).__name__
    s = ' '.join(s.split())
    return s if len(s) <= limit else s[:limit - 3] + '...'


def site(node):
    """(file, function, line, text) of a construct."""
    return (node.mod.rel, node.qual, getattr(node, 'lineno', 0), text(node))


def site_key(node):
    """Line-number-free identity of a construct."""
    return f'{node.mod.rel}::{node.qual}::{text(node)}'


def digest(root, pkg='ylearn', exts=('.py', '.pyx', '.pxd', '.cpp')):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(root, pkg))):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()
