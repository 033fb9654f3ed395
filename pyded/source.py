"""Extraction of the verified text: the module ASTs of /repo, on every run."""
import ast
import os
from .core import FuncV, ClassV, ModV, LibV, NTType, Unsupported


class Module(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}
        self.assigns = {}


class Program(object):
    """all modules of the package `region`, parsed from a working tree"""

    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        for d, _, fs in os.walk(os.path.join(repo, 'region')):
            if os.path.basename(d) == 'tests':
                continue
            for f in sorted(fs):
                if not f.endswith('.py') or f.startswith('test_'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p) as fh:
                    tree = ast.parse(fh.read(), p)
                self.mods[rel] = Module(rel, p, tree)
        for m in self.mods.values():
            self._link(m)

    def _import_name(self, full):
        """value of a dotted name such as region.util.count or numpy.where"""
        if full in self.mods:
            return ModV(full)
        mod, _, attr = full.rpartition('.')
        if mod in self.mods:
            return ('lazy', mod, attr)
        return LibV(canon(full))

    def _link(self, m):
        for node in m.tree.body:
            self._link_stmt(m, node)

    def _link_stmt(self, m, node):
        env = m.env
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    env[a.asname] = self._import_name(a.name)
                else:
                    top = a.name.split('.')[0]
                    env[top] = self._import_name(top)
        elif isinstance(node, ast.ImportFrom):
            base = node.module or ''
            if node.level:
                pkg = m.name.split('.')
                pkg = pkg[:len(pkg) - node.level + (
                    1 if m.path.endswith('__init__.py') else 0)]
                base = '.'.join(pkg + ([node.module] if node.module else []))
            for a in node.names:
                env[a.asname or a.name] = self._import_name(
                    base + '.' + a.name)
        elif isinstance(node, ast.FunctionDef):
            env[node.name] = FuncV(node, m, node.name)
        elif isinstance(node, ast.ClassDef):
            c = ClassV(node.name, m, node, [])
            env[node.name] = c
            for sub in node.body:
                if isinstance(sub, ast.FunctionDef):
                    fv = FuncV(sub, m, sub.name, cls=c)
                    fv.decorators = [ast.unparse(d)
                                     for d in sub.decorator_list]
                    c.attrs[sub.name] = fv
                elif isinstance(sub, ast.Assign) and \
                        len(sub.targets) == 1 and \
                        isinstance(sub.targets[0], ast.Name):
                    v = sub.value
                    # alias made by copy_func(f)
                    if isinstance(v, ast.Call) and len(v.args) == 1 and \
                            isinstance(v.args[0], ast.Name) and \
                            v.args[0].id in c.attrs and \
                            isinstance(v.func, ast.Name) and \
                            v.func.id == 'copy_func':
                        c.attrs[sub.targets[0].id] = c.attrs[v.args[0].id]
                    else:
                        c.attrs[sub.targets[0].id] = ('expr', v, m)
        elif isinstance(node, ast.Assign) and len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Name):
            env[node.targets[0].id] = ('expr', node.value, m)
        elif isinstance(node, (ast.If, ast.Try)):
            pass

    def resolve(self, v):
        seen = 0
        while isinstance(v, tuple) and v and v[0] == 'lazy':
            seen += 1
            if seen > 20:
                raise Unsupported('import cycle')
            m = self.mods[v[1]]
            if v[2] not in m.env:
                raise Unsupported('name %s.%s' % (v[1], v[2]))
            v = m.env[v[2]]
        return v

    def class_bases(self, c, interp):
        if c.node is not None and not c.bases:
            for b in c.node.bases:
                try:
                    c.bases.append(interp.eval_static(b, c.module))
                except Unsupported:
                    c.bases.append(LibV('object'))
        return c.bases

    def get(self, qual):
        """'region.util:count' or 'region.p_regions.azp:AZP.fit'"""
        mod, _, name = qual.partition(':')
        if mod not in self.mods:
            raise KeyError(qual)
        m = self.mods[mod]
        if '.' in name:
            cn, fn = name.split('.')
            c = self.resolve(m.env[cn])
            f, _ = c.lookup(fn)
            if f is None:
                raise KeyError(qual)
            return f
        return self.resolve(m.env[name])


CANON = {
    'np': 'numpy', 'networkx': 'networkx',
    'scipy.sparse.csr.csr_matrix': 'scipy.sparse.csr_matrix',
    'scipy.sparse.dok.dok_matrix': 'scipy.sparse.dok_matrix',
    'collections.abc.Iterable': 'collections.Iterable',
}


def canon(name):
    return CANON.get(name, name)
