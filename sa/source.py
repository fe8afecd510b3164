"""Source model: parse every module of the package under analysis (never imported, never executed)."""
import ast
import os

REPO = os.environ.get('JADN_REPO', '/repo')
PKG_ROOT = os.path.join(REPO, 'distribution', 'src')
PKG = 'jadn'


class Module:
    def __init__(self, name, path, rel, tree, text):
        self.name, self.path, self.rel, self.tree, self.text = name, path, rel, tree, text
        self.is_pkg = os.path.basename(path) == '__init__.py'

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]


class Source:
    def __init__(self, root=PKG_ROOT, pkg=PKG):
        self.modules = {}
        base = os.path.join(root, pkg)
        for dirpath, dirnames, files in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts.pop()
                name = '.'.join(parts)
                with open(path, encoding='utf-8') as fp:
                    text = fp.read()
                tree = ast.parse(text, path)
                for node in ast.walk(tree):
                    for child in ast.iter_child_nodes(node):
                        child._parent = node
                self.modules[name] = Module(name, path, os.path.relpath(path, REPO), tree, text)

    def resolve_from(self, mod, node):
        """Absolute module name an ImportFrom refers to."""
        if not node.level:
            return node.module or ''
        base = mod.package.split('.')
        base = base[:len(base) - (node.level - 1)]
        return '.'.join(base + (node.module.split('.') if node.module else []))
