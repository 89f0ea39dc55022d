"""Instruments the package when it is imported, so that work inside of operators on lists can be counted: `in`, slices and concatenation."""
import ast
import importlib
import importlib.machinery
import sys


class Counter:
    """What the instrumented operators call. `charge` is given the number of elements passed."""
    charge = None

    def has(self, x, of):
        r = x in of
        if self.charge and type(of) in (list, tuple):
            # a hit ends the search
            self.charge(next((k for k, y in enumerate(of) if y is x), len(of)) if r else len(of))
        return r

    def hasnot(self, x, of):
        return not self.has(x, of)

    def add(self, a, b):
        r = a + b
        if self.charge and type(r) in (list, tuple):
            self.charge(len(r))
        return r

    def part(self, r):
        if self.charge and type(r) in (list, tuple):
            self.charge(len(r))
        return r


class Instrument(ast.NodeTransformer):
    @staticmethod
    def call(name, args, at):
        f = ast.Attribute(ast.Name('__verif__', ast.Load()), name, ast.Load())
        return ast.fix_missing_locations(ast.copy_location(ast.Call(f, args, []), at))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return self.call('has' if isinstance(node.ops[0], ast.In) else 'hasnot', [node.left, node.comparators[0]], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return self.call('add', [node.left, node.right], node) if isinstance(node.op, ast.Add) else node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        return self.call('part', [node], node) if isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Slice) else node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Add):
            node.value = self.call('part', [node.value], node.value)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        return node


counter = Counter()


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        return compile(Instrument().visit(ast.parse(data, path)), path, 'exec', dont_inherit=True, optimize=_optimize)

    def exec_module(self, module):
        module.__dict__['__verif__'] = counter
        super().exec_module(module)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'foronoi' and not name.startswith('foronoi.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    """The package is imported again, instrumented."""
    for name in [n for n in sys.modules if n == 'foronoi' or n.startswith('foronoi.')]:
        del sys.modules[name]
    sys.meta_path.insert(0, Finder)
    from lib import env
    return env.load()
