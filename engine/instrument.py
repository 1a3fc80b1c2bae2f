"""Load Python modules from their current source with text-inspecting operations routed through rt."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from engine import rt

PFX = '_vp_'
NOCALL = {'super', 'locals', 'globals', 'eval', 'exec', 'vars', 'dir', 'print', 'range', 'len', 'enumerate', 'zip',
          'list', 'tuple', 'iter', 'next', 'getattr', 'setattr', 'hasattr', 'id', 'repr', 'format'}
GANAMES = rt._STRN
CMPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
        ast.In: 'in_', ast.NotIn: 'notin'}


def nm(n):
    return ast.Name(id=PFX + n, ctx=ast.Load())


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = [type(o) for o in node.ops]
        if all(o in (ast.Is, ast.IsNot) for o in ops):
            return node
        if len(ops) == 1:
            return ast.copy_location(ast.Call(nm(CMPS[ops[0]]), [node.left, node.comparators[0]], []), node)
        parts = []
        left = node.left
        for o, c in zip(node.ops, node.comparators):
            if type(o) in CMPS:
                parts.append(ast.Call(nm(CMPS[type(o)]), [left, c], []))
            else:
                parts.append(ast.Compare(left, [o], [c]))
            left = c
        return ast.copy_location(ast.BoolOp(ast.And(), parts), node)

    def visit_Call(self, node):
        self.generic_visit_call(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            if f.attr.startswith('__') and not f.attr.endswith('__'):
                return node
            return ast.copy_location(
                ast.Call(nm('cm'), [f.value, ast.Constant(f.attr)] + node.args, node.keywords), node)
        if isinstance(f, ast.Name) and (f.id in NOCALL or f.id.startswith(PFX)):
            return node
        return ast.copy_location(ast.Call(nm('call'), [f] + node.args, node.keywords), node)

    def generic_visit_call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            f.value = self.visit(f.value)
        else:
            node.func = self.visit(f)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in GANAMES:
            return ast.copy_location(ast.Call(nm('ga'), [node.value, ast.Constant(node.attr)], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple)):
            if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
                return node
            return ast.copy_location(ast.Call(nm('gi'), [node.value, node.slice], []), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                # keep Python's evaluation order: value first
                self.n += 1
                tmp = f'{PFX}t{self.n}'
                a = ast.Assign([ast.Name(tmp, ast.Store())], node.value)
                b = ast.Expr(ast.Call(nm('si'), [t.value, t.slice, ast.Name(tmp, ast.Load())], []))
                return [ast.copy_location(a, node), ast.copy_location(b, node)]
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            self.n += 1
            o, k = f'{PFX}o{self.n}', f'{PFX}k{self.n}'
            old = ast.Call(nm('gi'), [ast.Name(o, ast.Load()), ast.Name(k, ast.Load())], [])
            return [ast.copy_location(x, node) for x in (
                ast.Assign([ast.Name(o, ast.Store())], t.value),
                ast.Assign([ast.Name(k, ast.Store())], t.slice),
                ast.Expr(ast.Call(nm('si'), [ast.Name(o, ast.Load()), ast.Name(k, ast.Load()),
                                             ast.BinOp(old, node.op, node.value)], [])))]
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                return ast.copy_location(ast.Expr(ast.Call(nm('di'), [t.value, t.slice], [])), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(nm('mod'), [node.left, node.right], []), node)
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(nm('mkset'), [ast.GeneratorExp(node.elt, node.generators)], []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(nm('mkdict'), [ast.GeneratorExp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators)], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(ast.Call(nm('mkset'), [ast.List(node.elts, ast.Load())], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys) or any(k is None for k in node.keys):
            return node
        return ast.copy_location(ast.Call(nm('mkdict'), [ast.List(
            [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())], []), node)

    def visit_MatchValue(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [None if d is None else self.visit(d) for d in node.kw_defaults]
        return node


HELPERS = {PFX + n: getattr(rt, n) for n in
           ('cm', 'call', 'ga', 'gi', 'si', 'di', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'in_', 'notin', 'mod',
            'mkset', 'mkdict')}

CODE = {}      # (file) -> code
FUNCS = {}     # (file) -> number of function definitions instrumented


def compile_source(src, path):
    tree = ast.parse(src, path)
    FUNCS[path] = [n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path not in CODE:
            with open(path, 'rb') as f:
                data = f.read()
            CODE[path] = compile_source(importlib.util.decode_source(data), path)
        return CODE[path]

    def exec_module(self, module):
        module.__dict__.update(HELPERS)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, prefixes):
        self.roots = roots
        self.prefixes = prefixes

    def find_spec(self, name, path, target=None):
        if not any(name == p or name.startswith(p + '.') for p in self.prefixes):
            return None
        for r in (path or self.roots):
            base = os.path.join(r, name.rpartition('.')[2])
            for f, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
                if os.path.isfile(f):
                    return importlib.util.spec_from_file_location(
                        name, f, loader=Loader(name, f), submodule_search_locations=[base] if pkg else None)
        return None


def stdlib_copy(name):
    """Return an instrumented copy of a pure Python standard library module."""
    spec = importlib.util.find_spec(name)
    path = spec.origin
    ld = Loader('_vps_' + name.replace('.', '_'), path)
    sp = importlib.util.spec_from_file_location('_vps_' + name.replace('.', '_'), path, loader=ld)
    if spec.submodule_search_locations:
        sp.submodule_search_locations = list(spec.submodule_search_locations)
    m = importlib.util.module_from_spec(sp)
    m.__package__ = name if spec.submodule_search_locations else name.rpartition('.')[0]
    sys.modules[sp.name] = m
    ld.exec_module(m)
    return m


def install(roots, prefixes):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots, prefixes))
