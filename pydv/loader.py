"""load /repo's package through a mechanical AST transformation.

Transformation (all that is changed; everything else is the file as it is):
  a % b           -> __pv_mod__(a, b)          (same result on concrete values)
  a in b          -> __pv_in__(a, b)
  {k: v}, {a, b}  -> __pv_dict__ / __pv_set__  (dict/set subclasses)
  "s".join(x)     -> __pv_join__("s", x)
  f(a, *b)        -> __pv_star__(f, (a,), b)
  [e for x in it] -> __pv_listcomp__(lambda x: e, it)   (one generator, no condition)
  except:         -> except Exception:         (verifier control flow passes)
  while/for       -> same loop with a hook in front of the condition
  builtins        -> libs.BUILTINS; struct, array, uuid, io -> libs.MODULES
Dropped: nothing.  Docstrings and annotations are kept.
"""
import ast
import builtins
import os
import sys
import types

from . import libs, loops


MUTATORS = ('append', 'extend', 'insert', 'pop', 'add', 'update', 'remove')


class Names(ast.NodeVisitor):
    """names assigned inside a loop (not inside nested functions)"""

    def __init__(self):
        self.s = set()
        self.m = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.s.add(n.id)

    def visit_Call(self, n):
        # x.append(...) etc: x may be re-bound at the cut point to an arbitrary value
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.attr in MUTATORS:
            self.m.add(f.value.id)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        # x[i] = ... likewise
        if isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            self.m.add(n.value.id)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            self.m.add(t.value.id)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.s.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        pass
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, n):
        for b in n.body:
            self.visit(b)


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.func = []
        self.infn = 0
        self.locals = set()
        self.loopno = {}

    def visit_FunctionDef(self, n):
        self.func.append(n.name)
        old, oldl = self.infn, self.locals
        self.infn = 1
        v = Names()
        for b in n.body:
            v.visit(b)
        a = n.args
        self.locals = v.s | set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.locals -= set(x.names)
        self.generic_visit(n)
        self.infn, self.locals = old, oldl
        self.func.pop()
        return n

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        old = self.infn
        self.infn = 0
        self.generic_visit(n)
        self.infn = old
        self.func.pop()
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.Call(ast.Name('__pv_mod__', ast.Load()), [n.left, n.right], [])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('__pv_in__', ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), c)
            return c
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        pairs = [ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)]
        return ast.Call(ast.Name('__pv_dict__', ast.Load()), [ast.List(pairs, ast.Load())], [])

    def visit_ListComp(self, n):
        # [e for x in it] -> __pv_listcomp__(lambda x: e, it): same values, usable on symbolic-length iterables
        simple = len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async \
            and isinstance(n.generators[0].target, ast.Name) and self.infn \
            and not any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) for x in ast.walk(n))
        self.generic_visit(n)
        if not simple:
            return n
        g = n.generators[0]
        lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
        return ast.Call(ast.Name('__pv_listcomp__', ast.Load()), [lam, g.iter], [])

    def visit_Expr(self, n):
        # yield from it -> for y in it: yield y (nothing here sends values into a generator)
        if self.infn and isinstance(n.value, ast.YieldFrom):
            y = '__pv_y%d' % n.lineno
            loop = ast.For(ast.Name(y, ast.Store()), n.value.value, [ast.Expr(ast.Yield(ast.Name(y, ast.Load())))], [])
            return self.visit_For(ast.copy_location(loop, n))
        return self.generic_visit(n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('__pv_set__', ast.Load()), [ast.List(n.elts, ast.Load())], [])

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, (str, bytes)) and len(n.args) == 1:
            return ast.Call(ast.Name('__pv_join__', ast.Load()), [f.value, n.args[0]], [])
        if n.args and isinstance(n.args[-1], ast.Starred) and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args[:-1]):
            # f(a, *b) -> __pv_star__(f, (a,), b)
            return ast.Call(ast.Name('__pv_star__', ast.Load()), [f, ast.Tuple(n.args[:-1], ast.Load()), n.args[-1].value], [])
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name('Exception', ast.Load())
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            import copy
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.Call(ast.Name('__pv_mod__', ast.Load()), [t, n.value], []))
        return n

    # ---- loops
    def _hook(self, names, mut, lid):
        """expression: (lid head call) with walrus re-binding of modified locals"""
        L = '__pv_l%d' % lid
        call = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'head', ast.Load()),
                        [ast.Call(ast.Name('locals', ast.Load()), [], [])], [])
        rebinds = [ast.NamedExpr(ast.Name(x, ast.Store()),
                                 ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'val', ast.Load()),
                                          [ast.Constant(x)], [])) for x in sorted(names)]
        rebinds += [ast.NamedExpr(ast.Name(x, ast.Store()),
                                  ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'mval', ast.Load()),
                                           [ast.Constant(x), ast.Name(x, ast.Load())], [])) for x in sorted(mut)]
        # plain iteration:  L.plain or (L.head(locals()) and [x := ...])
        re = ast.BoolOp(ast.And(), [call, ast.List(rebinds + [ast.Constant(1)], ast.Load())])
        plain = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'tick', ast.Load()), [], [])
        return ast.BoolOp(ast.Or(), [plain, re])

    def _loop(self, n):
        q = '.'.join([self.mod] + self.func)
        k = self.loopno.get(q, 0)
        self.loopno[q] = k + 1
        lid = k + 1000 * n.lineno
        v = Names()
        for b in n.body:
            v.visit(b)
        if isinstance(n, ast.For):
            v.visit(n.target)
        else:
            v.visit(n.test)
        return q, k, lid, v.s, (v.m & self.locals) - v.s

    def visit_While(self, n):
        if not self.infn:
            return self.generic_visit(n)
        q, k, lid, names, mut = self._loop(n)
        self.generic_visit(n)
        pre = ast.Assign([ast.Name('__pv_l%d' % lid, ast.Store())],
                         ast.Call(ast.Name('__pv_loop__', ast.Load()),
                                  [ast.Constant(q), ast.Constant(k),
                                   ast.Constant(tuple(sorted(names)))], []))
        n.test = ast.BoolOp(ast.And(), [self._hook(names, mut, lid), n.test])
        return [pre, n]

    def visit_For(self, n):
        if not self.infn:
            return self.generic_visit(n)
        q, k, lid, names, mut = self._loop(n)
        self.generic_visit(n)
        L = '__pv_l%d' % lid
        pre = ast.Assign([ast.Name(L, ast.Store())],
                         ast.Call(ast.Name('__pv_loop__', ast.Load()),
                                  [ast.Constant(q), ast.Constant(k),
                                   ast.Constant(tuple(sorted(names))), n.iter], []))
        more = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'more', ast.Load()), [], [])
        test = ast.BoolOp(ast.And(), [self._hook(names, mut, lid), more])
        take = ast.Assign([n.target], ast.Attribute(ast.Name(L, ast.Load()), 'item', ast.Load()))
        return [pre, ast.While(test, [take] + n.body, n.orelse)]


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Package(object):
    """a private instance of the aaf2 package in symbolic mode"""

    def __init__(self, root='/repo/src', pkg='aaf2'):
        self.root, self.pkg = root, pkg
        self.modules = {}
        self.bi = dict(libs.BUILTINS)
        self.bi['__import__'] = self._import
        self.bi['__pv_loop__'] = loops.Loop
        self.load(pkg)

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.path_of(name)
        if not os.path.exists(path):
            raise ImportError(name)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.bi
        self.modules[name] = m
        code = transform(src, path, name)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        parent, _, leaf = name.rpartition('.')
        if parent and parent in self.modules:
            setattr(self.modules[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__']
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            full = base + ('.' + name if name else '')
        else:
            full = name
        if full == self.pkg or full.startswith(self.pkg + '.'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(full + '.' + f)
                        except ImportError:
                            pass
                return m
            return self.load(self.pkg) if not level else m
        if full in libs.MODULES:
            return libs.MODULES[full]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return self.load(self.pkg + '.' + k)
