"""Mechanical instrumentation of /repo/lulua/*.py, done on every run.

The abstract syntax tree of the current source is rewritten inside functions and class bodies, so that every construct
whose C implementation would bypass a symbolic operand calls a hook of the engine instead.  On concrete operands each
hook does what the original construct does (cross-checked by running the repository's own tests on the instrumented
modules, see selftest.py).  Nothing else is changed: statements, their order, control flow, calls, exceptions,
generators, attribute accesses and arithmetic are the repository's.

Rewritten:   [..] {..} {k: v}           → engine containers (equality by the elements' own __eq__, symbolic keys allowed)
             comprehensions/generators  → the same comprehension, its outermost iterable passed through a hook
             x in y, x not in y         → contains hook
             a[b] (load), o.get(..) etc. → item/method hooks (native containers with symbolic arguments)
             f-strings, s.join(..)      → string hooks
             for/while                  → the same loop with a hook at the loop head (iteration and invariants)
             yield from e               → for x in e: yield x
Builtins (len, isinstance, int, min, …) are looked up in the engine's table; itertools/collections/… objects in the
module's globals are replaced by engine versions with the same contract (see models.py)."""
import ast, importlib.abc, importlib.util, os, sys

METHODS = {'get', 'pop', 'setdefault', 'index', 'count', 'remove', 'replace', 'split', 'startswith', 'endswith', 'strip',
    'rstrip', 'lstrip', 'encode', 'format', 'find', 'update'}

def name (n, ctx=None): return ast.Name (id=n, ctx=ctx or ast.Load ())
def hook (attr): return ast.Attribute (value=name ('vcx__'), attr=attr, ctx=ast.Load ())
def call (f, *args): return ast.Call (func=f, args=list (args), keywords=[])
def const (v): return ast.Constant (value=v)

class HasBreak (ast.NodeVisitor):
    def __init__ (self): self.found = False
    def visit_Break (self, n): self.found = True
    def visit_For (self, n):
        for s in n.orelse: self.visit (s)
    visit_While = visit_For
    def visit_FunctionDef (self, n): pass
    def visit_Lambda (self, n): pass
    def visit_ClassDef (self, n): pass

PURE = {'max', 'min', 'map', 'abs', 'int', 'len', 'sum', 'any', 'all', 'range', 'zip', 'enumerate', 'bool', 'tuple', 'list', 'sorted', 'isinstance', 'float', 'set', 'frozenset', 'dict', 'reversed', 'round', 'divmod', 'filter'}
def isPure (n):
    """ function without effects: computes a value from its arguments with pure builtins only (syntactic check on the
    original text; used to merge its paths into one if-then-else value) """
    for x in ast.walk (n):
        if isinstance (x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Await, ast.With, ast.Import, ast.ImportFrom, ast.Try, ast.Delete, ast.ClassDef, ast.AsyncFunctionDef)): return False
        if isinstance (x, (ast.Attribute, ast.Subscript)) and not isinstance (x.ctx, ast.Load): return False
        if isinstance (x, ast.Call):
            if not isinstance (x.func, ast.Name) or x.func.id not in PURE: return False
        if isinstance (x, ast.FunctionDef) and x is not n: return False
        if isinstance (x, ast.AugAssign) and not isinstance (x.target, ast.Name): return False
    if not any (isinstance (x, (ast.If, ast.IfExp, ast.BoolOp, ast.Compare)) for x in ast.walk (n)): return False
    return any (isinstance (x, ast.Return) and x.value is not None for x in ast.walk (n))

class Rewriter (ast.NodeTransformer):
    def __init__ (self, modname):
        self.mod = modname
        self.depth = 0      # inside a function or class body
        self.infunc = 0
        self.stack = []
        self.n = 0
        self.loops = 0
        self.functions = []

    def tmp (self, p='t'):
        self.n += 1
        return f'vcx__{p}{self.n}'

    # -- scopes --
    def visit_FunctionDef (self, n):
        pure = isinstance (n, ast.FunctionDef) and isPure (n) and not n.name.startswith ('__')
        # decorators, defaults and annotations belong to the enclosing scope
        n.decorator_list = [self.visit (d) for d in n.decorator_list]
        n.args.defaults = [self.visit (d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit (d) if d else d for d in n.args.kw_defaults]
        self.depth += 1
        self.infunc += 1
        self.stack.append (n.name)
        self.functions.append ('.'.join (self.stack))
        body = []
        for s in n.body:
            r = self.visit (s)
            body += r if isinstance (r, list) else [r]
        n.body = body
        self.stack.pop ()
        self.infunc -= 1
        self.depth -= 1
        if pure: n.decorator_list.append (hook ('pure'))
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef (self, n):
        n.bases = [self.visit (b) for b in n.bases]
        n.decorator_list = [self.visit (d) for d in n.decorator_list]
        self.depth += 1
        infunc, self.infunc = self.infunc, 0
        self.stack.append (n.name)
        body = []
        for s in n.body:
            r = self.visit (s)
            body += r if isinstance (r, list) else [r]
        n.body = body
        self.stack.pop ()
        self.infunc = infunc
        self.depth -= 1
        return n
    def visit_Lambda (self, n):
        n.args.defaults = [self.visit (d) for d in n.args.defaults]
        self.depth += 1
        n.body = self.visit (n.body)
        self.depth -= 1
        return n
    def visit_AnnAssign (self, n):
        # annotations stay as they are
        n.target = self.visit (n.target)
        if n.value: n.value = self.visit (n.value)
        return n
    def visit_arg (self, n): return n

    # -- displays and comprehensions --
    def visit_List (self, n):
        self.generic_visit (n)
        if not self.depth or not isinstance (n.ctx, ast.Load): return n
        return call (hook ('mkList'), n)
    def visit_Set (self, n):
        self.generic_visit (n)
        if not self.depth: return n
        return call (hook ('mkSet'), ast.List (elts=n.elts, ctx=ast.Load ()))
    def visit_Dict (self, n):
        self.generic_visit (n)
        if not self.depth: return n
        if any (k is None for k in n.keys):
            parts = []
            for k, v in zip (n.keys, n.values):
                parts.append (ast.Tuple (elts=[const (k is None), k if k is not None else const (None), v], ctx=ast.Load ()))
            return call (hook ('mkDict2'), ast.List (elts=parts, ctx=ast.Load ()))
        return call (hook ('mkDict'), ast.List (elts=[ast.Tuple (elts=[k, v], ctx=ast.Load ()) for k, v in zip (n.keys, n.values)], ctx=ast.Load ()))
    def comp (self, n, kind):
        self.generic_visit (n)
        if not self.depth: return n
        g = n.generators[0]
        if g.is_async: return n
        outer = g.iter
        v = self.tmp ('it')
        g.iter = name (v)
        for h in n.generators[1:]:
            h.iter = call (hook ('it'), h.iter)
        inner = n
        if kind == 'dict':
            inner = ast.ListComp (elt=ast.Tuple (elts=[n.key, n.value], ctx=ast.Load ()), generators=n.generators)
        elif kind == 'set':
            inner = ast.ListComp (elt=n.elt, generators=n.generators)
        f = ast.Lambda (args=ast.arguments (posonlyargs=[], args=[ast.arg (arg=v)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=inner)
        return call (hook ('comp'), const (kind), outer, f)
    def visit_ListComp (self, n): return self.comp (n, 'list')
    def visit_SetComp (self, n): return self.comp (n, 'set')
    def visit_DictComp (self, n): return self.comp (n, 'dict')
    def visit_GeneratorExp (self, n): return self.comp (n, 'gen')

    # -- operators --
    def visit_Compare (self, n):
        self.generic_visit (n)
        if not self.depth: return n
        if len (n.ops) == 1 and isinstance (n.ops[0], (ast.In, ast.NotIn)):
            c = call (hook ('contains'), n.comparators[0], n.left)
            return c if isinstance (n.ops[0], ast.In) else ast.UnaryOp (op=ast.Not (), operand=c)
        if len (n.ops) == 1 and isinstance (n.ops[0], (ast.Is, ast.IsNot)):
            c = call (hook ('is_'), n.left, n.comparators[0])
            return c if isinstance (n.ops[0], ast.Is) else ast.UnaryOp (op=ast.Not (), operand=c)
        return n
    def visit_Subscript (self, n):
        self.generic_visit (n)
        if not self.depth or not isinstance (n.ctx, ast.Load): return n
        if isinstance (n.slice, ast.Slice):
            s = n.slice
            k = call (name ('slice'), *(x if x is not None else const (None) for x in (s.lower, s.upper, s.step)))
        else:
            k = n.slice
        return call (hook ('getitem'), n.value, k)
    def visit_JoinedStr (self, n):
        if not self.depth:
            return n
        parts = []
        for v in n.values:
            if isinstance (v, ast.Constant):
                parts.append (v)
            else:
                spec = const ('')
                if v.format_spec is not None:
                    spec = self.visit (v.format_spec)
                parts.append (ast.Tuple (elts=[self.visit (v.value), const (v.conversion), spec], ctx=ast.Load ()))
        return call (hook ('fstr'), ast.Tuple (elts=parts, ctx=ast.Load ()))
    def visit_Call (self, n):
        self.generic_visit (n)
        if not self.depth: return n
        f = n.func
        if isinstance (f, ast.Attribute):
            if f.attr == 'join' and len (n.args) == 1 and not n.keywords:
                return call (hook ('join'), f.value, n.args[0])
            if f.attr in METHODS and not any (isinstance (a, ast.Starred) for a in n.args):
                return ast.Call (func=hook ('mcall'), args=[f.value, const (f.attr)] + n.args, keywords=n.keywords)
        return n
    def visit_BinOp (self, n):
        self.generic_visit (n)
        if self.depth and isinstance (n.op, ast.Mod) and isinstance (n.left, ast.Constant) and isinstance (n.left.value, (str, bytes)):
            return call (hook ('modstr'), n.left, n.right)
        return n

    # -- statements --
    def visit_Expr (self, n):
        if self.infunc and isinstance (n.value, ast.YieldFrom):
            v = self.tmp ('y')
            return self.visit (ast.copy_location (ast.For (target=name (v, ast.Store ()), iter=n.value.value,
                body=[ast.Expr (value=ast.Yield (value=name (v)))], orelse=[], lineno=n.lineno, col_offset=0), n))
        self.generic_visit (n)
        return n
    def loopId (self, n):
        self.loops += 1
        return f'{self.mod}.{".".join (self.stack)}:{self.loops}'
    def _head (self, act, n):
        return ast.Expr (value=call (ast.Attribute (value=name (act), attr='arrive', ctx=ast.Load ())))
    def visit_For (self, n):
        if not self.infunc:
            self.generic_visit (n)
            return n
        lid = self.loopId (n)
        act = self.tmp ('a')
        val = self.tmp ('v')
        it = self.visit (n.iter)
        head = self._head (act, n)
        body = self.body (n.body)
        orelse = self.body (n.orelse)
        loop = ast.While (test=const (True), body=[
            head,
            ast.Assign (targets=[name (val, ast.Store ())], value=call (ast.Attribute (value=name (act), attr='next', ctx=ast.Load ())), lineno=n.lineno),
            ast.If (test=ast.Compare (left=name (val), ops=[ast.Is ()], comparators=[hook ('STOP')]), body=(orelse if orelse else []) + [ast.Break ()], orelse=[]),
            ast.Assign (targets=[n.target], value=name (val), lineno=n.lineno),
            ] + body, orelse=[], lineno=n.lineno)
        # the target may contain subscripts/attributes
        out = [ast.Assign (targets=[name (act, ast.Store ())], value=call (hook ('enter'), const (lid), it), lineno=n.lineno), loop]
        if orelse and HasContinue (n.orelse):
            raise SyntaxError ('break/continue in else of a loop')
        return [ast.copy_location (x, n) for x in out]
    def visit_While (self, n):
        if not self.infunc:
            self.generic_visit (n)
            return n
        lid = self.loopId (n)
        act = self.tmp ('a')
        head = self._head (act, n)
        test = self.visit (n.test)
        body = self.body (n.body)
        orelse = self.body (n.orelse)
        out = [ast.Assign (targets=[name (act, ast.Store ())], value=call (hook ('enter'), const (lid)), lineno=n.lineno)]
        loop = ast.While (test=const (True), body=[head,
            ast.If (test=ast.UnaryOp (op=ast.Not (), operand=test), body=[ast.Expr (value=call (ast.Attribute (value=name (act), attr='exit', ctx=ast.Load ())))] + (orelse if orelse else []) + [ast.Break ()], orelse=[])]
            + body, orelse=[], lineno=n.lineno)
        out.append (loop)
        return [ast.copy_location (x, n) for x in out]
    def body (self, stmts):
        out = []
        for s in stmts:
            r = self.visit (s)
            out += r if isinstance (r, list) else [r]
        return out

def HasContinue (stmts):
    h = HasBreak ()
    for s in stmts: h.visit (s)
    return h.found

def instrument (source, filename, modname):
    tree = ast.parse (source, filename)
    r = Rewriter (modname)
    tree = r.visit (tree)
    ast.fix_missing_locations (tree)
    return compile (tree, filename, 'exec'), r.functions

class Finder (importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__ (self, repo, builtins, hooks, patch):
        self.repo = repo
        self.builtins = builtins
        self.hooks = hooks
        self.patch = patch
        self.functions = {}
    def find_spec (self, fullname, path, target=None):
        if fullname == 'lulua':
            return None
        if not fullname.startswith ('lulua.'): return None
        f = f'{self.repo}/lulua/{fullname[6:]}.py'
        if not os.path.exists (f) or fullname.startswith ('lulua.test_'): return None
        return importlib.util.spec_from_file_location (fullname, f, loader=self)
    def create_module (self, spec): return None
    def exec_module (self, module):
        f = module.__spec__.origin
        code, fns = instrument (open (f, encoding='utf-8').read (), f, module.__name__)
        self.functions[module.__name__] = fns
        module.__dict__['__builtins__'] = self.builtins
        module.__dict__['vcx__'] = self.hooks
        exec (code, module.__dict__)
        self.patch (module)
