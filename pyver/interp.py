"""Symbolic executor for the Python client: every path of a call, branch conditions decided by z3.

The text executed is the source under python/comfo, parsed afresh on every run.  Modules outside that
package are the models in models.py; anything neither modelled nor handled raises Unsupported, which the
checker turns into a failed obligation.
"""
import ast
import os

import z3


class Unsupported(BaseException):
    pass


class Infeasible(BaseException):
    pass


class PyExc(BaseException):
    """A Python exception raised by the program under verification."""

    def __init__(self, obj):
        self.obj = obj


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


class Sym:
    """A symbolic scalar: kind is int, bool, real, str or bytes."""
    __slots__ = ('kind', 't')

    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __repr__(self):
        return str(self.t)


class Cls:
    def __init__(self, name, bases, ns, module=''):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        # C3, which for the single inheritance used here is the chain of bases
        seqs = [b.mro() for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                if not any(s[0] in t[1:] for t in seqs):
                    head = s[0]
                    break
            else:
                raise Unsupported('inconsistent bases')
            out.append(head)
            for s in seqs:
                if s[0] is head:
                    del s[0]

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        raise KeyError(name)

    def has(self, name):
        return any(name in c.ns for c in self.mro())

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<class %s>' % self.name


class Obj:
    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, attrs if attrs is not None else {}

    def __repr__(self):
        return '<%s %r>' % (self.cls.name, self.attrs)


class Func:
    def __init__(self, name, args, body, env, defaults, kwdefaults, is_async=False, owner=None, is_gen=False):
        self.name, self.args, self.body, self.env = name, args, body, env
        self.defaults, self.kwdefaults, self.is_async, self.owner, self.is_gen = defaults, kwdefaults, is_async, owner, is_gen
        self.attrs = {'__name__': name, '__qualname__': name, '__doc__': None}


class Native:
    """A modelled function: fn(interp, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Static:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Coro:
    def __init__(self, run):
        self.run = run


class Future:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc


class Mod:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class Inert:
    """Something without effect on the properties: logging, typing."""

    def __repr__(self):
        return 'inert'


INERT = Inert()


class Havoc:
    def __repr__(self):
        return 'any value'


HAVOC = Havoc()


class Env:
    def __init__(self, vars_, parent=None, globals_=None, func=None):
        self.vars, self.parent, self.func = vars_, parent, func
        self.globals = globals_ if globals_ is not None else (parent.globals if parent else vars_)
        self.declared_global, self.declared_nonlocal = set(), set()
        self.locals = None  # names assigned in the function


class Path:
    """The choices made on one path; exploring continues from the last one with an alternative left."""

    def __init__(self, script=()):
        self.script, self.pos, self.trace = list(script), 0, []

    def choose(self, n):
        if self.pos < len(self.script):
            c = self.script[self.pos][0]
        else:
            c = 0
            self.script.append([0, n])
        self.pos += 1
        return c

    def next(self):
        s = [list(x) for x in self.script]
        while s and s[-1][0] + 1 >= s[-1][1]:
            s.pop()
        if not s:
            return None
        s[-1][0] += 1
        return Path(s)


BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'GeneratorExit': 'BaseException', 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'LookupError': 'Exception', 'KeyError': 'LookupError',
    'IndexError': 'LookupError', 'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'ConnectionError': 'OSError',
    'TimeoutError': 'OSError', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
    'StopIteration': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
}


class Interp:
    MAXITER = 2000
    MAXDEPTH = 60

    def __init__(self, root, pkg='comfo'):
        self.root, self.pkg = root, pkg
        self.path = Path()
        self.pc = []
        self.solver = z3.Solver()
        self.modules = {}
        self.asts = {}
        self.n = 0
        self.depth = 0
        self.events = []      # requests made
        self.in_executor = 0
        self.executed = set()  # functions executed in place
        self.models_used = set()
        self.queries = 0
        self.excstack = []
        self.object = Cls('object', [], {})
        self.types = {k: Cls(k, [self.object], {}) for k in ('int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'range', 'NoneType', 'function', 'type')}
        self.types['bool'] = Cls('bool', [self.types['int']], {})
        self.excs = {}
        for k, b in BUILTIN_EXC.items():
            self.excs[k] = Cls(k, [self.excs[b] if b else self.object], {})
        from . import models
        self.ext = models.Models(self)
        self.builtins = self.ext.builtins()

    # ---- path conditions
    def fresh(self, kind, name):
        self.n += 1
        nm = '%s!%d' % (name, self.n)
        t = {'int': z3.Int, 'bool': z3.Bool, 'real': z3.Real, 'str': z3.String, 'bytes': z3.String}[kind](nm)
        return Sym(kind, t)

    def assume(self, f):
        self.pc.append(f)
        self.solver.add(f)

    def feasible(self, f):
        self.queries += 1
        r = self.solver.check(f)
        return r != z3.unsat

    def branch(self, cond):
        """Decide a truth value, splitting the path where both are possible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not self.feasible(cond):
            return False
        if not self.feasible(z3.Not(cond)):
            return True
        c = self.path.choose(2) == 0
        self.assume(cond if c else z3.Not(cond))
        return c

    def choose(self, n):
        return self.path.choose(n)

    # ---- errors of the program
    def exc(self, name, *args):
        return PyExc(Obj(self.excs[name], {'args': tuple(args)}))

    # ---- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == self.pkg or name.startswith(self.pkg + '.'):
            rel = name.split('.')
            base = os.path.join(self.root, *rel)
            is_pkg = os.path.isdir(base)
            fn = os.path.join(base, '__init__.py') if is_pkg else base + '.py'
            if not os.path.exists(fn):
                raise self.exc('ModuleNotFoundError', name)
            if fn not in self.asts:
                with open(fn, encoding='utf-8') as f:
                    self.asts[fn] = ast.parse(f.read(), fn)
            m = Mod(name, {'__name__': name, '__package__': name if is_pkg else name.rpartition('.')[0]})
            if '.' in name:
                parent = self.load(name.rpartition('.')[0])
            self.modules[name] = m
            env = Env(m.ns, None, m.ns)
            self.block(self.asts[fn].body, env)
            if '.' in name:
                parent.ns[name.rpartition('.')[2]] = m
            return m
        m = self.ext.module(name)
        if m is None:
            raise Unsupported('no model of the module %s' % name)
        self.models_used.add(name)
        self.modules[name] = m
        return m

    # ---- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
        m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.declared_global.update(s.names)

    def s_Nonlocal(self, s, env):
        env.declared_nonlocal.update(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.load(a.name)
            if a.asname is None and '.' in a.name:
                m = self.load(a.name.split('.')[0])
            self.setname(a.asname or a.name.split('.')[0], m, env)

    def s_ImportFrom(self, s, env):
        name = s.module or ''
        if s.level:
            p = env.globals['__package__'].split('.')
            p = p[:len(p) - s.level + 1]
            name = '.'.join(p + ([name] if name else []))
        if name == '__future__':
            return
        m = self.load(name)
        for a in s.names:
            if a.name == '*':
                names = m.ns.get('__all__') or [k for k in m.ns if not k.startswith('_')]
                for k in names:
                    self.setname(k, m.ns[k], env)
                continue
            if isinstance(m, Inert) or a.name not in m.ns:
                sub = self.submodule(name, a.name, m)
            else:
                sub = m.ns[a.name]
            self.setname(a.asname or a.name, sub, env)

    def submodule(self, name, attr, m):
        if isinstance(m, Inert):
            return INERT
        if name == self.pkg or name.startswith(self.pkg + '.'):
            try:
                return self.load(name + '.' + attr)
            except PyExc:
                raise self.exc('ImportError', attr)
        x = self.ext.module(name + '.' + attr)
        if x is None:
            raise Unsupported('no model of %s.%s' % (name, attr))
        self.models_used.add(name + '.' + attr)
        return x

    def s_FunctionDef(self, s, env):
        self.deffunc(s, env, False)

    def s_AsyncFunctionDef(self, s, env):
        self.deffunc(s, env, True)

    def mkfunc(self, s, env, name, body, is_async):
        a = s.args
        f = Func(name, a, body, env, [self.ev(d, env) for d in a.defaults],
                 [self.ev(d, env) if d is not None else None for d in a.kw_defaults], is_async)
        if isinstance(body, list):
            f.locals = assigned(body)
            f.is_gen = yields(body)
        else:
            f.locals = walrus(body)
        doc = isinstance(body, list) and body and ast.get_docstring(ast.Module(body=body, type_ignores=[]))
        f.attrs['__doc__'] = doc or None
        f.fullname = (getattr(env, 'clsname', '') + '.' if getattr(env, 'clsname', '') else '') + name
        f.module = env.globals.get('__name__', '')
        return f

    def deffunc(self, s, env, is_async):
        decs = [self.ev(d, env) for d in s.decorator_list]
        f = self.mkfunc(s, env, s.name, s.body, is_async)
        v = f
        for d in reversed(decs):
            v = self.call(d, [v], {})
        self.setname(s.name, v, env)

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        if s.keywords:
            raise Unsupported('class keywords at line %d' % s.lineno)
        bases = [b for b in bases if not isinstance(b, Inert)]
        for b in bases:
            if not isinstance(b, Cls):
                raise Unsupported('base class at line %d' % s.lineno)
        ns = {}
        cenv = Env(ns, env, env.globals)
        cenv.is_class = True
        cenv.clsname = s.name
        c = Cls(s.name, bases or [self.object], ns, env.globals.get('__name__', ''))
        cenv.cls = c
        self.block(s.body, cenv)
        ns.setdefault('__doc__', None)
        ns['__name__'] = s.name
        ns['__qualname__'] = s.name
        ns['__module__'] = env.globals.get('__name__', '')
        if any(b.has('__enum__') for b in bases):
            self.ext.finish_enum(c)
        v = c
        for d in reversed([self.ev(d, env) for d in s.decorator_list]):
            v = self.call(d, [v], {})
        self.setname(s.name, v, env)

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value else None)

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_While(self, s, env):
        for i in range(self.MAXITER):
            if i > 8 and len(self.path.script) > 200:
                break
            if not self.truth(self.ev(s.test, env)):
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass
        raise Unsupported('the loop at line %d does not end within the executed iterations' % s.lineno)

    def s_For(self, s, env):
        it = self.iterate(self.ev(s.iter, env))
        for x in it:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getname(t.id, env)
            self.setname(t.id, self.binop(s.op, cur, self.ev(s.value, env), inplace=True), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, self.binop(s.op, self.getattr(o, t.attr), self.ev(s.value, env), inplace=True))
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            self.setitem(o, i, self.binop(s.op, self.getitem(o, i), self.ev(s.value, env), inplace=True))

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name) and t.id in env.vars:
                del env.vars[t.id]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise self.exc('AttributeError', t.attr)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, env), self.ev(t.slice, env)
                if isinstance(o, dict) and not isinstance(i, Sym):
                    if i not in o:
                        raise self.exc('KeyError', i)
                    del o[i]
                else:
                    raise Unsupported('del at line %d' % s.lineno)
            else:
                raise Unsupported('del at line %d' % s.lineno)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise self.exc('AssertionError', *([self.ev(s.msg, env)] if s.msg else []))

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.excstack:
                raise self.exc('RuntimeError', 'No active exception to reraise')
            raise PyExc(self.excstack[-1])
        e = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if not (isinstance(e, Obj) and e.cls.subclass_of(self.excs['BaseException'])):
            raise self.exc('TypeError', 'exceptions must derive from BaseException')
        raise PyExc(e)

    def matches(self, e, spec):
        if isinstance(spec, tuple):
            return any(self.matches(e, x) for x in spec)
        if not isinstance(spec, Cls):
            raise Unsupported('except clause')
        return e.cls.subclass_of(spec)

    def s_Try(self, s, env):
        def run():
            try:
                self.block(s.body, env)
            except PyExc as pe:
                e = pe.obj
                for h in s.handlers:
                    if h.type is None or self.matches(e, self.ev(h.type, env)):
                        self.excstack.append(e)
                        try:
                            if h.name:
                                self.setname(h.name, e, env)
                            self.block(h.body, env)
                        finally:
                            self.excstack.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        return
                raise
            self.block(s.orelse, env)
        if not s.finalbody:
            run()
            return
        pending = None
        try:
            run()
        except (PyExc, _Return, _Break, _Continue) as e:
            pending = e
        if isinstance(pending, PyExc):
            self.excstack.append(pending.obj)
        try:
            self.block(s.finalbody, env)
        finally:
            if isinstance(pending, PyExc):
                self.excstack.pop()
        if pending is not None:
            raise pending

    def s_With(self, s, env):
        self.with_items(s, s.items, env)

    def with_items(self, s, items, env):
        if not items:
            self.block(s.body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        ex = self.getattr(cm, '__exit__')
        try:
            self.with_items(s, items[1:], env)
        except PyExc as e:
            if not self.truth(self.call(ex, [e.obj.cls, e.obj, None], {})):
                raise
            return
        except (_Return, _Break, _Continue):
            self.call(ex, [None, None, None], {})
            raise
        self.call(ex, [None, None, None], {})

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.pattern(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name:
                self.setname(p.name, v, env)
            return True
        raise Unsupported('match pattern')

    # ---- names
    def getname(self, n, env):
        if n in env.declared_global:
            if n in env.globals:
                return env.globals[n]
        else:
            e = env
            first = True
            while e is not None:
                if first or not getattr(e, 'is_class', False):
                    if n in e.vars:
                        return e.vars[n]
                    if first and e.locals and n in e.locals:
                        raise self.exc('UnboundLocalError', n)
                first = False
                e = e.parent
            if n in env.globals:
                return env.globals[n]
        if n in self.builtins:
            return self.builtins[n]
        if n == '__class__' or n in BUILTINS_UNSUPPORTED:
            raise Unsupported('name %s' % n)
        raise self.exc('NameError', n)

    def setname(self, n, v, env):
        if n in env.declared_global:
            env.globals[n] = v
            return
        if n in env.declared_nonlocal:
            e = env.parent
            while e is not None:
                if n in e.vars and not getattr(e, 'is_class', False):
                    e.vars[n] = v
                    return
                e = e.parent
            raise Unsupported('nonlocal %s' % n)
        env.vars[n] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(vs) - (len(t.elts) - 1)
                if k < 0:
                    raise self.exc('ValueError', 'not enough values to unpack')
                vs = vs[:i] + [vs[i:i + k]] + vs[i + k:]
            if len(vs) != len(t.elts):
                raise self.exc('ValueError', 'unpack')
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        else:
            raise Unsupported('assignment target')

    # ---- attributes
    def clsof(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Sym):
            return self.types[{'int': 'int', 'bool': 'bool', 'real': 'float', 'str': 'str', 'bytes': 'bytes'}[v.kind]]
        if v is None:
            return self.types['NoneType']
        for ty, n in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (bytes, 'bytes'), (list, 'list'), (tuple, 'tuple'), (dict, 'dict'), (set, 'set'), (frozenset, 'set'), (range, 'range')):
            if isinstance(v, ty):
                return self.types[n]
        if isinstance(v, (Func, Native, Bound, Partial)):
            return self.types['function']
        if isinstance(v, Cls):
            return self.types['type']
        raise Unsupported('type of %r' % (v,))

    def bind(self, v, obj, cls):
        if isinstance(v, (Func, Native)) and obj is not None:
            return Bound(v, obj)
        if isinstance(v, Prop):
            if obj is None:
                return v
            return self.call(v.fget, [obj], {})
        if isinstance(v, Static):
            return v.fn
        if isinstance(v, ClassM):
            return Bound(v.fn, cls)
        return v

    def getattr(self, o, n):
        if o is HAVOC:
            raise Unsupported('a value another call may have changed is used')
        if isinstance(o, Inert):
            return INERT
        if isinstance(o, Mod):
            if n in o.ns:
                return o.ns[n]
            if o.name == self.pkg or o.name.startswith(self.pkg + '.'):
                raise self.exc('AttributeError', n)
            x = self.ext.module(o.name + '.' + n)
            if x is None:
                raise Unsupported('no model of %s.%s' % (o.name, n))
            self.models_used.add(o.name + '.' + n)
            return x
        if isinstance(o, Obj):
            hook = o.cls.ns.get('__model_getattr__')
            for c in o.cls.mro():
                hook = c.ns.get('__model_getattr__')
                if hook:
                    break
            if hook:
                r = hook(self, o, n)
                if r is not NotImplemented:
                    return r
            if n == '__class__':
                return o.cls
            if n == '__dict__':
                return o.attrs
            try:
                v = o.cls.lookup(n)
                if isinstance(v, Prop):
                    return self.bind(v, o, o.cls)
            except KeyError:
                v = KeyError
            if n in o.attrs:
                if o.attrs[n] is HAVOC:
                    raise Unsupported('%s.%s may have been changed by another call' % (o.cls.name, n))
                return o.attrs[n]
            if v is not KeyError:
                return self.bind(v, o, o.cls)
            if o.cls.has('__getattr__'):
                return self.call(Bound(o.cls.lookup('__getattr__'), o), [n], {})
            if n == '__init__' or n in ('__enter__', '__exit__'):
                pass
            if o.cls.subclass_of(self.excs['BaseException']):
                if n in ('__cause__', '__context__', '__traceback__'):
                    return None
                if n == 'with_traceback':
                    return Native(n, lambda it, a, k: o)
            raise self.exc('AttributeError', n)
        if isinstance(o, Cls):
            if n == '__mro__':
                return tuple(o.mro())
            for c in o.mro():
                hook = c.ns.get('__model_clsattr__')
                if hook:
                    r = hook(self, o, n)
                    if r is not NotImplemented:
                        return r
            try:
                return self.bind(o.lookup(n), None, o)
            except KeyError:
                pass
            if n == '__name__':
                return o.name
            if n == '__dict__':
                return o.ns
            raise self.exc('AttributeError', n)
        if isinstance(o, Super):
            m = o.obj.cls.mro() if isinstance(o.obj, Obj) else o.obj.mro()
            for c in m[m.index(o.cls) + 1:]:
                if n in c.ns:
                    return self.bind(c.ns[n], o.obj, c)
            if n == '__init__':
                return Native('object.__init__', lambda it, a, k: None)
            raise self.exc('AttributeError', n)
        if isinstance(o, (Func,)):
            if n in o.attrs:
                return o.attrs[n]
            raise self.exc('AttributeError', n)
        if isinstance(o, Bound):
            if n == '__self__':
                return o.self_
            if n == '__func__':
                return o.fn
            if n in ('__name__', '__doc__', '__qualname__'):
                return getattr(o.fn, 'attrs', {}).get(n, getattr(o.fn, 'name', None))
            raise self.exc('AttributeError', n)
        if isinstance(o, Prop):
            if n == 'setter':
                return Native('setter', lambda it, a, k: Prop(o.fget, a[0]))
        if isinstance(o, Partial):
            return {'func': o.fn, 'args': tuple(o.args), 'keywords': o.kwargs}[n]
        return self.ext.method(o, n)

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            for c in o.cls.mro():
                hook = c.ns.get('__model_setattr__')
                if hook:
                    hook(self, o, n, v)
                    return
            if o.cls.has('__setattr__'):
                self.call(Bound(o.cls.lookup('__setattr__'), o), [n, v], {})
                return
            if o.cls.has(n):
                d = o.cls.lookup(n)
                if isinstance(d, Prop):
                    if d.fset is None:
                        raise self.exc('AttributeError', n)
                    self.call(d.fset, [o, v], {})
                    return
            o.attrs[n] = v
        elif isinstance(o, Cls):
            o.ns[n] = v
        elif isinstance(o, Func):
            o.attrs[n] = v
        elif isinstance(o, Mod):
            o.ns[n] = v
        elif isinstance(o, Inert):
            pass
        else:
            raise self.exc('AttributeError', n)

    # ---- calls
    def call(self, f, args, kwargs):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            self.depth -= 1
            raise Unsupported('calls nest too deeply')
        try:
            return self.call1(f, list(args), dict(kwargs))
        finally:
            self.depth -= 1

    def call1(self, f, args, kwargs):
        if isinstance(f, Bound):
            return self.call1(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call1(f.fn, list(f.args) + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Inert):
            return INERT
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Static):
            return self.call1(f.fn, args, kwargs)
        if isinstance(f, Obj) and f.cls.has('__call__'):
            return self.call1(self.bind(f.cls.lookup('__call__'), f, f.cls), args, kwargs)
        if f is HAVOC or isinstance(f, (Sym, Mod)):
            raise Unsupported('call of %r' % (f,))
        raise self.exc('TypeError', 'not callable')

    def instantiate(self, c, args, kwargs):
        for b in c.mro():
            hook = b.ns.get('__model_new__')
            if hook:
                return hook(self, c, args, kwargs)
        for k, t in self.types.items():
            if c is t:
                return self.ext.convert(k, args, kwargs)
        if c is self.object:
            return Obj(c)
        if c.has('__new__'):
            raise Unsupported('__new__')
        o = Obj(c)
        if c.subclass_of(self.excs['BaseException']):
            o.attrs['args'] = tuple(args)
        if c.has('__init__'):
            r = self.call1(self.bind(c.lookup('__init__'), o, c), args, kwargs)
            if r is not None:
                raise self.exc('TypeError', '__init__ should return None')
        elif (args or kwargs) and not c.subclass_of(self.excs['BaseException']):
            raise self.exc('TypeError', 'takes no arguments')
        return o

    def call_func(self, f, args, kwargs):
        self.executed.add((f.module + ':' + f.fullname))
        a = f.args
        vars_ = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        n = len(pos)
        if len(args) > n and not a.vararg:
            raise self.exc('TypeError', 'too many arguments')
        for k, v in zip(pos, args):
            vars_[k] = v
        if a.vararg:
            vars_[a.vararg.arg] = tuple(args[n:])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in kwonly or (k in pos and k not in [x.arg for x in a.posonlyargs]):
                if k in vars_:
                    raise self.exc('TypeError', 'multiple values for argument')
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise self.exc('TypeError', 'unexpected keyword argument')
        if a.kwarg:
            vars_[a.kwarg.arg] = extra
        for k, d in zip(pos[n - len(f.defaults):], f.defaults):
            vars_.setdefault(k, d)
        for k, d, node in zip(kwonly, f.kwdefaults, a.kw_defaults):
            if node is not None:
                vars_.setdefault(k, d)
        for k in pos + kwonly:
            if k not in vars_:
                raise self.exc('TypeError', 'missing argument')
        env = Env(vars_, f.env, f.env.globals, f)
        env.locals = f.locals
        cls = getattr(f.env, 'cls', None)
        env.super_cls = cls
        if f.is_gen:
            raise Unsupported('generator function %s' % f.name)

        def run():
            saved = self.excstack
            try:
                if not isinstance(f.body, list):
                    return self.ev(f.body, env)
                self.block(f.body, env)
            except _Return as r:
                return r.v
            finally:
                self.excstack = saved
            return None
        if f.is_async:
            return Coro(run)
        return run()

    def await_(self, v):
        if isinstance(v, Coro):
            if v.run is None:
                raise self.exc('RuntimeError', 'cannot reuse already awaited coroutine')
            r, v.run = v.run, None
            return r()
        if isinstance(v, Future):
            if v.exc is not None:
                raise PyExc(v.exc)
            return v.value
        if isinstance(v, (Inert, Obj)) or v is HAVOC:
            raise Unsupported('await of %r' % (v,))
        raise self.exc('TypeError', "object can't be used in 'await' expression")

    # ---- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %d' % (type(e).__name__, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        if e.id == 'super':
            return Native('super', lambda it, a, k: self.mksuper(a, env))
        return self.getname(e.id, env)

    def mksuper(self, a, env):
        if a:
            return Super(a[0], a[1])
        e = env
        while e is not None and getattr(e, 'super_cls', None) is None:
            e = e.parent
        if e is None:
            raise Unsupported('super()')
        first = (e.func.args.posonlyargs + e.func.args.args)[0].arg
        return Super(e.super_cls, e.vars[first])

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, dict):
                    raise Unsupported('** of %r' % (d,))
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        if isinstance(f, Native) and f.name in ('locals', 'globals', 'vars') and not args:
            return env.globals if f.name == 'globals' else env.vars
        return self.call(f, args, kwargs)

    def e_Await(self, e, env):
        return self.await_(self.ev(e.value, env))

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env, '<lambda>', e.body, False)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        t = env
        while getattr(t, 'is_comp', False):
            t = t.parent
        self.setname(e.target.id, v, t)
        return v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truthterm(v)
            return (not t) if isinstance(t, bool) else Sym('bool', z3.Not(t))
        if isinstance(v, Sym):
            v = self.num(v)
            if isinstance(e.op, ast.USub):
                return Sym(v.kind, -v.t)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert) and v.kind == 'int':
                return Sym('int', -v.t - 1)
            raise Unsupported('unary operator')
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        raise self.exc('TypeError', 'bad operand type')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        v = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v):
                return v
            left = right
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        v = self.elts(e.elts, env)
        if any(not isinstance(x, (int, str, float, bool, type(None))) for x in v):
            raise Unsupported('set display')
        return set(v)

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def key(self, k):
        if isinstance(k, (Sym, list, dict)):
            raise Unsupported('symbolic key')
        return k

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.key(self.ev(k, env))] = self.ev(v, env)
        return d

    def comp(self, gens, env, emit):
        cenv = Env({}, env, env.globals)
        cenv.is_comp = True

        def go(i):
            if i == len(gens):
                emit(cenv)
                return
            g = gens[i]
            for x in self.iterate(self.ev(g.iter, env if i == 0 else cenv)):
                self.assign(g.target, x, cenv)
                if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda c: out.append(self.ev(e.elt, c)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return set(self.key(x) for x in self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out = {}

        def emit(c):
            k = self.key(self.ev(e.key, c))
            out[k] = self.ev(e.value, c)
        self.comp(e.generators, env, emit)
        return out

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                    if isinstance(x, Sym) or isinstance(spec, Sym):
                        if spec not in ('', 's', 'd'):
                            raise Unsupported('format specification')
                    else:
                        if not isinstance(x, (int, float, str)):
                            raise Unsupported('format specification')
                        parts.append(format(x, spec))
                        continue
                parts.append(self.ext.repr(x) if v.conversion == 114 else self.ext.str(x))
        return self.concat(parts)

    def concat(self, parts):
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        ts = [z3.StringVal(p) if isinstance(p, str) else p.t for p in parts if not (isinstance(p, str) and p == '')]
        return Sym('str', ts[0] if len(ts) == 1 else z3.Concat(*ts))

    def e_FormattedValue(self, e, env):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), env)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev(e.slice, env))

    def e_Slice(self, e, env):
        return slice(*(self.ev(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)))

    def getitem(self, o, i):
        if isinstance(o, Inert):
            return INERT
        if isinstance(o, Cls):
            if o.has('__enum__'):
                try:
                    return o.ns[i]
                except KeyError:
                    raise self.exc('KeyError', i)
            return o  # a generic alias
        if isinstance(o, Obj) and o.cls.has('__getitem__'):
            return self.call(self.bind(o.cls.lookup('__getitem__'), o, o.cls), [i], {})
        if isinstance(o, dict):
            if isinstance(i, Sym):
                for k in o:
                    if self.truth(self.eq(i, k)):
                        return o[k]
                raise self.exc('KeyError', i)
            try:
                if i in o:
                    return o[i]
            except TypeError:
                raise Unsupported('key %r' % (i,))
            for k in o:
                if self.truth(self.eq(i, k)):
                    return o[k]
            raise self.exc('KeyError', i)
        if isinstance(o, (list, tuple, str, bytes, range)):
            if isinstance(i, Sym) and i.kind in ('int', 'bool'):
                for k in range(len(o)):
                    if self.truth(self.eq(i, k)):
                        return o[k]
                for k in range(1, len(o) + 1):
                    if self.truth(self.eq(i, -k)):
                        return o[-k]
                raise self.exc('IndexError', i)
            if isinstance(i, slice) and not any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
                return o[i]
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise self.exc('IndexError', i)
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, i, v):
        if isinstance(o, dict):
            o[self.key(i)] = v
        elif isinstance(o, list) and isinstance(i, int):
            try:
                o[i] = v
            except IndexError:
                raise self.exc('IndexError', i)
        elif isinstance(o, Inert):
            pass
        else:
            raise Unsupported('subscript assignment')

    # ---- operators
    def truthterm(self, v):
        if isinstance(v, Sym):
            return {'bool': lambda: v.t, 'int': lambda: v.t != 0, 'real': lambda: v.t != 0, 'str': lambda: v.t != z3.StringVal(''), 'bytes': lambda: v.t != z3.StringVal('')}[v.kind]()
        if v is HAVOC:
            raise Unsupported('a value another call may have changed is used')
        if isinstance(v, Obj):
            if v.cls.has('__bool__'):
                return self.truthterm(self.call(self.bind(v.cls.lookup('__bool__'), v, v.cls), [], {}))
            if v.cls.has('__len__'):
                return self.truthterm(self.call(self.bind(v.cls.lookup('__len__'), v, v.cls), [], {}))
            if 'intvalue' in v.attrs:
                return bool(v.attrs['value'])
            return True
        if isinstance(v, Inert):
            raise Unsupported('truth of an unmodelled value')
        if isinstance(v, (type(None), bool, int, float, str, bytes, list, tuple, dict, set, frozenset, range)):
            return bool(v)
        return True

    def truth(self, v):
        return self.branch(self.truthterm(v))

    def num(self, v):
        """A numeric Sym for a number, None for anything else."""
        if isinstance(v, Sym):
            if v.kind == 'bool':
                return Sym('int', z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
            return v if v.kind in ('int', 'real') else None
        if isinstance(v, bool):
            return Sym('int', z3.IntVal(int(v)))
        if isinstance(v, int):
            return Sym('int', z3.IntVal(v))
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('float')
            from fractions import Fraction
            fr = Fraction(v)
            return Sym('real', z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)))
        if isinstance(v, Obj) and 'intvalue' in v.attrs:
            return self.num(v.attrs['value'])
        return None

    def pair(self, a, b):
        x, y = self.num(a), self.num(b)
        if x is None or y is None:
            return None
        if x.kind != y.kind:
            x, y = (Sym('real', z3.ToReal(s.t)) if s.kind == 'int' else s for s in (x, y))
        return x, y

    def wrapb(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return Sym('bool', t)

    def isstr(self, v):
        return isinstance(v, str) or isinstance(v, Sym) and v.kind == 'str'

    def strterm(self, v):
        return v.t if isinstance(v, Sym) else z3.StringVal(v)

    def eq(self, a, b):
        if a is HAVOC or b is HAVOC or isinstance(a, Inert) or isinstance(b, Inert):
            raise Unsupported('comparison of an unknown value')
        if a is b and not isinstance(a, Sym):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and x.cls.has('__eq__'):
                return self.call(self.bind(x.cls.lookup('__eq__'), x, x.cls), [y], {})
        p = self.pair(a, b)
        if p:
            return self.wrapb(p[0].t == p[1].t)
        if self.isstr(a) and self.isstr(b):
            return self.wrapb(self.strterm(a) == self.strterm(b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind:
                return self.wrapb(a.t == b.t)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and x.kind == 'bytes' and isinstance(y, bytes):
                    raise Unsupported('bytes comparison')
            return False
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (Obj, Cls, Func, Native, Mod)) or isinstance(b, (Obj, Cls, Func, Native, Mod)):
            return a is b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self_ is b.self_
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported('comparison')

    def conj(self, vs):
        ts = [self.truthterm(v) for v in vs]
        if any(t is False for t in ts):
            return False
        ts = [t for t in ts if t is not True]
        return self.wrapb(z3.And(*ts)) if ts else True

    def disj(self, vs):
        ts = [self.truthterm(v) for v in vs]
        if any(t is True for t in ts):
            return True
        ts = [t for t in ts if t is not False]
        return self.wrapb(z3.Or(*ts)) if ts else False

    def neg(self, v):
        t = self.truthterm(v)
        return (not t) if isinstance(t, bool) else self.wrapb(z3.Not(t))

    def is_(self, a, b):
        if a is HAVOC or b is HAVOC or isinstance(a, Inert) or isinstance(b, Inert):
            raise Unsupported('identity of an unknown value')
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is b:
                return True
            x, y = (a, b) if isinstance(a, Sym) else (b, a)
            if x.kind == 'bool' and (isinstance(y, bool) or isinstance(y, Sym) and y.kind == 'bool'):
                return self.eq(x, y)
            if y is None or not isinstance(y, (Sym, int, float, str, bytes)) or isinstance(y, bool):
                return False
            raise Unsupported('identity of numbers')
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            if type(a) is not type(b) or a != b:
                return False
            if isinstance(a, int) and -5 <= a <= 256 or a is b:
                return True
            raise Unsupported('identity of equal constants')
        return a is b

    def contains(self, c, x):
        if isinstance(c, range):
            p = self.num(x)
            if p is None:
                return False
            if p.kind == 'real':
                return self.disj([self.eq(x, y) for y in c])
            if not isinstance(x, Sym):
                return self.num(x) is not None and isinstance(x, int) and x in c
            if len(c) == 0:
                return False
            lo, hi = (c[0], c[-1]) if c.step > 0 else (c[-1], c[0])
            st = abs(c.step)
            return self.wrapb(z3.And(p.t >= lo, p.t <= hi, (p.t - lo) % st == 0))
        if isinstance(c, (list, tuple, set, frozenset, dict)):
            out = []
            for y in c:
                out.append(True if x is y else self.eq(x, y))
            return self.disj(out)
        if isinstance(c, Cls) and c.has('__enum__'):
            return self.disj([self.eq(x, y) for y in c.ns['__members__']] + [self.eq(x, y.attrs['value']) for y in c.ns['__members__']])
        if self.isstr(c) and self.isstr(x):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return self.wrapb(z3.Contains(self.strterm(c), self.strterm(x)))
        if isinstance(c, Obj) and c.cls.has('__contains__'):
            return self.call(self.bind(c.cls.lookup('__contains__'), c, c.cls), [x], {})
        if c is None or isinstance(c, (int, float)):
            raise self.exc('TypeError', 'argument is not iterable')
        raise Unsupported('in %r' % (c,))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(b, a))
        p = self.pair(a, b)
        if p is None:
            if isinstance(a, str) and isinstance(b, str):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
            if a is None or b is None or self.isstr(a) != self.isstr(b):
                raise self.exc('TypeError', 'not supported between instances')
            raise Unsupported('comparison')
        x, y = p[0].t, p[1].t
        return self.wrapb({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])

    def binop(self, op, a, b, inplace=False):
        if isinstance(a, Inert) or isinstance(b, Inert):
            return INERT
        if a is HAVOC or b is HAVOC:
            raise Unsupported('a value another call may have changed is used')
        if self.isstr(a) and self.isstr(b) and isinstance(op, ast.Add):
            return self.concat([a, b])
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return self.ext.percent(a, b)
        if isinstance(a, (list, tuple)) and type(a) is type(b) and isinstance(op, ast.Add):
            if inplace and isinstance(a, list):
                a.extend(b)
                return a
            return a + b
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and isinstance(a, (set, dict)) and isinstance(b, (set, dict)):
            return {ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b, ast.Sub: lambda: a - b, ast.BitXor: lambda: a ^ b}[type(op)]()
        if isinstance(a, Sym) and a.kind == 'bool' and (isinstance(b, bool) or isinstance(b, Sym) and b.kind == 'bool') or isinstance(a, bool) and isinstance(b, Sym) and b.kind == 'bool':
            x, y = (v.t if isinstance(v, Sym) else z3.BoolVal(v) for v in (a, b))
            if isinstance(op, ast.BitAnd):
                return self.wrapb(z3.And(x, y))
            if isinstance(op, ast.BitOr):
                return self.wrapb(z3.Or(x, y))
            if isinstance(op, ast.BitXor):
                return self.wrapb(z3.Xor(x, y))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                        ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b,
                        ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b}[type(op)]()
            except ZeroDivisionError:
                raise self.exc('ZeroDivisionError')
            except (TypeError, KeyError, OverflowError, ValueError):
                raise Unsupported('operator')
        if isinstance(op, ast.Mult) and (isinstance(a, (str, list, tuple)) and isinstance(b, int)):
            return a * b
        p = self.pair(a, b)
        if p is None:
            if a is None or b is None or self.isstr(a) != self.isstr(b):
                raise self.exc('TypeError', 'unsupported operand type(s)')
            raise Unsupported('operator on %r and %r' % (a, b))
        x, y = p
        if isinstance(op, ast.Add):
            return Sym(x.kind, x.t + y.t)
        if isinstance(op, ast.Sub):
            return Sym(x.kind, x.t - y.t)
        if isinstance(op, ast.Mult):
            return Sym(x.kind, x.t * y.t)
        if isinstance(op, ast.Div):
            if self.truth(self.wrapb(y.t == 0)):
                raise self.exc('ZeroDivisionError')
            xr, yr = (z3.ToReal(s.t) if s.kind == 'int' else s.t for s in (x, y))
            return Sym('real', xr / yr)
        if x.kind == 'int' and isinstance(b, int) and b > 0:
            if isinstance(op, ast.FloorDiv):
                return Sym('int', x.t / y.t)
            if isinstance(op, ast.Mod):
                return Sym('int', x.t % y.t)
            if isinstance(op, ast.RShift):
                return Sym('int', x.t / z3.IntVal(1 << b))
            if isinstance(op, ast.LShift):
                return Sym('int', x.t * z3.IntVal(1 << b))
            if isinstance(op, ast.BitAnd) and b & (b + 1) == 0:
                return Sym('int', x.t % z3.IntVal(b + 1))
        raise Unsupported('operator on symbolic numbers')

    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (range, str, set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, Cls) and v.has('__enum__'):
            return list(v.ns['__members__'])
        if isinstance(v, Obj) and v.cls.has('__iter__'):
            return self.iterate(self.call(self.bind(v.cls.lookup('__iter__'), v, v.cls), [], {}))
        if isinstance(v, (Sym, Inert)) or v is HAVOC or isinstance(v, (Obj, Coro, Future)):
            raise Unsupported('iteration over %r' % (v,))
        raise self.exc('TypeError', 'object is not iterable')


BUILTINS_UNSUPPORTED = {'open', 'exec', 'eval', 'compile', '__import__', 'input', 'id', 'hash', 'memoryview', 'bytearray', 'complex', 'delattr', 'dir', 'aiter', 'anext'}


def assigned(body):
    out, glob = set(), set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list:
                self.visit(d)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_Global(self, n):
            glob.update(n.names)

        visit_Nonlocal = visit_Global

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = V()
    for s in body:
        v.visit(s)
    return out - glob


def walrus(e):
    return {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}


def yields(body):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True

        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef
    v = V()
    for s in body:
        v.visit(s)
    return v.found
