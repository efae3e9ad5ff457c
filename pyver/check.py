"""python3-vt -m pyver.check -prop C27 [-tier T] [-root /verif] [-dir /repo]: verify the Python client.

For every contract in contracts/client.py the real method is executed on symbolic arguments and on every
outcome of the request it makes; each clause must follow from the path condition on every path (z3)."""
import argparse
import json
import os
import re
import subprocess
import sys
import time

import z3

from . import interp as I
from .models import KINDS, Models


class Fail:
    def __init__(self, target, label, text, path=''):
        self.target, self.label, self.text, self.path = target, label, text, path


class Ctx:
    """What the clauses of a contract see: arguments, requests, the result or the exception of one path."""

    def __init__(self, it, mods):
        self.it, self.mods = it, mods
        self.arg, self.ret, self.exc = {}, None, None
        self.clauses = []
        self.events = it.events

    # building blocks
    def none(self, n):
        return self.arg[n] is None

    def within(self, n, lo, hi):
        a = self.arg[n]
        return False if a is None else z3.And(a.t >= lo, a.t <= hi)

    def raised(self, *names):
        if self.exc is None:
            return False
        ex = self.it.load('comfo.exceptions').ns
        return any(self.exc.cls is ex.get(n) for n in names)

    def returned(self):
        return self.exc is None

    def returned_bool(self, want):
        """The call returned a bool equal to want."""
        r = self.ret
        if self.exc is not None:
            return False
        if isinstance(r, bool):
            return want if r else neg(want)
        if isinstance(r, I.Sym) and r.kind == 'bool':
            return r.t == (z3.BoolVal(want) if isinstance(want, bool) else want)
        return False

    def request_is(self, method, msg, **fields):
        """Exactly one request: this method of the server, with these fields."""
        if len(self.events) != 1:
            return False
        e = self.events[0]
        if e['type'].name != msg:
            return False
        out = [self.url(e, method)]
        for f, v in e['fields'].items():
            if f not in fields:
                return False
            w = fields[f]
            w = w.t if isinstance(w, I.Sym) else z3.BoolVal(w) if isinstance(w, bool) else z3.IntVal(w)
            out.append(v.t == w)
        if set(fields) != set(e['fields']):
            return False
        return conj(out)

    def url(self, e, method):
        try:
            full = self.it.concat([self.str(e['address']), self.str(e['url'])])
        except I.Unsupported:
            return False
        want = self.it.concat(['http://', self.host, ':3094/twirp/comfo.api.Comfo/' + method])
        return self.it.truthterm(self.it.eq(full, want))

    def str(self, v):
        if not self.it.isstr(v):
            raise I.Unsupported('not a string')
        return v

    def reply(self):
        return self.events[-1]['reply_fields'] if self.events and self.events[-1]['reply'] is not None else None

    def reply_type_is(self, msg):
        return all(isinstance(e['response'], I.Cls) and e['response'].name == msg for e in self.events)

    def error(self):
        return self.events[-1]['error'] if self.events else None

    def error_code(self):
        e = self.error()
        return e.attrs['_code'].attrs['name'] if e is not None and '_code' in e.attrs else None

    def attribute_equals(self, o, n, v):
        try:
            x = self.it.getattr(o, n)
        except I.PyExc:
            return False
        kind = {'real': ('real',), 'int': ('int',), 'bool': ('bool',), 'str': ('str',)}[v.kind]
        if isinstance(x, I.Sym):
            return x.t == v.t if x.kind in kind else False
        if isinstance(x, bool):
            return v.t == z3.BoolVal(x) if v.kind == 'bool' else False
        if isinstance(x, int):
            return v.t == x if v.kind == 'int' else False
        return False

    def ensures(self, label, f):
        self.clauses.append((label, f))


def conj(xs):
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    return z3.And(*xs) if xs else True


def neg(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def implies(a, b):
    if a is False or b is True:
        return True
    if a is True:
        return b
    if b is False:
        return neg(a)
    return z3.Implies(a, b)


# ---- frame: what a call may leave changed
def slots(roots):
    """Every mutable slot reachable from the roots, by path."""
    out, seen = {}, set()

    def walk(v, path):
        if isinstance(v, (I.Obj, I.Cls, I.Mod, list, dict, set)):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, I.Obj):
                d = v.attrs
            elif isinstance(v, (I.Cls, I.Mod)):
                d = v.ns
            elif isinstance(v, dict):
                d = v
            else:
                d = dict(enumerate(sorted(v, key=repr) if isinstance(v, set) else v))
            out[path] = (v, dict(d))
            for k, x in list(d.items()):
                walk(x, path + (k,))
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                walk(x, path + (i,))
        elif isinstance(v, I.Bound):
            walk(v.self_, path + ('__self__',))
    for name, r in roots:
        walk(r, (name,))
    return out


def contents(v):
    if isinstance(v, I.Obj):
        return v.attrs
    if isinstance(v, (I.Cls, I.Mod)):
        return v.ns
    if isinstance(v, dict):
        return v
    return dict(enumerate(sorted(v, key=repr) if isinstance(v, set) else v))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, I.Sym) and isinstance(b, I.Sym):
        return a.kind == b.kind and a.t.eq(b.t)
    if isinstance(a, (int, str, float, bytes, tuple)) and type(a) is type(b):
        try:
            return bool(a == b)
        except Exception:
            return False
    return False


def kind(v):
    if isinstance(v, I.Sym):
        return v.kind
    return 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'str' if isinstance(v, str) else None


def changed(before):
    """The slots a call changed, with the kind of value they hold if it stays the same."""
    out = {}
    for path, (v, old) in before.items():
        new = contents(v)
        for k in set(old) | set(new):
            if k in old and k in new and same(old[k], new[k]):
                continue
            if k not in old and isinstance(new.get(k), I.Mod):
                continue
            if isinstance(v, (I.Obj, I.Cls, I.Mod)):
                ks = {kind(d[k]) if k in d else None for d in (old, new)}
                out[path + (k,)] = ks.pop() if len(ks) == 1 else None
            else:
                # the container as a whole: havoc the attribute that holds it
                out[path] = None
    return out


class Checker:
    def __init__(self, repo, spec, tier):
        self.repo, self.spec, self.tier = repo, spec, tier
        self.fails, self.obl, self.ok, self.trivial, self.paths = [], 0, 0, 0, 0
        self.per, self.executed, self.models, self.queries = {}, set(), set(), 0
        self.asts = {}
        self.covered = {}
        self.havoc = {}
        self.changed = {}

    def interp(self, path):
        it = I.Interp(os.path.join(self.repo, 'python'))
        it.asts = self.asts
        it.path = path
        it.running_loop = None
        return it

    def follow(self, root, path):
        v = root
        for k in path:
            v = contents(v)[k] if k != '__self__' else v.self_
        return v

    def run(self, c, mode):
        """Every path of one method, on a client built in one way."""
        name = 'comfo.Comfo.' + c.name + (' [%s]' % mode if mode else '')
        path, n = I.Path(), 0
        fails = []
        t0 = time.time()
        obl0 = self.obl
        while path is not None:
            it = self.interp(path)
            n += 1
            if n > 20000:
                fails.append(Fail(name, 'every path is decided', 'too many paths'))
                break
            try:
                self.one(it, c, mode, name, fails)
            except I.Infeasible:
                pass
            except I.Unsupported as e:
                self.obl += 1
                fails.append(Fail(name, 'the method is within the verifier', str(e)))
                break
            except I.PyExc as e:
                self.obl += 1
                fails.append(Fail(name, 'the client can be built', 'raises ' + e.obj.cls.name))
                break
            except RecursionError:
                self.obl += 1
                fails.append(Fail(name, 'the method is within the verifier', 'recursion'))
                break
            finally:
                self.executed |= it.executed
                self.models |= it.models_used
                self.queries += it.queries
                self.paths += 1
            if fails:
                break
            path = it.path.next()
        self.per[name] = '%d paths, %d obligations, %.1f s' % (n, self.obl - obl0, time.time() - t0)
        self.fails += fails

    def one(self, it, c, mode, name, fails):
        mod = it.load('comfo')
        host = it.fresh('str', 'host')
        loop = it.ext.new_loop('the loop')
        cls = mod.ns.get('Comfo')
        if cls is None:
            raise I.Unsupported('no class Comfo')
        it.running_loop = None
        if mode == 'loop given':
            client = it.call(cls, [host, loop], {})
        elif mode == 'running loop':
            it.running_loop = loop
            client = it.call(cls, [host], {})
        else:
            client = it.call(cls, [host], {})
        it.running_loop = None
        x = Ctx(it, None)
        x.host = host
        x.obligations = []
        self.clause(it, name, 'building the client makes no request', len(it.events) == 0, fails)
        del it.events[:]
        roots = [('client', client)] + sorted((m, v) for m, v in it.modules.items() if m == 'comfo' or m.startswith('comfo.'))
        byname = dict(roots)
        for p in self.havoc:
            if p[0] in byname:
                try:
                    o = self.follow(byname[p[0]], p[1:-1])
                    k = self.havoc[p]
                    contents(o)[p[-1]] = it.fresh(k, 'earlier') if k else I.HAVOC
                except KeyError:
                    pass
        before = slots(roots)
        args = []
        for pn, dom in c.params:
            if dom == 'int or None' and it.choose(2) == 1:
                x.arg[pn] = None
                args.append(None)
                continue
            s = it.fresh('int', pn)
            x.arg[pn] = s
            args.append(s)
        it.executed = set()
        try:
            m = it.getattr(client, c.name)
            if c.is_async:
                it.running_loop = loop
                x.ret = it.await_(it.call(m, args, {}))
            else:
                x.ret = it.call(m, args, {})
        except I.PyExc as e:
            x.exc = e.obj
        it.running_loop = None
        for p, k in changed(before).items():
            if p not in self.havoc or self.havoc[p] not in (None, k):
                self.changed[p] = k if self.changed.get(p, k) == k else None
        x.ensures = lambda label, f: self.clause(it, name, label, f, fails, x)
        c.clauses(x)
        if c.is_async:
            x.ensures('requests are made outside the event loop', all(e['executor'] for e in x.events))
        if it.solver.check() == z3.unsat:
            raise I.Unsupported('a path condition became inconsistent')

    def clause(self, it, name, label, f, fails, x=None):
        self.obl += 1
        cov = self.covered.setdefault(c_key(name) + ': ' + label, [0, 0])
        cov[0] += 1
        if isinstance(f, bool):
            good = f
            self.trivial += f
        else:
            self.queries += 1
            good = it.solver.check(z3.Not(f)) == z3.unsat
        if good:
            self.ok += 1
            return
        text = ''
        try:
            if isinstance(f, bool):
                it.solver.check()
            m = it.solver.model()
            text = ', '.join('%s = %s' % (d.name().split('!')[0], m[d]) for d in m.decls() if m[d] is not None)[:300]
        except z3.Z3Exception:
            pass
        if x is not None:
            text += '; requests: %s; %s' % ([(e['type'].name, str(e['url'])) for e in x.events],
                                           'raises ' + x.exc.cls.name if x.exc is not None else 'returns %r' % (x.ret,))
            if x.error_code():
                text += ' on error ' + x.error_code()
        if not any(g.target == name and g.label == label for g in fails):
            fails.append(Fail(name, label, text))

    def schema(self):
        """The messages the client was generated for are those of the server's comfo.proto."""
        it = self.interp(I.Path())
        try:
            it.load('comfo')
            it.load('comfo.comfo_pb2')
        except (I.PyExc, I.Unsupported) as e:
            self.obl += 1
            self.fails.append(Fail('comfo', 'the package is within the verifier', str(getattr(e, 'obj', e))))
            return
        src = open(os.path.join(self.repo, 'rpc', 'comfo', 'comfo.proto'), encoding='utf-8').read()
        src = re.sub(r'//[^\n]*|/\*.*?\*/', '', src, flags=re.S)
        types = {'uint32': 13, 'bool': 8, 'string': 9, 'float': 2, 'double': 1, 'int32': 5, 'uint64': 4, 'int64': 3, 'bytes': 12}
        pkg = re.search(r'\bpackage\s+([\w.]+)', src).group(1)
        used = set()
        for m in re.finditer(r'rpc\s+\w+\s*\(\s*(\w+)\s*\)\s*returns\s*\(\s*(\w+)\s*\)', src):
            used |= set(m.groups())
        for m in re.finditer(r'message\s+(\w+)\s*\{([^}]*)\}', src):
            if m.group(1) not in used or m.group(1) in ('FlushCacheRequest', 'FlushCacheResponse'):
                continue
            fs = {(n, int(num), types.get(t)) for t, n, num in re.findall(r'(\w+)\s+(\w+)\s*=\s*(\d+)', m.group(2))}
            got = {(n, num, t) for n, num, t, _ in it.ext.schema.get(m.group(1), [])}
            self.obl += 1
            if m.group(1) in it.ext.schema and fs == got and it.ext.pkgname == pkg:
                self.ok += 1
                self.trivial += 1
            else:
                self.fails.append(Fail('comfo_pb2.' + m.group(1), "the message is the server's", '%s against %s' % (sorted(got - fs), sorted(fs - got))))

    def check(self):
        self.schema()
        for rnd in range(4):
            self.changed = {}
            keep = (self.obl, self.ok, self.trivial, self.paths, dict(self.per), dict(self.covered))
            for c in self.spec:
                for mode in (('loop given', 'running loop') if c.is_async else ('loop given', 'no loop')):
                    self.run(c, mode)
            if self.fails:
                return
            # a call may leave these changed: the methods must be right whatever they hold
            if not self.changed:
                self.obl += 1
                self.ok += 1
                self.frame = sorted('.'.join(map(str, p)) for p in self.havoc)
                return
            self.havoc.update(self.changed)
            self.obl, self.ok, self.trivial, self.paths, self.per, self.covered = keep
        self.fails.append(Fail('comfo.Comfo', 'calls leave the client as it was built', ', '.join('.'.join(map(str, p)) for p in self.changed)))
        self.obl += 1


def c_key(n):
    return re.sub(r' \[.*\]', '', n)


def known_findings(fn, prop):
    out = []
    if os.path.exists(fn):
        for line in open(fn, encoding='utf-8'):
            m = re.match(r'property=(\w+) site=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


ASSUMPTIONS = [
    'Python integers are mathematical integers and are modelled so; floats of a reply are modelled as reals',
    'arguments are integers (or None for a speed, profile or temperature); a host is any string',
    'the Twirp client library posts the request to address+url once and returns the decoded reply, raises TwirpServerException with one of its codes, or raises another exception',
    'protobuf messages: fields are those of the serialized descriptor, constructors check types and ranges',
    'run_in_executor runs the function in a thread and awaiting its future gives its result or raises its exception',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-prop', default='C27')
    ap.add_argument('-tier', default='quick')
    ap.add_argument('-root', default='/verif')
    ap.add_argument('-dir', default='/repo')
    ap.add_argument('-noreplay', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ns = {}
    fn = os.path.join(a.root, 'contracts', 'client.py')
    exec(compile(open(fn, encoding='utf-8').read(), fn, 'exec'), ns)
    ck = Checker(a.dir, ns['CONTRACTS'], a.tier)
    ck.check()
    if not ck.fails and ck.obl == 0:
        ck.fails.append(Fail('contracts', 'the property has obligations', ''))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': ck.obl, 'discharged': ck.ok, 'checker_cmd': 'cd /verif && ./check.sh %s %s' % (a.prop, a.tier),
            'trusted_base': ['pyver (VC generator)', 'python3 ast', 'z3 %s' % z3.get_version_string()] + sorted('model of ' + m for m in ck.models),
            'functions_under_contract': sorted('comfo.Comfo.' + c.name for c in ck.spec), 'executed_in_place': sorted(ck.executed),
            'paths': ck.paths, 'by_backend': {'z3': ck.ok - ck.trivial, 'simplifier': ck.trivial}, 'solver_queries': ck.queries,
            'per_target': ck.per, 'state_calls_may_change': getattr(ck, 'frame', []),
        },
        'assumptions': ASSUMPTIONS, 'violations': len(ck.fails), 'wall_s': time.time() - t0,
    }

    def write():
        ev['wall_s'] = time.time() - t0
        os.makedirs(os.path.join(a.root, 'evidence'), exist_ok=True)
        with open(os.path.join(a.root, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    left = []
    known = known_findings(os.path.join(a.root, 'known_findings.txt'), a.prop)
    for f in ck.fails:
        hit = [w for s, w in known if s in '%s [%s]' % (f.target, f.label)]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, hit[0]))
        else:
            left.append(f)
    ev['violations'] = len(left)
    if not left:
        write()
        print('%s: %d obligations discharged for %d methods on %d paths in %.1f s' % (a.prop, ck.ok, len(ck.spec), ck.paths, time.time() - t0))
        return 0
    for f in left:
        print('failed: %s [%s] %s' % (f.target, f.label, f.text))
    rp = os.path.join(a.root, 'evidence', 'replay', a.prop + '.json')
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    rep = {'property': a.prop, 'failed_obligations': [f.__dict__ for f in left]}
    found = False
    if not a.noreplay:
        # the verifier's counterexamples are tried first
        ints = sorted({int(n) for f in left for n in re.findall(r'= (-?\d+)(?![\d.])', f.text)})
        p = subprocess.run([os.path.join(a.root, 'replay', 'run.sh'), a.prop, a.dir], env=dict(os.environ, VERIF_INTS=' '.join(map(str, ints))), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rep['replay_command'] = '/verif/replay/run.sh %s %s' % (a.prop, a.dir)
        rep['replay_output'] = p.stdout[:20000]
        for line in p.stdout.splitlines():
            if p.returncode == 1 and line.startswith('REPRODUCED property=' + a.prop + ' '):
                found = True
                print(line)
                break
    rep['failing_input_found'] = found
    with open(rp, 'w') as f:
        json.dump(rep, f, indent=1)
        f.write('\n')
    write()
    print('VIOLATION property=%s replay=%s%s' % (a.prop, rp, '' if found else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main())
