#!/usr/bin/env python3
"""Runs the real Python client (REPO/python/comfo) against stand-ins for the twirp and protobuf modules and
looks for an input on which it breaks C27.  Exit 1 with a line REPRODUCED if one is found."""
import asyncio
import enum
import os
import sys
import threading
import types

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
sys.dont_write_bytecode = True


def decoder():
    src = open(os.path.join(os.path.dirname(here), 'pyver', 'models.py'), encoding='utf-8').read()
    ns = {}
    a, b = src.index('def varint'), src.index('class Models')
    exec(src[a:b], ns)
    return ns['decode_file']


decode_file = decoder()
RANGES = {13: (0, 2**32 - 1), 5: (-2**31, 2**31 - 1), 4: (0, 2**64 - 1), 3: (-2**63, 2**63 - 1)}
SYMBOLS, SCHEMA = {}, {}
CALLS = []
OUTCOME = [None]


class Field:
    def __init__(self, n, num):
        self.name, self.number = n, num


class Desc:
    def __init__(self, fs):
        self.fields = [Field(f[0], f[1]) for f in fs]
        self.fields_by_name = {f.name: f for f in self.fields}


def message(name, fs):
    by = {f[0]: f for f in fs}

    def conv(f, v):
        if f[2] in RANGES:
            if not isinstance(v, int):
                raise TypeError(f[0])
            lo, hi = RANGES[f[2]]
            if not lo <= v <= hi:
                raise ValueError(f[0])
            return int(v)
        if f[2] == 8:
            if not isinstance(v, int):
                raise TypeError(f[0])
            return bool(v)
        if f[2] in (1, 2):
            return float(v)
        if not isinstance(v, str):
            raise TypeError(f[0])
        return v

    class M:
        DESCRIPTOR = Desc(fs)

        def __init__(self, **kw):
            for f in fs:
                object.__setattr__(self, f[0], 0 if f[2] in RANGES else False if f[2] == 8 else 0.0 if f[2] in (1, 2) else '')
            for k, v in kw.items():
                if k not in by:
                    raise ValueError('no field ' + k)
                if v is not None:
                    object.__setattr__(self, k, conv(by[k], v))

        def __setattr__(self, k, v):
            if k not in by:
                raise AttributeError(k)
            object.__setattr__(self, k, conv(by[k], v))
    M.__name__ = M.__qualname__ = name
    return M


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    if '.' in name:
        setattr(sys.modules[name.rpartition('.')[0]], name.rpartition('.')[2], m)
    return m


class Codes(enum.Enum):
    Canceled = 'canceled'
    Unknown = 'unknown'
    InvalidArgument = 'invalid_argument'
    DeadlineExceeded = 'deadline_exceeded'
    NotFound = 'not_found'
    BadRoute = 'bad_route'
    AlreadyExists = 'already_exists'
    PermissionDenied = 'permission_denied'
    Unauthenticated = 'unauthenticated'
    ResourceExhausted = 'resource_exhausted'
    FailedPrecondition = 'failed_precondition'
    Aborted = 'aborted'
    OutOfRange = 'out_of_range'
    Unimplemented = 'unimplemented'
    Internal = 'internal'
    Unavailable = 'unavailable'
    DataLoss = 'data_loss'
    NoError = ''


class TwirpServerException(Exception):
    def __init__(self, *args, code, message, meta={}):
        try:
            self._code = Codes(code)
        except ValueError:
            self._code = Codes.Unknown
        self._message, self._meta = message, meta
        super().__init__(message)

    code = property(lambda self: self._code)
    message = property(lambda self: self._message)
    meta = property(lambda self: self._meta)


class TwirpClient:
    def __init__(self, address, timeout=5):
        self._address, self._timeout = address, timeout

    def _make_request(self, *args, url, ctx, request, response_obj, **kw):
        CALLS.append((self._address + url, type(request).__name__, {f.name: getattr(request, f.name) for f in request.DESCRIPTOR.fields},
                      response_obj.__name__, threading.current_thread() is threading.main_thread()))
        o = OUTCOME[0]
        if isinstance(o, BaseException):
            raise o
        r = response_obj()
        for k, v in o.items():
            if k in r.DESCRIPTOR.fields_by_name:
                setattr(r, k, v)
        return r


class Context:
    def __getattr__(self, n):
        return lambda *a, **k: None


class DB:
    def GetSymbol(self, s):
        return SYMBOLS[s]


class Pool:
    def AddSerializedFile(self, b):
        pkg, msgs = decode_file(b)
        for n, fs in msgs.items():
            SCHEMA[n] = fs
            SYMBOLS[pkg + '.' + n] = message(n, fs)


def build(d, name, g):
    for k, v in SYMBOLS.items():
        g[k.rpartition('.')[2]] = v


class Anything:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Anything()

    def __setattr__(self, n, v):
        pass


def descs(d, g):
    for k in SYMBOLS:
        g['_' + k.rpartition('.')[2].upper()] = Anything()


db, pool = DB(), Pool()
mod('twirp'), mod('twirp.context', Context=Context), mod('twirp.errors', Errors=Codes), mod('twirp.client', TwirpClient=TwirpClient)
mod('twirp.exceptions', TwirpServerException=TwirpServerException), mod('twirp.base', Endpoint=object), mod('twirp.server', TwirpServer=object)
mod('google'), mod('google.protobuf'), mod('google.protobuf.internal')
mod('google.protobuf.descriptor', _USE_C_DESCRIPTORS=True), mod('google.protobuf.descriptor_pool', Default=lambda: pool)
mod('google.protobuf.symbol_database', Default=lambda: db)
mod('google.protobuf.internal.builder', BuildMessageAndEnumDescriptors=descs, BuildTopDescriptorsAndMessages=build, BuildServices=lambda *a: None)


def found(s):
    print('REPRODUCED property=C27 ' + s, flush=True)
    sys.exit(1)


class Other(Exception):
    pass


def main():
    repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
    sys.path.insert(0, os.path.join(repo, 'python'))
    import comfo
    from comfo import exceptions as ex
    errors = [TwirpServerException(code=c.value, message='m') for c in Codes] + [Other('x')]
    loop = asyncio.new_event_loop()
    HOST = 'unit.example'

    async def made():
        return comfo.Comfo(HOST)

    clients = [('a loop given', comfo.Comfo(HOST, loop), True), ('a running loop', loop.run_until_complete(made()), True), ('no loop', comfo.Comfo(HOST), False)]
    if CALLS:
        found('building a client makes a request')

    def run(how, cl, name, args):
        """-> (result, exception, requests)"""
        del CALLS[:]
        try:
            m = getattr(cl, name)
            if name.startswith('async_'):
                async def go():
                    return await m(*args)
                return loop.run_until_complete(go()), None, list(CALLS)
            return m(*args), None, list(CALLS)
        except Exception as e:
            return None, e, list(CALLS)

    def sweep(name, args, valid, excs, method, msg, reply, fields, check, end=False):
        for how, cl, hasloop in clients:
            for nm in [name] + (['async_' + name] if hasloop else []):
                outs = [o for o in replies(reply)] + errors
                for o in outs if valid else outs[:1]:
                    OUTCOME[0] = o
                    r, e, calls = run(how, cl, nm, args)
                    at = '%s%r on a client built with %s, outcome %r: ' % (nm, tuple(args), how, o)
                    saw = 'result %r, exception %r, requests %r' % (r, e, calls)
                    if not valid:
                        if calls or type(e) not in excs:
                            found(at + 'expected %s and no request, got %s' % ('/'.join(x.__name__ for x in excs), saw))
                        continue
                    if len(calls) != 1:
                        found(at + 'expected one request, got ' + saw)
                    u, t, f, resp, mainthread = calls[0]
                    if u != 'http://%s:3094/twirp/comfo.api.Comfo/%s' % (HOST, method) or t != msg or f != fields or resp != reply:
                        found(at + 'expected %s %s %r -> %s, got %s' % (method, msg, fields, reply, saw))
                    if mainthread and nm.startswith('async_'):
                        found(at + 'the request is made on the event loop')
                    if isinstance(o, BaseException):
                        if end and getattr(o, 'code', None) is Codes.InvalidArgument:
                            if e is not None or r is not False:
                                found(at + 'expected False, got ' + saw)
                        elif e is not o:
                            found(at + 'expected the error to be raised, got ' + saw)
                    elif e is not None:
                        found(at + saw)
                    elif not check(r, o):
                        found(at + saw)

    def replies(msg):
        fs = SCHEMA[msg]

        def val(f, k):
            if f[2] in RANGES:
                return [0, f[1] * 7 + 20, RANGES[f[2]][1] - f[1], 300 + f[1]][k]
            if f[2] == 8:
                return [False, True, f[1] % 2 == 1, f[1] % 2 == 0][k]
            if f[2] in (1, 2):
                return [0.0, f[1] + 0.5, -f[1] - 0.5, 100.0 + f[1]][k]
            return ['', 'name%d' % f[1], ' A b ', 'é' * 12][k]
        return [{f[0]: val(f, k) for f in fs} for k in range(4)]

    def modified(r, o):
        return isinstance(r, bool) and r == o['Modified']

    for host in ('::1', '192.168.1.2', 'UPPER.example.', ''):
        CALLS.clear()
        OUTCOME[0] = {}
        try:
            comfo.Comfo(host).get_bootinfo()
        except Exception as e:
            found('get_bootinfo on host %r raises %r' % (host, e))
        if not CALLS or CALLS[0][0] != 'http://%s:3094/twirp/comfo.api.Comfo/GetBootInfo' % host:
            found('host %r: %r' % (host, CALLS))
    ints = [int(x) for x in os.environ.get('VERIF_INTS', '').split()] + list(range(-3, 330)) + [2**k + d for k in (9, 16, 31, 32, 33, 63, 64) for d in (-1, 0, 1, 4, 20)] + [-2**k + d for k in (8, 31, 32) for d in (-1, 0, 1, 20)]
    for v in ints + [None]:
        sweep('set_fan_speed', [v], v is not None and 1 <= v <= 4, [ex.InvalidFanSpeed], 'SetFanSpeed', 'FanSpeedTarget', 'FanSpeedModified', {'Abs': v, 'Rel': False}, modified)
        sweep('set_comfort_temperature', [v], v is not None and 0 <= v <= 255, [ex.InvalidTemperature], 'SetComfortTemp', 'ComfortTarget', 'ComfortModified', {'ComfortTemp': v}, modified)
    for p in [-1, 0, 1, 2, 3, 4, 5, 2**32 + 1, None]:
        for d in ints:
            okp, okd = p is not None and 1 <= p <= 4, 15 <= d <= 100
            sweep('configure_fan_profile', [p, d], okp and okd, ([] if okp else [ex.InvalidFanSpeed]) + ([] if okd else [ex.InvalidDutyPercent]),
                  'SetFanProfile', 'FanProfileTarget', 'FanProfileModified', {'Mode': p, 'TargetSpeed': d}, modified)
    sweep('increase_fan_speed', [], True, [], 'SetFanSpeed', 'FanSpeedTarget', 'FanSpeedModified', {'Abs': 0, 'Rel': True}, modified, end=True)
    sweep('decrease_fan_speed', [], True, [], 'SetFanSpeed', 'FanSpeedTarget', 'FanSpeedModified', {'Abs': 0, 'Rel': False}, modified, end=True)

    def exposes(r, o):
        return all(hasattr(r, k) and type(getattr(r, k)) is type(v) and getattr(r, k) == v for k, v in o.items())
    for n, m, t in (('get_bootinfo', 'GetBootInfo', 'BootInfo'), ('get_bypass', 'GetBypass', 'Bypass'), ('get_temps', 'GetTemps', 'Temps'), ('get_fans', 'GetFans', 'Fans'),
                    ('get_fan_profiles', 'GetFanProfiles', 'FanProfiles'), ('get_errors', 'GetErrors', 'Errors')):
        sweep(n, [], True, [], m, 'Noop', t, {}, exposes)
    sweep('ping', [], True, [], 'GetBootInfo', 'Noop', 'BootInfo', {}, lambda r, o: r is True)
    loop.close()
    print('C27: no failing input found')


try:
    main()
except SystemExit:
    raise
except BaseException as e:
    import traceback
    traceback.print_exc()
    print('client replay: %r' % e)
    sys.exit(0)
