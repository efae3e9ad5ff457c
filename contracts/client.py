"""Contracts of the Python client (python/comfo/client.py and types.py), property C27.

Each contract names a method of comfo.Comfo, the arguments it is proved for and the clauses that must hold
on every path: x.arg the arguments, x.events the requests made, x.reply() the fields of the reply to the
last one, x.error() the exception it raised, x.ret / x.exc what the method returned or raised."""
from pyver.check import conj, implies, neg
from z3 import Not, And, Or

CONTRACTS = []


class Contract:
    def __init__(self, name, params, clauses, is_async):
        self.name, self.params, self.clauses, self.is_async = name, params, clauses, is_async


def contract(name, **params):
    """The same contract for the method and for its async variant, when awaited."""
    def deco(f):
        CONTRACTS.append(Contract(name, list(params.items()), f, False))
        CONTRACTS.append(Contract('async_' + name, list(params.items()), f, True))
        return f
    return deco


def errors_are_raised(x):
    if x.error() is not None:
        x.ensures('an error of the request is raised to the caller', x.exc is x.error())


def modified_is_returned(x):
    if x.reply() is not None:
        x.ensures('the result says whether the unit was modified', x.returned_bool(x.reply()['Modified'].t))


def nothing_else_fails(x):
    """Without an error from the request the method returns."""
    if x.events and x.reply() is not None:
        x.ensures('a reply is returned, not turned into an exception', x.returned())


def setter(x, ok, exceptions, method, msg, reply, **fields):
    x.ensures('invalid arguments make no request', implies(neg(ok), len(x.events) == 0))
    for label, cond, names in exceptions:
        x.ensures(label, implies(cond, x.raised(*names)))
    if not x.events:
        x.ensures('valid arguments are sent', neg(ok))
    else:
        x.ensures('the request carries exactly the given values', implies(ok, x.request_is(method, msg, **fields)))
        x.ensures('the reply is decoded as the server encodes it', x.reply_type_is(reply))
    modified_is_returned(x)
    nothing_else_fails(x)


@contract('set_fan_speed', speed='int or None')
def _(x):
    ok = x.within('speed', 1, 4)
    setter(x, ok, [('a speed outside 1-4 raises InvalidFanSpeed', neg(ok), ['InvalidFanSpeed'])],
           'SetFanSpeed', 'FanSpeedTarget', 'FanSpeedModified', Abs=x.arg['speed'], Rel=False)
    errors_are_raised(x)


@contract('set_comfort_temperature', temperature='int or None')
def _(x):
    ok = x.within('temperature', 0, 255)
    setter(x, ok, [('a temperature outside 0-255 raises InvalidTemperature', neg(ok), ['InvalidTemperature'])],
           'SetComfortTemp', 'ComfortTarget', 'ComfortModified', ComfortTemp=x.arg['temperature'])
    errors_are_raised(x)


@contract('configure_fan_profile', profile='int or None', percent='int')
def _(x):
    p, d = x.within('profile', 1, 4), x.within('percent', 15, 100)
    setter(x, conj([p, d]),
           [('a profile outside 1-4 raises InvalidFanSpeed', conj([neg(p), d]), ['InvalidFanSpeed']),
            ('a percentage outside 15-100 raises InvalidDutyPercent', conj([p, neg(d)]), ['InvalidDutyPercent']),
            ('two invalid arguments raise either exception', conj([neg(p), neg(d)]), ['InvalidFanSpeed', 'InvalidDutyPercent'])],
           'SetFanProfile', 'FanProfileTarget', 'FanProfileModified', Mode=x.arg['profile'], TargetSpeed=x.arg['percent'])
    errors_are_raised(x)


def step(up):
    def clauses(x):
        x.ensures('one step is requested in the named direction', x.request_is('SetFanSpeed', 'FanSpeedTarget', Abs=0, Rel=up))
        x.ensures('the reply is decoded as the server encodes it', x.reply_type_is('FanSpeedModified'))
        modified_is_returned(x)
        nothing_else_fails(x)
        if x.error_code() == 'InvalidArgument':
            x.ensures('stepping off the end returns False', x.returned_bool(False))
        else:
            errors_are_raised(x)
    return clauses


contract('increase_fan_speed')(step(True))
contract('decrease_fan_speed')(step(False))


def getter(method, msg):
    def clauses(x):
        x.ensures('the unit is asked once', x.request_is(method, 'Noop'))
        x.ensures('the reply is decoded as the server encodes it', x.reply_type_is(msg))
        errors_are_raised(x)
        nothing_else_fails(x)
        if x.reply() is not None and x.returned():
            for f, v in x.reply().items():
                x.ensures('%s of the reply is exposed under the same name' % f, x.attribute_equals(x.ret, f, v))
    return clauses


contract('get_bootinfo')(getter('GetBootInfo', 'BootInfo'))
contract('get_bypass')(getter('GetBypass', 'Bypass'))
contract('get_temps')(getter('GetTemps', 'Temps'))
contract('get_fans')(getter('GetFans', 'Fans'))
contract('get_fan_profiles')(getter('GetFanProfiles', 'FanProfiles'))
contract('get_errors')(getter('GetErrors', 'Errors'))


@contract('ping')
def _(x):
    x.ensures('the unit is asked once', x.request_is('GetBootInfo', 'Noop'))
    errors_are_raised(x)
    if x.reply() is not None:
        x.ensures('a reply means True', x.returned_bool(True))
