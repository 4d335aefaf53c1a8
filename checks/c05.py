"""C05 A value validates exactly when it meets every schema constraint."""
import numpy as np
from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen
from dschpbt import spec as sp

QUICK, THOROUGH = 33600, 1500000
RULE = ('case = an item or list schema node with constraints and up to four values at, around and away from its '
        'limits, of right and wrong types, validated by the schema node and in an in-memory storage, against a '
        'reference validator in plain Python; non-trivial = some value sits exactly at a limit or violates exactly '
        'one constraint')
ASSUMPTIONS = [
    'NaN elements are not combined with value limits, and value limits are exactly representable in the dtype.',
    'Sub-types are not used as wrong types (a datetime for a Date, NumPy strings).']
CFG = {'constraints': True, 'depends': False, 'tight': True}

WRONG = {
    'Array': [['pylist', [['int', 1]]], ['int', 1], ['sc', 'float64', 1.0],
              ['str', 'x'], ['none']],
    'Scalar': [['int', 1], ['float', 1.5], ['bool', True], ['npbool', True],
               ['arr', 'float64', [], [1.0]], ['arr', 'int32', [1], [1]],
               ['complex', 1.0, 2.0], ['str', '1'], ['none']],
    'Bytes': [['str', 'abc'], ['str', ''], ['bytearray', '6162'], ['int', 3],
              ['pylist', []], ['none'], ['arr', 'uint8', [2], [1]]],
    'String': [['bytes', '6162'], ['bytes', ''], ['int', 3], ['pylist', []],
               ['none'], ['bool', True]],
    'Bool': [['int', 0], ['int', 1], ['npbool', True], ['npbool', False],
             ['str', ''], ['none'], ['float', 0.0]],
    'Date': [['time', 1, 2, 3, 4], ['str', '2020-01-01'], ['int', 0],
             ['none'], ['pylist', [['int', 2020], ['int', 1], ['int', 1]]]],
    'DateTime': [['date', 2020, 1, 1], ['time', 1, 2, 3, 4], ['int', 0],
                 ['str', '2020-01-01'], ['none']],
    'Time': [['date', 2020, 1, 1], ['datetime', 2020, 1, 1, 0, 0, 0, 0],
             ['int', 0], ['str', '12:00'], ['none']],
}
DTYPES = gen.INTS + gen.FLOATS + gen.COMPLEX


@st.composite
def other_dtype(draw, spec):
    """A value of the right type and shape, with another dtype."""
    own = sp.npdtype(spec)
    pool = [d for d in DTYPES if np.dtype(d) != own]
    if spec['min_value'] is not None or spec['max_value'] is not None:
        # Complex numbers are not ordered.
        pool = [d for d in pool if d not in gen.COMPLEX]
    if own.itemsize > 1:
        pool.append(own.newbyteorder().str)
    dt = draw(st.sampled_from(pool))
    # Equal-sized and similar types are the ones that are easily confused.
    if spec['t'] == 'Scalar':
        if not np.dtype(dt).isnative:
            dt = 'int16' if own != np.dtype('int16') else 'int32'
        value = draw(gen.elements(dt))
        if value != value:
            value = 0.0
        return ['sc', dt, value]
    shape = draw(gen.array_shape(spec))
    data = draw(st.lists(st.integers(0, 3), min_size=1, max_size=4))
    if np.dtype(dt).kind == 'c':
        data = [[x, 0] for x in data]
    return ['arr', dt, shape, data]


@st.composite
def any_value(draw, spec):
    which = draw(st.integers(0, 9))
    if which == 0:
        return draw(st.sampled_from(WRONG[spec['t']]))
    if which == 1 and spec['t'] in ('Array', 'Scalar'):
        return draw(other_dtype(spec))
    return draw(gen.loose_value(spec))


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 11)) == 0:
        lo, hi = draw(gen.lengths(CFG))
        sub = draw(gen.leaf_spec(CFG))
        sizes = {0, 1, 5} | {max(0, x + d) for x in (lo, hi) if x is not None
                             for d in (-1, 0, 1)}
        return {'spec': {'t': 'List', 'sub': sub, 'min': lo, 'max': hi},
                'values': draw(st.lists(st.sampled_from(sorted(sizes)),
                                        min_size=1, max_size=4))}
    spec = draw(gen.leaf_spec(dict(CFG, kinds=(
        'Array', 'Array', 'Array', 'Scalar', 'Scalar', 'Bytes', 'String',
        'Bool', 'Date', 'DateTime', 'Time'))))
    return {'spec': spec, 'values': draw(st.lists(any_value(spec), min_size=1,
                                                  max_size=4))}


def strategy():
    return strategy_()


def at_limit(spec, obj):
    kind = spec['t']
    if kind == 'List':
        return obj in (spec['min'], spec['max'])
    if kind in ('Bytes', 'String'):
        return len(obj) in (spec['min'], spec['max'])
    if kind in ('Scalar', 'Array'):
        limits = [x for x in (spec['min_value'], spec['max_value'])
                  if x is not None]
        if any(np.any(obj == x) for x in limits):
            return True
        if kind == 'Array':
            for limit in (spec['min_shape'], spec['max_shape']):
                if limit and any(a == b for a, b in zip(limit, obj.shape)):
                    return True
    return False


def classify(case):
    spec = case['spec']
    tags = {spec['t']}
    for value in case['values']:
        obj = value if spec['t'] == 'List' else sp.decode(value)
        pairs = sp.violations(spec, obj)
        tags.add('valid' if not pairs else 'invalid')
        if len(pairs) == 1:
            tags.update(['exactly one violation', 'nontrivial'])
            if pairs[0][0] == 'type':
                tags.add('wrong type')
        elif not pairs and at_limit(spec, obj):
            tags.update(['valid at a limit', 'nontrivial'])
    return sorted(tags)


def expect(what, pairs, call):
    try:
        call()
    except dsch.exceptions.ValidationError as err:
        if not pairs:
            raise Violation('{} is rejected: {}'.format(what, err)) from err
        if not sp.reported_ok(pairs, err):
            raise Violation(
                '{}: the error carries (expected {!r}, got {!r}), which is '
                'none of {}'.format(what, err.expected, err.got,
                                    pairs)) from err
    else:
        if pairs:
            raise Violation('{} is accepted, but violates (limit, actual) {}'
                            .format(what, pairs))


def check(case, scratch):
    spec = case['spec']
    node = sp.build(spec)
    for value in case['values']:
        if spec['t'] == 'List':
            pairs = sp.violations(spec, value)
            data = dsch.create('::inmem::', node).data
            for _ in range(value):
                data.append()
            expect('a list of {} entries for {}'.format(
                value, sp.canon_json(spec)), pairs, data.validate)
            continue
        obj = sp.decode(value)
        pairs = sp.violations(spec, obj)
        what = '{} for {}'.format(sp.short(obj), sp.canon_json(spec))
        if spec['t'] == 'Array':
            expect(what, pairs, lambda: node.validate(obj, ()))
        else:
            expect(what, pairs, lambda: node.validate(obj))
        if value[0] == 'none' or spec['t'] == 'Scalar' and (
                value[0] != 'sc' or np.dtype(value[1]) != sp.npdtype(spec)):
            # Assigning these clears or converts the value.
            continue
        storage = dsch.create('::inmem::', node)
        storage.data.value = sp.decode(value)
        expect(what + ' (in a storage)', pairs, storage.validate)
