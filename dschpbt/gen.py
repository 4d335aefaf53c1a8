"""Hypothesis strategies for schema specs, values, states and histories."""
import datetime
import math
import re

import numpy as np
from hypothesis import strategies as st

from . import spec as sp

INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
        'uint64')
FLOATS = ('float16', 'float32', 'float64')
COMPLEX = ('complex64', 'complex128')
# Item types, mostly those with constraints.
LIMITED = ('Array',) * 4 + ('Scalar',) * 3 + ('Bytes',) * 2 + (
    'String',) * 2 + ('Bool', 'Date', 'DateTime', 'Time')
# Not in the byte order of the computer; NumPy scalars always are.
SWAPPED = ('>i4', '>f8', '>u2', '>f4', '>c8', '>i8')
ALIASES = ('int', 'float', 'complex', 'i4', 'f8', 'double', 'single', '<i8')

# Names of fields: typical, awkward for one of the formats, similar ones.
NAMES = ('a', 'b', 'c', 'x', 'y', 'time', 'voltage', 'item_0', 'item_1',
         'length', 'data', 'schema', 'file', 'self', 'args', 'kwds', 'name',
         'value', 'dtype', 'shape', 'T', 'real', 'dsch_data', 'dsch_schema',
         'A', 'ab', 'a_b', 'a1', 'class', 'None', 'append', 'resize', 'save_',
         'allow_pickle', 'names', 'fields', 'keys', 'items', 'get', 'attrs',
         'item_10', 'item_2', 'x_', 'key', 'ndim', 'index', 'e1', 'schema_',
         'abcdefghijklmnopqrstuvwxyzabcdef', 'n' * 63, 'spam', 'eggs')
# Attributes of data nodes (see DESIGN.md) cannot be used as field names.
RESERVED = {'schema_node', 'parent', 'clear', 'complete', 'data_tree', 'empty',
            'load_from', 'node_tree', 'replace', 'validate', 'save'}


@st.composite
def random_name(draw):
    first = draw(st.sampled_from('abcdefgxyzABCXYZ'))
    rest = draw(st.text('abcxyzABC_0123456789', max_size=6))
    return first + rest


names = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES[:6]),
                  random_name()).filter(lambda n: n not in RESERVED)

# Names that MATLAB files do not support (known findings of C01).
WIDE_NAMES = ('_x', '__x', '_', '_schema_', '_storage', '_parent', 'größe', 'µ',
              'λ1', '変数', '\u00e9', 'e\u0301', '\u00e9' * 40, 'my field',
              '1a', ' a', 'a ', 'a-b', 'a:b', 'a*', '\U0001f600', '%s', '{}')
wide_names = st.one_of(st.sampled_from(WIDE_NAMES), st.sampled_from(WIDE_NAMES),
                       names)


def mat_names(spec):
    """Whether MATLAB files support all names of fields."""
    return all(re.fullmatch('[A-Za-z][A-Za-z0-9_]{0,62}', name)
               for _, node in spec_paths(spec) if node['t'] == 'Comp'
               for name, _ in node['fields'])


def field_name(cfg):
    return wide_names if cfg.get('wide_names') else names


# Characters that are easily lost at the beginning or end, or converted.
ODD = ('\n', '\r', '\r\n', '\t', ' ', '\x0b', '\x0c', '\x1a', '\x1b', '\x7f',
       '\x85', '\xa0', '\xad', '\u0301', '\u200b', '\u200e', '\u2028', '\u2029',
       '\u3000', '\ufeff', '\ufffd', '\uffff', '\U0010ffff', '\x01', "'", '"',
       '\\', '\\n', '%s', '{}', '$', '&amp;', '\u212b', '\u00e5', 'ß', 'İ')
LONG = (255, 256, 257, 1000, 1023, 2049, 4097)


@st.composite
def odd_text(draw):
    part = st.sampled_from(ODD)
    return (draw(st.just('') | part) + draw(st.sampled_from(['', 'a', 'xy']))
            + draw(st.just('') | part))


@st.composite
def long_text(draw):
    pattern = draw(st.sampled_from(['x', 'ä', 'ab ', 'a\U0001f600', ' \n']))
    return (pattern * draw(st.sampled_from(LONG)))[:max(LONG)]


@st.composite
def long_bytes(draw):
    pattern = draw(st.sampled_from([b'x', b'\0', b'a\0', b'\xff',
                                    bytes(range(256))]))
    return (pattern * draw(st.sampled_from(LONG)))[:draw(st.sampled_from(LONG))]


def rarely(common, rare, odds=24):
    return st.integers(0, odds).flatmap(
        lambda n: rare if n == odds else common)


texts = st.one_of(
    odd_text(),
    rarely(st.text('ab \0'.replace('\0', ''), max_size=4), long_text(), 3),
    st.text(st.characters(blacklist_categories=('Cs',),
                          blacklist_characters='\0'), max_size=6),
    st.sampled_from(['', ' ', 'a', '0', 'None', ' a ', 'a\n', '\n', 'true',
                     'äöü€', '\U0001f600', 'a\U0001f600b', 'x' * 70, '\x7f',
                     '[]', '{}', '.', '/', 'a.b', 'e\u0301', '\ufeffx',
                     '\u2028', '"', '\\', "'", '\r\n', '\t']))

bytes_ = st.one_of(
    st.binary(max_size=6),
    rarely(st.binary(max_size=2), long_bytes(), 9),
    st.sampled_from([b'', b'\0', b'a\0', b'\0a', b'a\0\0', b'\xff\x80', b' ',
                     b'a' * 70, bytes(range(256)), b'\n', b'\0' * 5, b'5']))

units = st.sampled_from(['', '', 'V', 'm/s^2', 'µA', '%', '{}', 'Ω', ' '])

dates = st.one_of(
    st.dates(),
    st.sampled_from([datetime.date.min, datetime.date.max,
                     datetime.date(1970, 1, 1), datetime.date(2000, 2, 29)]))
datetimes = st.one_of(
    st.datetimes(),
    st.sampled_from([datetime.datetime.min, datetime.datetime.max,
                     datetime.datetime(1970, 1, 1),
                     datetime.datetime(2016, 2, 29, 23, 59, 59, 1)]))
times = st.one_of(
    st.times(),
    st.sampled_from([datetime.time.min, datetime.time.max,
                     datetime.time(0, 0, 0, 1), datetime.time(12)]))


def enc_date(d):
    return ['date', d.year, d.month, d.day]


def enc_datetime(d):
    return ['datetime', d.year, d.month, d.day, d.hour, d.minute, d.second,
            d.microsecond]


def enc_time(t):
    return ['time', t.hour, t.minute, t.second, t.microsecond]


def elements(dtype, lo=None, hi=None):
    """Encoded elements of the dtype; lo/hi are inclusive limits or None."""
    dt = np.dtype(dtype)
    if dt.kind == 'b':
        return st.booleans()
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        # Limits of integers may be fractional.
        low = int(info.min) if lo is None else math.ceil(lo)
        high = int(info.max) if hi is None else math.floor(hi)
        small = st.integers(max(low, min(high, -3)), min(high, max(low, 9)))
        return st.one_of(small, st.integers(low, high),
                         st.sampled_from([low, high]))
    if dt.kind == 'f':
        width = dt.itemsize * 8
        free = lo is None and hi is None
        infinite = [x for x in (lo, hi) if x is not None and math.isinf(x)]
        if lo == math.inf or hi == -math.inf:
            return st.just(lo if lo == math.inf else hi)
        wide = st.floats(lo, hi, width=width, allow_nan=False,
                         allow_infinity=free or bool(infinite))
        options = [wide]
        edge = [x for x in (0.0, 1.0, -1.5, 2.0, 1e-3)
                if (lo is None or x >= lo) and (hi is None or x <= hi)]
        edge += [x for x in (lo, hi) if x is not None]
        edge = [float(np.array(x, dtype=dt)) for x in edge]
        if free:
            edge += [float('nan'), float('inf'), -float('inf'), -0.0]
        if edge:
            options.append(st.sampled_from(edge))
        return st.one_of(options)
    if dt.kind == 'c':
        part = elements('float32' if dt.itemsize == 8 else 'float64')
        return st.tuples(part, part).map(list)
    raise AssertionError(dtype)


def dtypes(cfg, array):
    pool = INTS + FLOATS + COMPLEX + (('bool',) if array else ())
    options = [st.sampled_from(pool), st.sampled_from(('int32', 'float64'))]
    if cfg.get('aliases', True):
        options.append(st.sampled_from(ALIASES))
        if array:
            options.append(st.sampled_from(ALIASES + SWAPPED))
    base = st.one_of(options)
    if cfg.get('dtype_objects'):
        base = st.one_of(
            base, base.map(lambda d: {'np': d}), base.filter(
                lambda d: d not in SWAPPED).map(lambda d: {'type': d}))
    return base


def limit_value(dt):
    """A limit that is exactly representable in the dtype."""
    dt = np.dtype(dt)
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        # Neighbours of the large ones are the same as floats.
        large = [x for x in (2 ** 24, 2 ** 31, 2 ** 53, 2 ** 62, 2 ** 63)
                 if x < info.max] + [-(2 ** 53), -(2 ** 62), info.min + 1]
        large = [int(x) for x in large if x > info.min]
        return st.one_of(st.integers(max(info.min, -4), 9),
                         st.sampled_from(large + [int(info.max) - 1]),
                         st.integers(int(info.min), int(info.max)),
                         st.sampled_from([0.5, 2.5, 3.0, 7.25]))
    return st.one_of(
        st.sampled_from([0, 1, -2, 3.5, 0.0, 100, -0.25, 1, 2, math.inf,
                         -math.inf]),
        st.floats(-1000, 1000, width=16, allow_nan=False)
        .map(lambda x: x + 0.0))


def constrained(cfg):
    """Whether to set a constraint."""
    if not cfg.get('constraints', True):
        return st.just(False)
    if cfg.get('tight'):
        return st.sampled_from([True, True, True, True, False])
    return st.booleans()


@st.composite
def value_limits(draw, dtype, cfg):
    """(min_value, max_value) for a numeric dtype."""
    dt = np.dtype(dtype)
    if dt.kind not in 'iuf' or not draw(constrained(cfg)):
        return None, None
    lo = draw(st.none() | limit_value(dt))
    hi = draw(st.none() | limit_value(dt))
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    if dt.kind != 'f' and None not in (lo, hi) \
            and math.ceil(lo) > math.floor(hi):
        hi = None
    return lo, hi


@st.composite
def lengths(draw, cfg, top=4):
    """(min, max) length limits."""
    if not draw(constrained(cfg)):
        return None, None
    lo = draw(st.none() | st.integers(0, top))
    hi = draw(st.none() | st.integers(0, top))
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    return lo, hi


@st.composite
def array_spec(draw, cfg, ndim=None):
    dtype = draw(dtypes(cfg, True))
    if ndim is None:
        ndim = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 0]))
    out = {'t': 'Array', 'dtype': dtype, 'unit': draw(units),
           'max_shape': None, 'min_shape': None, 'ndim': ndim,
           'max_value': None, 'min_value': None, 'depends_on': None}
    if ndim and draw(constrained(cfg)):
        lo, hi = [], []
        for _ in range(ndim):
            a = draw(st.none() | st.integers(0, 4))
            b = draw(st.none() | st.integers(0, 4))
            if a is not None and b is not None and a > b:
                a, b = b, a
            if draw(st.integers(0, 5)) == 0:
                a = b
            lo.append(a)
            hi.append(b)
        which = draw(st.sampled_from(['max', 'min', 'both']))
        if which != 'min':
            out['max_shape'] = hi
        if which != 'max':
            out['min_shape'] = lo
        if draw(st.booleans()):
            out['as_list'] = True
    out['min_value'], out['max_value'] = draw(
        value_limits(sp.npdtype(out), cfg))
    if cfg.get('dtype_objects') and draw(st.booleans()):
        out['np_limits'] = True
    return out


@st.composite
def leaf_spec(draw, cfg):
    kinds = cfg.get('kinds', sp.LEAVES)
    kind = draw(st.sampled_from(kinds))
    if kind == 'Array':
        return draw(array_spec(cfg))
    if kind == 'Scalar':
        out = {'t': 'Scalar', 'dtype': draw(dtypes(cfg, False)),
               'unit': draw(units)}
        out['min_value'], out['max_value'] = draw(
            value_limits(sp.npdtype(out), cfg))
        if cfg.get('dtype_objects') and draw(st.booleans()):
            out['np_limits'] = True
        return out
    if kind in ('Bytes', 'String'):
        lo, hi = draw(lengths(cfg))
        return {'t': kind, 'min': lo, 'max': hi}
    if kind == 'Bool':
        return {'t': 'Bool'}
    soc = cfg.get('soc', 'no')
    return {'t': kind, 'soc': draw(st.booleans()) if soc == 'yes' else False}


@st.composite
def node_spec(draw, cfg, depth):
    if depth == 0:
        return draw(leaf_spec(cfg))
    kind = draw(st.sampled_from(['leaf', 'Comp', 'Comp', 'List']))
    if kind == 'leaf':
        return draw(leaf_spec(cfg))
    if kind == 'List':
        lo, hi = draw(lengths(cfg, 3))
        return {'t': 'List', 'sub': draw(node_spec(cfg, depth - 1)),
                'min': lo, 'max': hi}
    return draw(comp_spec(cfg, depth))


@st.composite
def comp_spec(draw, cfg, depth, min_fields=0):
    count = draw(st.integers(max(min_fields, 1), cfg.get('width', 4)))
    if min_fields == 0 and draw(st.integers(0, 24)) == 0:
        count = 0
    field_names = draw(st.lists(field_name(cfg), min_size=count,
                                max_size=count, unique=True))
    subs = [draw(node_spec(cfg, depth - 1)) for _ in field_names]
    out = {'t': 'Comp', 'fields': [list(x) for x in zip(field_names, subs)]}
    if field_names and draw(st.booleans()):
        out['opt'] = draw(st.lists(st.sampled_from(field_names), unique=True))
    if cfg.get('depends', True) and draw(st.integers(0, 4)) == 0:
        add_dependency(draw, cfg, out)
    return out


def add_dependency(draw, cfg, out):
    """Add an array that depends on 1-D arrays of the same compilation."""
    used = {name for name, _ in out['fields']}
    new = [n for n in ('t', 's', 'u') if n not in used]
    if len(new) < 3:
        return
    plain = {'t': 'Array', 'dtype': 'float64', 'unit': 's', 'max_shape': None,
             'min_shape': None, 'ndim': 1, 'max_value': None,
             'min_value': None, 'depends_on': None}
    out['fields'].append(['t', dict(plain)])
    ndim = draw(st.integers(1, 2))
    deps = ['t']
    if ndim == 2:
        out['fields'].append(['s', dict(plain, dtype='int32')])
        deps = draw(st.sampled_from(
            [['t', 's'], ['t', None], [None, 't'], ['t', 't'], [None, None]]))
    out['fields'].append(['u', dict(plain, ndim=ndim, depends_on=deps,
                                    dep_str=draw(st.booleans()))])


@st.composite
def deep_spec(draw, cfg):
    """A narrow tree with many levels."""
    out = draw(node_spec(cfg, 1))
    limits = cfg.get('constraints', True)
    lists = 0
    for _ in range(draw(st.integers(4, 9))):
        # Without limits on the lengths, nested lists get large.
        if draw(st.integers(0, 2)) == 0 and (limits or lists < 2):
            lists += 1
            out = {'t': 'List', 'sub': out, 'min': None, 'max': None}
            if limits:
                out['min'] = draw(st.sampled_from([None, 1]))
                out['max'] = draw(st.sampled_from([1, 1, 2]))
            continue
        subs = [[draw(field_name(cfg)), out]]
        if draw(st.integers(0, 3)) == 0:
            other = draw(field_name(cfg))
            if other != subs[0][0]:
                subs.insert(draw(st.integers(0, 1)),
                            [other, draw(leaf_spec(cfg))])
        out = {'t': 'Comp', 'fields': subs}
        if draw(st.integers(0, 3)) == 0:
            out['opt'] = [draw(st.sampled_from([n for n, _ in subs]))]
    return out


@st.composite
def top_spec(draw, cfg):
    """Schema for a storage: usually a tree, sometimes a single item."""
    if cfg.get('wide_names') == 'some':
        cfg = dict(cfg, wide_names=draw(st.integers(0, 5)) == 0)
    depth = draw(st.sampled_from(cfg.get('depths', [0, 1, 2, 2, 3, 3])))
    if depth == 0:
        return draw(leaf_spec(cfg))
    if cfg.get('deep', True) and draw(st.integers(0, 11)) == 11:
        return draw(deep_spec(cfg))
    if draw(st.integers(0, 2)) == 0:
        return draw(node_spec(cfg, depth))
    return draw(comp_spec(cfg, depth))


# --------------------------------------------------------------------------
# Values and states

@st.composite
def array_shape(draw, spec, fixed=None):
    shape = []
    for dim in range(spec['ndim']):
        if fixed and fixed[dim] is not None:
            shape.append(fixed[dim])
            continue
        lo = (spec['min_shape'] or [None] * spec['ndim'])[dim] or 0
        hi = (spec['max_shape'] or [None] * spec['ndim'])[dim]
        if hi is None:
            hi = lo + 4
            odds = draw(st.integers(0, 47))
            if spec['ndim'] == 1 and odds >= 45:
                hi = lo + (1500 if odds < 47 else 20000)
            elif spec['ndim'] == 2 and odds == 47:
                hi = lo + 300
        shape.append(draw(st.integers(lo, hi)))
    if too_big(shape):
        shape = [n if fixed and fixed[dim] is not None
                 or (spec['min_shape'] or spec['max_shape'])
                 else n % 3 for dim, n in enumerate(shape)]
    return shape


def too_big(sizes):
    return int(np.prod([n or 1 for n in sizes or ()], dtype=int)) > 40000


@st.composite
def array_of(draw, dtype, shape, lo=None, hi=None):
    dtype = str(np.dtype(dtype))
    if int(np.prod(shape, dtype=int)) == 0:
        return ['arr', dtype, list(shape), []]
    size = int(np.prod(shape, dtype=int))
    data = draw(st.lists(elements(dtype, lo, hi), min_size=1,
                         max_size=min(size, 6)))
    return ['arr', dtype, list(shape), data]


def text_between(lo, hi):
    lo = lo or 0
    if hi is None:
        long = texts.map(lambda s: s + 'x' * max(0, lo - len(s)))
        return long
    return st.text(st.characters(blacklist_categories=('Cs',),
                                 blacklist_characters='\0'),
                   min_size=lo, max_size=hi)


def bytes_between(lo, hi):
    lo = lo or 0
    if hi is None:
        return bytes_.map(lambda s: s + b'\0' * max(0, lo - len(s)))
    return st.binary(min_size=lo, max_size=hi)


@st.composite
def valid_value(draw, spec, fixed=None):
    """An encoded value meeting every constraint of an item spec."""
    kind = spec['t']
    if kind == 'Array':
        shape = draw(array_shape(spec, fixed))
        return draw(array_of(sp.npdtype(spec), shape, spec['min_value'],
                             spec['max_value']))
    if kind == 'Scalar':
        dt = sp.npdtype(spec)
        return ['sc', str(dt), draw(elements(dt, spec['min_value'],
                                             spec['max_value']))]
    if kind == 'Bytes':
        return ['bytes', draw(bytes_between(spec['min'], spec['max'])).hex()]
    if kind == 'String':
        return ['str', draw(text_between(spec['min'], spec['max']))]
    if kind == 'Bool':
        return ['bool', draw(st.booleans())]
    if kind == 'Date':
        return enc_date(draw(dates))
    if kind == 'DateTime':
        return enc_datetime(draw(datetimes))
    if kind == 'Time':
        return enc_time(draw(times))
    raise AssertionError(kind)


@st.composite
def valid_state(draw, spec, fill=0.75):
    """A state in which every filled field and every list is valid."""
    kind = spec['t']
    if kind == 'Comp':
        out = {}
        late = []
        for name, sub in sp.fields(spec):
            if sub['t'] == 'Array' and sub['depends_on']:
                late.append((name, sub))
            else:
                out[name] = draw(valid_state(sub, fill))
        for name, sub in late:
            sizes = sp.independent_sizes(sub, out)
            if draw(st.integers(0, 99)) < 100 * fill \
                    and not too_big(sizes):
                out[name] = draw(valid_value(sub, sizes))
            else:
                out[name] = None
        return out
    if kind == 'List':
        lo = spec['min'] or 0
        hi = spec['max'] if spec['max'] is not None else lo + 3
        if spec['max'] is None and sp.is_leaf(spec['sub']) \
                and draw(st.integers(0, 19)) == 0:
            lo, hi = max(lo, 10), max(lo, 10) + 3
        count = draw(st.integers(lo, hi))
        items = []
        if spec['max'] is None and sp.is_leaf(spec['sub']) \
                and draw(st.integers(0, 39)) == 39:
            # A long list, of few different values.
            few = [draw(valid_state(spec['sub'], fill)) for _ in range(3)]
            count = draw(st.sampled_from([99, 101, 128, 257]))
            return [few[(i + i // 7) % 3] for i in range(count)]
        sub_fill = draw(st.sampled_from([fill, fill, 1.0, 0.5]))
        for _ in range(count):
            items.append(draw(valid_state(spec['sub'], sub_fill)))
        return items
    if draw(st.integers(0, 99)) >= 100 * fill:
        return None
    return draw(valid_value(spec))


# --------------------------------------------------------------------------
# Values that may violate constraints, but not the basic type

@st.composite
def loose_value(draw, spec, dims=True, dtypes_too=False):
    """A value of the right Python type that may violate constraints."""
    if draw(st.integers(0, 2)) == 0:
        return draw(valid_value(spec))
    kind = spec['t']
    if kind == 'Array':
        free = dict(spec, max_shape=None, min_shape=None, min_value=None,
                    max_value=None)
        if dims and draw(st.integers(0, 4)) == 0:
            free['ndim'] = draw(st.integers(0, 3))
        dt = sp.npdtype(spec)
        if dtypes_too and draw(st.integers(0, 4)) == 0:
            # Complex numbers are not ordered, so limits would not apply.
            limits = spec['min_value'], spec['max_value']
            dt = np.dtype(draw(st.sampled_from(
                INTS + FLOATS + (COMPLEX if limits == (None, None) else ()))))
        shape = [draw(st.integers(0, 6)) for _ in range(free['ndim'])]
        for dim, limit in enumerate(spec['max_shape'] or ()):
            if limit is not None and dim < len(shape) and draw(st.booleans()):
                shape[dim] = limit + draw(st.integers(0, 1))
        for dim, limit in enumerate(spec['min_shape'] or ()):
            if limit and dim < len(shape) and draw(st.booleans()):
                shape[dim] = limit - draw(st.integers(0, 1))
        if dt != sp.npdtype(spec):
            return draw(array_of(dt, shape))
        return draw(array_near(dt, shape, spec['min_value'],
                               spec['max_value']))
    if kind == 'Scalar':
        dt = sp.npdtype(spec)
        return ['sc', str(dt), draw(near(dt, spec['min_value'],
                                         spec['max_value']))]
    if kind in ('Bytes', 'String'):
        sizes = [0, 1, 2, 5]
        for key in ('min', 'max'):
            if spec[key] is not None:
                sizes += [max(0, spec[key] - 1), spec[key], spec[key] + 1]
        size = draw(st.sampled_from(sizes))
        if kind == 'Bytes':
            return ['bytes', draw(st.binary(min_size=size,
                                            max_size=size)).hex()]
        return ['str', draw(st.text('abcé€\U0001f600', min_size=size,
                                    max_size=size))]
    return draw(valid_value(spec))


def near(dtype, lo, hi):
    """Elements at and around limits (never NaN when there are limits)."""
    dt = np.dtype(dtype)
    base = elements(dt)
    if lo is None and hi is None:
        return base
    edge = []
    for limit in (lo, hi):
        if limit is None:
            continue
        if dt.kind in 'iu':
            info = np.iinfo(dt)
            edge += [x for x in (math.ceil(limit) - 1, math.ceil(limit),
                                 math.floor(limit), math.floor(limit) + 1)
                     if info.min <= x <= info.max]
        else:
            x = np.array(limit, dtype=dt)
            edge += [float(x), float(np.nextafter(x, dt.type(np.inf))),
                     float(np.nextafter(x, dt.type(-np.inf)))]
    base = base.filter(lambda x: x == x)
    if not edge:
        return base
    edge = st.sampled_from(edge)
    return st.one_of(edge, edge, base)


@st.composite
def array_near(draw, dtype, shape, lo, hi):
    dt = np.dtype(dtype)
    size = int(np.prod(shape, dtype=int))
    if size == 0:
        return ['arr', str(dt), list(shape), []]
    if dt.kind not in 'iuf':
        lo = hi = None
    elif (lo is not None or hi is not None) and draw(st.booleans()):
        # Mostly valid elements with a single one that may be out of range.
        good = elements(dt, *_clip(dt, lo, hi))
        data = draw(st.lists(good, min_size=size, max_size=size)) \
            if size <= 8 else [draw(good)] * size
        data[draw(st.integers(0, size - 1))] = draw(near(dt, lo, hi))
        if dt.kind == 'f' and size > 1 and any(
                lo is not None and x < lo or hi is not None and x > hi
                for x in data) and draw(st.booleans()):
            # NaN next to an element that is out of range.
            number = draw(st.integers(0, size - 1))
            if lo is None or data[number] >= lo:
                if hi is None or data[number] <= hi:
                    data[number] = float('nan')
        return ['arr', str(dt), list(shape), data]
    data = draw(st.lists(near(dt, lo, hi), min_size=1, max_size=min(size, 6)))
    return ['arr', str(dt), list(shape), data]


def _clip(dt, lo, hi):
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        if lo is not None:
            lo = min(max(int(np.ceil(lo)), int(info.min)), int(info.max))
        if hi is not None:
            hi = min(max(int(np.floor(hi)), int(info.min)), int(info.max))
        if lo is not None and hi is not None and lo > hi:
            lo = hi
        return lo, hi
    return lo, hi


@st.composite
def loose_state(draw, spec, fill=0.85, dims=True, dtypes_too=False):
    """A state that may violate any constraint anywhere."""
    kind = spec['t']
    if kind == 'Comp':
        return {name: draw(loose_state(sub, fill, dims, dtypes_too))
                for name, sub in sp.fields(spec)}
    if kind == 'List':
        sizes = [0, 1, 2, 3]
        for key in ('min', 'max'):
            if spec[key] is not None:
                sizes += [max(0, spec[key] - 1), spec[key], spec[key] + 1]
        return [draw(loose_state(spec['sub'], fill, dims, dtypes_too))
                for _ in range(draw(st.sampled_from(sizes)))]
    if draw(st.integers(0, 99)) >= 100 * fill:
        return None
    return draw(loose_value(spec, dims, dtypes_too))


# --------------------------------------------------------------------------
# Single-option changes of schemas

def spec_paths(spec, prefix=()):
    """All (path, spec) of a schema; list elements count as index 0."""
    yield prefix, spec
    if spec['t'] == 'Comp':
        for name, sub in sp.fields(spec):
            yield from spec_paths(sub, prefix + (name,))
    elif spec['t'] == 'List':
        yield from spec_paths(spec['sub'], prefix + (0,))


@st.composite
def mutated(draw, spec, depends=True, root=None):
    """The spec with exactly one configuration option changed."""
    nodes = list(spec_paths(spec))
    path, node = draw(st.sampled_from(nodes))
    new = draw(changed(node, depends))
    out = replaced(spec, path, new)
    assert sp.canon_json(out) != sp.canon_json(spec)
    return out


def replaced(spec, path, new):
    if not path:
        return new
    out = dict(spec)
    if spec['t'] == 'List':
        out['sub'] = replaced(spec['sub'], path[1:], new)
    else:
        out['fields'] = [
            [name, replaced(sub, path[1:], new) if name == path[0] else sub]
            for name, sub in sp.fields(spec)]
    return out


def other_number(old):
    if old is None:
        return st.sampled_from([0, 1, 3, 100])
    more = [] if math.isinf(old) else [old + 1, old + 10]
    return st.sampled_from([None] + more + ([0] if old != 0 else []))


@st.composite
def changed(draw, node, depends=True):
    """Change one option of a single schema node."""
    kind = node['t']
    new = dict(node)
    if kind in ('Comp', 'List'):
        if kind == 'List':
            key = draw(st.sampled_from(['min', 'max']))
            new[key] = draw(other_number(node[key]))
            return new
        used = [name for name, _ in node['fields']]
        dependent = {d for _, sub in node['fields'] if sub['t'] == 'Array'
                     for d in sub['depends_on'] or ()}
        free = [name for name in used if name not in dependent]
        options = ['add']
        if free:
            options += ['drop', 'rename', 'rename']
        if used:
            options += ['optional', 'optional']
        what = draw(st.sampled_from(options))
        optionals = list(node.get('opt') or [])
        if what == 'add':
            name = draw(names.filter(lambda n: n not in used))
            new['fields'] = node['fields'] + [[name, {'t': 'Bool'}]]
        elif what == 'drop':
            name = draw(st.sampled_from(free))
            new['fields'] = [f for f in node['fields'] if f[0] != name]
            if name in optionals:
                new['opt'] = [o for o in optionals if o != name]
        elif what == 'rename':
            name = draw(st.sampled_from(free))
            other = draw(st.sampled_from([name + '_', name.swapcase(),
                                          name + '2', 'q' + name[1:]])
                         .filter(lambda n: n not in used
                                 and n not in RESERVED and len(n) < 64)
                         | names.filter(lambda n: n not in used))
            new['fields'] = [[other if f[0] == name else f[0], f[1]]
                             for f in node['fields']]
            new['opt'] = [other if o == name else o for o in optionals]
        else:
            name = draw(st.sampled_from(used))
            if name in optionals:
                optionals.remove(name)
            else:
                optionals.append(name)
            new['opt'] = optionals
        return new
    if kind in ('Bytes', 'String'):
        if draw(st.integers(0, 3)) == 0:
            new['t'] = 'Bytes' if kind == 'String' else 'String'
            return new
        key = draw(st.sampled_from(['min', 'max']))
        new[key] = draw(other_number(node[key]))
        return new
    if kind == 'Bool':
        return {'t': 'Date', 'soc': False}
    if kind in ('Date', 'DateTime', 'Time'):
        if draw(st.booleans()):
            return dict(node, soc=not node['soc'])
        return dict(node, t=draw(st.sampled_from(
            [k for k in ('Date', 'DateTime', 'Time') if k != kind])))
    # Scalar and Array
    options = ['unit', 'dtype', 'max_value', 'min_value']
    if kind == 'Array':
        if depends and node['ndim']:
            options.append('depends_on')
        if node['max_shape'] or node['min_shape']:
            options += ['shape', 'shape']
        elif not node['depends_on']:
            options.append('ndim')
    what = draw(st.sampled_from(options))
    if what == 'unit':
        new['unit'] = draw(st.sampled_from(
            [u for u in ('', 'V', 'mV', ' ', 'Ω') if u != node['unit']]))
    elif what == 'dtype':
        old = sp.dtype_str(node)
        pool = ['int16', 'uint16', 'int32', 'float32', 'float64', 'complex64']
        new['dtype'] = draw(st.sampled_from([d for d in pool if d != old]))
    elif what in ('max_value', 'min_value'):
        new[what] = draw(other_number(node[what]))
    elif what == 'ndim':
        new['ndim'] = node['ndim'] + draw(st.sampled_from([1, 2]))
    elif what == 'shape':
        key = draw(st.sampled_from([k for k in ('max_shape', 'min_shape')
                                    if node[k]]))
        shape = list(node[key])
        dim = draw(st.integers(0, len(shape) - 1))
        shape[dim] = draw(other_number(shape[dim]))
        new[key] = shape
    else:
        old = node['depends_on'] or [None] * node['ndim']
        if node['depends_on'] and draw(st.booleans()):
            new['depends_on'] = None
        else:
            deps = list(old)
            dim = draw(st.integers(0, len(deps) - 1))
            deps[dim] = draw(st.sampled_from(
                [d for d in (None, 't', 'other') if d != deps[dim]]))
            new['depends_on'] = deps
        new['dep_str'] = False
        if new['depends_on'] == node['depends_on']:
            new['unit'] = node['unit'] + '!'
    return new


@st.composite
def permuted(draw, spec):
    """The same configuration with the fields in another order."""
    if spec['t'] == 'Comp':
        order = draw(st.permutations(spec['fields']))
        return dict(spec, fields=[[n, draw(permuted(sub))]
                                  for n, sub in order])
    if spec['t'] == 'List':
        return dict(spec, sub=draw(permuted(spec['sub'])))
    return spec


def sane(spec):
    """Whether valid data exists for the spec and can be generated."""
    for _, node in spec_paths(spec):
        if node['t'] in ('Bytes', 'String', 'List'):
            if None not in (node['min'], node['max']) \
                    and node['min'] > node['max']:
                return False
        if node['t'] == 'Comp':
            subs = dict(sp.fields(node))
            for sub in subs.values():
                for name in sub.get('depends_on') or ():
                    if name and (name not in subs
                                 or subs[name].get('ndim') != 1):
                        return False
        if node['t'] not in ('Array', 'Scalar'):
            continue
        lo, hi = node['min_value'], node['max_value']
        dt = sp.npdtype(node)
        for limit in (lo, hi):
            if limit is None:
                continue
            if dt.kind not in 'iuf':
                return False
            if dt.kind in 'iu' and not (np.iinfo(dt).min <= limit
                                        <= np.iinfo(dt).max):
                return False
            if dt.kind == 'f' and float(dt.type(limit)) != limit:
                return False
        if lo is not None and hi is not None and (
                lo > hi or dt.kind != 'f'
                and math.ceil(lo) > math.floor(hi)):
            return False
        for a, b in zip(node.get('min_shape') or (),
                        node.get('max_shape') or ()):
            if a is not None and b is not None and a > b:
                return False
        if node.get('depends_on') and (node['min_shape'] or node['max_shape']):
            return False
    return True


# --------------------------------------------------------------------------
# Data with a few injected violations

@st.composite
def spoiled_state(draw, spec, dtypes_too=False, dims=True, wrong=None):
    """A valid state in which some positions are likely invalid.

    wrong: mapping of node types to values of wrong types, used rarely.
    """
    if draw(st.integers(0, 3)) == 0:
        return draw(loose_state(spec, dims=dims, dtypes_too=dtypes_too))
    state = draw(valid_state(spec, 0.85))
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        nodes = [n for n in sp.paths(spec, state)
                 if sp.is_leaf(n[1]) or n[1]['t'] == 'List']
        limited = [n for n in nodes if any(
            n[1].get(key) is not None for key in (
                'min', 'max', 'max_shape', 'min_shape', 'max_value',
                'min_value', 'depends_on'))]
        if limited and draw(st.integers(0, 7)):
            nodes = limited
        if not nodes:
            break
        path, sub, now = draw(st.sampled_from(nodes))
        if sub['t'] == 'List':
            sizes = {0, 1, 3} | {max(0, x + d) for x in
                                 (sub['min'], sub['max'])
                                 if x is not None for d in (-1, 0, 1)}
            size = draw(st.sampled_from(sorted(sizes)))
            new = [now[i] if i < len(now) else
                   draw(valid_state(sub['sub'])) for i in range(size)]
        elif wrong and sub['t'] in wrong and draw(st.integers(0, 5)) == 0:
            new = draw(st.sampled_from(wrong[sub['t']]))
        else:
            sizes = sp.independent_sizes(sub, sp.state_at(state, path[:-1])) \
                if sub['t'] == 'Array' and sub['depends_on'] else None
            for _ in range(4):
                new = draw(loose_value(sub, dims, dtypes_too))
                if sp.violations(sub, sp.decode(new), sizes):
                    break
        state = sp.set_state(state, path, new)
    return state
