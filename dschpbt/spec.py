"""Schema specifications and values as plain data, independent of dsch.

A specification ("spec") is a JSON-encodable description of a schema:

  {"t": "Array", "dtype", "unit", "max_shape", "min_shape", "ndim",
                 "max_value", "min_value", "depends_on"}
  {"t": "Scalar", "dtype", "unit", "max_value", "min_value"}
  {"t": "Bytes" | "String", "min", "max"}       {"t": "Bool"}
  {"t": "Date" | "DateTime" | "Time", "soc"}
  {"t": "List", "sub", "min", "max"}
  {"t": "Comp", "fields": [[name, spec], ...], "opt": [names]}

A value is a tagged JSON list such as ["arr", dtype, shape, data] (the data is
cycled to fill the shape), ["sc", dtype, x], ["bytes", hex], ["str", s],
["bool", b], ["date", y, m, d], ["datetime", ...], ["time", ...].

A state is the content of a node: None or a value for an item, a dict of states
for a Comp, a list of states for a List.
"""
import datetime
import enum
import hashlib
import json
import zlib

import numpy as np

from . import Violation

LEAVES = ('Array', 'Scalar', 'Bytes', 'String', 'Bool', 'Date', 'DateTime',
          'Time')
TYPE_NAME = {'Comp': 'Compilation'}


def type_name(spec):
    return TYPE_NAME.get(spec['t'], spec['t'])


def is_leaf(spec):
    return spec['t'] in LEAVES


def fields(spec):
    return [(name, sub) for name, sub in spec['fields']]


# --------------------------------------------------------------------------
# Building schema nodes, and the documented JSON form

def _tup(value, as_list=False):
    if value is None:
        return None
    return list(value) if as_list else tuple(value)


def dtype_of(spec):
    """The dtype argument: a string, or {'np': s} / {'type': s} variants."""
    dtype = spec['dtype']
    if isinstance(dtype, dict):
        if 'np' in dtype:
            return np.dtype(dtype['np'])
        return np.dtype(dtype['type']).type
    return dtype


def dtype_str(spec):
    dtype = spec['dtype']
    if isinstance(dtype, dict):
        return str(np.dtype(dtype.get('np') or dtype['type']))
    return dtype


def npdtype(spec):
    return np.dtype(dtype_str(spec))


def _limit(spec, key):
    """A value limit, as a NumPy scalar if the spec says so."""
    limit = spec[key]
    if limit is None or not spec.get('np_limits'):
        return limit
    return (np.float64 if isinstance(limit, float) else
            np.uint64 if limit > 2 ** 63 - 1 else np.int64)(limit)


def build(spec, module=None):
    """Build the dsch schema node for a specification."""
    if module is None:
        from dsch import schema as module
    kind = spec['t']
    if kind == 'Comp':
        subnodes = {name: build(sub, module) for name, sub in fields(spec)}
        if spec.get('opt') is None:
            return module.Compilation(subnodes)
        return module.Compilation(subnodes, optionals=list(spec['opt']))
    if kind == 'List':
        return module.List(build(spec['sub'], module), max_length=spec['max'],
                           min_length=spec['min'])
    if kind in ('Bytes', 'String'):
        return getattr(module, kind)(min_length=spec['min'],
                                     max_length=spec['max'])
    if kind == 'Bool':
        return module.Bool()
    if kind in ('Date', 'DateTime', 'Time'):
        return getattr(module, kind)(set_on_create=spec['soc'])
    if kind == 'Scalar':
        return module.Scalar(dtype_of(spec), unit=spec['unit'],
                             max_value=_limit(spec, 'max_value'),
                             min_value=_limit(spec, 'min_value'))
    if kind == 'Array':
        depends_on = spec['depends_on']
        if depends_on is not None:
            if spec.get('dep_str') and len(depends_on) == 1:
                depends_on = depends_on[0]
            else:
                depends_on = tuple(depends_on)
        kwargs = {}
        if not (spec['max_shape'] or spec['min_shape']):
            kwargs['ndim'] = spec['ndim']
        return module.Array(
            dtype_of(spec), unit=spec['unit'],
            max_shape=_tup(spec['max_shape'], spec.get('as_list')),
            min_shape=_tup(spec['min_shape'], spec.get('as_list')),
            max_value=_limit(spec, 'max_value'),
            min_value=_limit(spec, 'min_value'), depends_on=depends_on, **kwargs)
    raise AssertionError(kind)


def canon(spec):
    """The documented dict form of the schema."""
    kind = spec['t']
    if kind == 'Comp':
        config = {'subnodes': {name: canon(sub) for name, sub in fields(spec)},
                  'optionals': list(spec.get('opt') or [])}
    elif kind == 'List':
        config = {'subnode': canon(spec['sub']), 'max_length': spec['max'],
                  'min_length': spec['min']}
    elif kind in ('Bytes', 'String'):
        config = {'min_length': spec['min'], 'max_length': spec['max']}
    elif kind == 'Bool':
        config = {}
    elif kind in ('Date', 'DateTime', 'Time'):
        config = {'set_on_create': spec['soc']}
    elif kind == 'Scalar':
        config = {'dtype': dtype_str(spec), 'unit': spec['unit'],
                  'max_value': spec['max_value'],
                  'min_value': spec['min_value']}
    elif kind == 'Array':
        config = {'dtype': dtype_str(spec), 'unit': spec['unit'],
                  'max_shape': spec['max_shape'],
                  'min_shape': spec['min_shape'], 'ndim': spec['ndim'],
                  'max_value': spec['max_value'],
                  'min_value': spec['min_value'],
                  'depends_on': spec['depends_on']}
    else:
        raise AssertionError(kind)
    return {'node_type': type_name(spec), 'config': config}


def canon_json(spec):
    return json.dumps(canon(spec), sort_keys=True)


def canon_hash(spec):
    return hashlib.sha256(canon_json(spec).encode()).hexdigest()


# --------------------------------------------------------------------------
# Values

def decode(value):
    """Create a fresh Python object for an encoded value."""
    kind = value[0]
    if kind == 'arr':
        dtype, shape, data = value[1:]
        size = int(np.prod(shape, dtype=int))
        if np.dtype(dtype).kind == 'c':
            data = [complex(*x) for x in data]
        if size == 0:
            return np.zeros(shape, dtype=dtype)
        base = np.array(data, dtype=dtype)
        # np.resize does not keep the byte order.
        base = np.resize(base, size).reshape(shape).astype(dtype)
        return in_memory(base, data)
    if kind == 'sc':
        dtype, x = value[1:]
        if np.dtype(dtype).kind == 'c':
            x = complex(*x)
        return np.array(x, dtype=dtype)[()]
    if kind == 'bytes':
        return bytes.fromhex(value[1])
    if kind in ('str', 'bool', 'int', 'float'):
        return value[1]
    if kind == 'none':
        return None
    if kind == 'complex':
        return complex(*value[1:])
    if kind == 'pylist':
        return [decode(x) for x in value[1]]
    if kind == 'bytearray':
        return bytearray.fromhex(value[1])
    if kind == 'npbool':
        return np.bool_(value[1])
    if kind == 'date':
        return datetime.date(*value[1:])
    if kind == 'datetime':
        return datetime.datetime(*value[1:])
    if kind == 'time':
        return datetime.time(*value[1:])
    raise AssertionError(kind)


def in_memory(array, data):
    """The same array in one of the layouts that arrays have in memory.

    The layout only depends on the encoded data, so that decoding a value
    again gives the same object.
    """
    layout = zlib.crc32(repr((array.shape, data)).encode()) % 8
    if layout == 0 and array.ndim > 1:
        return np.asfortranarray(array)
    if layout == 1 and array.ndim:
        # Every other element of a larger array.
        larger = np.zeros(array.shape[:-1] + (2 * array.shape[-1],),
                          dtype=array.dtype)
        larger[..., ::2] = array
        return larger[..., ::2]
    if layout == 2 and array.ndim:
        return array[::-1].copy()[::-1]
    if layout == 3:
        # Part of a larger array, not aligned to the size of the elements.
        raw = np.zeros(array.nbytes + 1, dtype='uint8')
        view = raw[1:].view(array.dtype).reshape(array.shape)
        view[...] = array
        return view
    return array


def encode(obj):
    """Inverse of decode, for valid values (used for model states)."""
    if isinstance(obj, np.ndarray):
        flat = obj.ravel().tolist()
        if obj.dtype.kind == 'c':
            flat = [[x.real, x.imag] for x in flat]
        return ['arr', str(obj.dtype), list(obj.shape), flat]
    raise AssertionError(type(obj))


def short(obj):
    text = repr(obj).replace('\n', ' ')
    if isinstance(obj, np.ndarray):
        text += ' ({} {})'.format(obj.dtype, obj.shape)
    return text if len(text) < 160 else text[:157] + '...'


def same(expected, actual):
    """Exact comparison: type, dtype, shape and every bit of the value."""
    if isinstance(expected, np.ndarray):
        return (type(actual) is np.ndarray
                and actual.dtype == expected.dtype
                and actual.shape == expected.shape
                and actual.tobytes() == expected.tobytes())
    if isinstance(expected, np.generic):
        return (type(actual) is type(expected)
                and actual.tobytes() == expected.tobytes())
    if type(actual) is not type(expected):
        return False
    if isinstance(expected, (datetime.datetime, datetime.time)):
        return (actual == expected and actual.tzinfo == expected.tzinfo
                and actual.fold == expected.fold)
    return actual == expected


# --------------------------------------------------------------------------
# Reference semantics of states

def is_empty(spec, state):
    if spec['t'] == 'Comp':
        return all(is_empty(sub, state[name]) for name, sub in fields(spec))
    if spec['t'] == 'List':
        return all(is_empty(spec['sub'], item) for item in state)
    return state is None


def is_complete(spec, state):
    if spec['t'] == 'Comp':
        optional = spec.get('opt') or []
        return all(is_complete(sub, state[name]) for name, sub in fields(spec)
                   if name not in optional)
    if spec['t'] == 'List':
        return all(is_complete(spec['sub'], item) for item in state)
    return state is not None


def blank(spec):
    """State of a newly created node (ignoring set_on_create)."""
    if spec['t'] == 'Comp':
        return {name: blank(sub) for name, sub in fields(spec)}
    if spec['t'] == 'List':
        return []
    return None


def data_tree(spec, state, include_empty):
    """Expected result of data_tree()."""
    if spec['t'] == 'Comp':
        out = {}
        for name, sub in fields(spec):
            tree = data_tree(sub, state[name], include_empty)
            if tree is not None or include_empty:
                out[name] = tree
        return out
    if spec['t'] == 'List':
        out = [data_tree(spec['sub'], item, include_empty) for item in state]
        return [x for x in out if x is not None or include_empty]
    return None if state is None else decode(state)


def same_tree(expected, actual):
    """Exact comparison of data trees."""
    if isinstance(expected, dict):
        return (type(actual) is dict and set(expected) == set(actual)
                and all(same_tree(expected[k], actual[k]) for k in expected))
    if isinstance(expected, list):
        return (type(actual) is list and len(actual) == len(expected)
                and all(same_tree(a, b) for a, b in zip(expected, actual)))
    if expected is None:
        return actual is None
    return same(expected, actual)


def has_soc(spec):
    """Whether new nodes of the spec are filled automatically."""
    if spec['t'] == 'Comp':
        return any(has_soc(sub) for _, sub in fields(spec))
    if spec['t'] == 'List':
        return has_soc(spec['sub'])
    return bool(spec.get('soc'))


def paths(spec, state, prefix=()):
    """All (path, spec, state) in a tree; path elements are names/indices."""
    yield prefix, spec, state
    if spec['t'] == 'Comp':
        for name, sub in fields(spec):
            yield from paths(sub, state[name], prefix + (name,))
    elif spec['t'] == 'List':
        for idx, item in enumerate(state):
            yield from paths(spec['sub'], item, prefix + (idx,))


def path_str(path):
    """Documented path notation, e.g. spam.eggs[3][0].ham"""
    out = ''
    for elem in path:
        if isinstance(elem, int):
            out += '[{}]'.format(elem)
        else:
            out += ('.' if out else '') + elem
    return out


# --------------------------------------------------------------------------
# Reference validator: which constraints does a value violate?

def violations(spec, obj, independents=None):
    """Return the list of (expected, got) pairs of violated constraints.

    obj is the actual Python object; for lists, its length. independents is
    the list of independent arrays' sizes (None: not restricted).
    """
    kind = spec['t']
    out = []
    if kind == 'List':
        if spec['max'] is not None and obj > spec['max']:
            out.append((spec['max'], obj))
        if spec['min'] is not None and obj < spec['min']:
            out.append((spec['min'], obj))
        return out
    pytype = {'Array': np.ndarray, 'Scalar': np.number, 'Bytes': bytes,
              'String': str, 'Bool': bool, 'Date': datetime.date,
              'DateTime': datetime.datetime, 'Time': datetime.time}[kind]
    if not isinstance(obj, pytype):
        return [('type', type(obj))]
    if kind in ('Bytes', 'String'):
        if spec['max'] is not None and len(obj) > spec['max']:
            out.append((spec['max'], len(obj)))
        if spec['min'] is not None and len(obj) < spec['min']:
            out.append((spec['min'], len(obj)))
    elif kind in ('Scalar', 'Array'):
        if obj.dtype != npdtype(spec):
            out.append((npdtype(spec), obj.dtype))
        if kind == 'Array' and obj.ndim != spec['ndim']:
            out.append((spec['ndim'], obj.ndim))
            return out
        if kind == 'Array':
            for key, sign in (('max_shape', 1), ('min_shape', -1)):
                limit = spec[key]
                if limit and any(lim is not None and sign * dim > sign * lim
                                 for lim, dim in zip(limit, obj.shape)):
                    out.append((tuple(limit), obj.shape))
        if kind == 'Array' and spec['depends_on']:
            for dim, size in zip(obj.shape, independents or ()):
                if size is not None and dim != size:
                    out.append((size, dim))
        if obj.dtype.kind not in 'biuf':
            return out
        if spec['max_value'] is not None:
            bad = _exceed(obj, spec['max_value'], True)
            if bad is not None:
                out.append((spec['max_value'], bad))
        if spec['min_value'] is not None:
            bad = _exceed(obj, spec['min_value'], False)
            if bad is not None:
                out.append((spec['min_value'], bad))
    return out


def _exceed(obj, limit, upper):
    """Elements that are out of range, compared as exact Python numbers."""
    def bad(x):
        return x > limit if upper else x < limit
    if isinstance(obj, np.ndarray):
        mask = [bad(x) for x in obj.ravel().tolist()]
        if not any(mask):
            return None
        return obj[np.array(mask, dtype=bool).reshape(obj.shape)]
    return obj if bad(obj.item()) else None


def same_reported(expected, actual):
    """Compare a limit or value carried by an error with the expected one."""
    if isinstance(expected, str) and expected == 'type':
        return True
    try:
        if isinstance(expected, np.dtype):
            return np.dtype(actual) == expected
        if isinstance(expected, type):
            return actual is expected or type(actual) is expected
        if isinstance(expected, tuple):
            return tuple(actual) == expected
        if isinstance(expected, np.ndarray):
            actual = np.asarray(actual)
            return (actual.shape == expected.shape
                    and np.array_equal(actual, expected))
        return bool(actual == expected) and np.ndim(actual) == 0
    except (TypeError, ValueError):
        return False


def reported_ok(pairs, error):
    """Whether a ValidationError carries one of the violated constraints."""
    return any(same_reported(limit, error.expected)
               and same_reported(got, error.got) for limit, got in pairs)


def independent_sizes(spec, siblings):
    """Sizes of the independent variables of an Array spec, or None each."""
    if not spec.get('depends_on'):
        return None
    sizes = []
    for name in spec['depends_on']:
        state = siblings.get(name) if (name and siblings) else None
        sizes.append(None if state is None else decode(state).size)
    return sizes


def tree_violations(spec, state, prefix=(), siblings=None):
    """Map path -> violated (expected, got) pairs for a whole tree."""
    out = {}
    if spec['t'] == 'Comp':
        for name, sub in fields(spec):
            out.update(tree_violations(sub, state[name], prefix + (name,),
                                       state))
        return out
    if spec['t'] == 'List':
        pairs = violations(spec, len(state))
        if pairs:
            out[prefix] = pairs
        for idx, item in enumerate(state):
            out.update(tree_violations(spec['sub'], item, prefix + (idx,)))
        return out
    if state is None:
        return out
    pairs = violations(spec, decode(state),
                       independent_sizes(spec, siblings)
                       if spec['t'] == 'Array' else None)
    if pairs:
        out[prefix] = pairs
    return out


# --------------------------------------------------------------------------
# Driving and observing dsch through its public API

def fill(node, spec, state, auto=False):
    """Bring a newly created dsch node to the given state."""
    if spec['t'] == 'Comp':
        for name, sub in fields(spec):
            fill(getattr(node, name), sub, state[name])
    elif spec['t'] == 'List':
        for idx, item in enumerate(state):
            if is_leaf(spec['sub']) and item is not None:
                node.append(given(spec['sub'], item))
            else:
                node.append()
                fill(node[idx], spec['sub'], item)
    elif state is not None:
        node.value = given(spec, state)
    elif spec.get('soc'):
        node.clear()


def expect_state(node, spec, state, what, path=()):
    """Compare a dsch node with a state; raise Violation if it differs."""
    import dsch

    def fail(message, *args):
        raise Violation('{}: node "{}" ({}): {}'.format(
            what, path_str(path), type_name(spec), message.format(*args)))

    if bool(node.empty) != is_empty(spec, state):
        fail('empty is {!r}, expected {!r}', node.empty, is_empty(spec, state))
    if bool(node.complete) != is_complete(spec, state):
        fail('complete is {!r}, expected {!r}', node.complete,
             is_complete(spec, state))
    if spec['t'] == 'Comp':
        for name, sub in fields(spec):
            expect_state(getattr(node, name), sub, state[name], what,
                         path + (name,))
    elif spec['t'] == 'List':
        if len(node) != len(state):
            fail('length is {}, expected {}', len(node), len(state))
        for idx, item in enumerate(state):
            expect_state(node[idx], spec['sub'], item, what, path + (idx,))
    elif state is None:
        try:
            value = node.value
        except dsch.exceptions.NodeEmptyError:
            return
        fail('holds {}, expected to be empty', short(value))
    else:
        expected, actual = decode(state), node.value
        if not same(expected, actual):
            fail('value is {}, expected {}', short(actual), short(expected))


def node_at(node, path):
    for elem in path:
        node = node[elem] if isinstance(elem, int) else getattr(node, elem)
    return node


def state_at(state, path):
    for elem in path:
        state = state[elem]
    return state


def spec_at(spec, path):
    for elem in path:
        spec = spec['sub'] if isinstance(elem, int) else dict(
            fields(spec))[elem]
    return spec


def set_state(root, path, new):
    """Replace the state at path, returning the (possibly new) root."""
    if not path:
        return new
    state_at(root, path[:-1])[path[-1]] = new
    return root


def plain(spec, tree):
    """Decode a "ptree" (partial state) into arguments for replace()."""
    if tree is None:
        return None
    if spec['t'] == 'Comp':
        subs = dict(fields(spec))
        return {name: plain(subs[name], sub) for name, sub in tree.items()}
    if spec['t'] == 'List':
        return [plain(spec['sub'], item) for item in tree]
    return given(spec, tree)


class Text(str):
    """A string with another representation."""

    def __str__(self):
        return 'another string'

    __repr__ = __str__


class Quantity(np.ndarray):
    """An array of another type."""

    def __array_finalize__(self, obj):
        self.unit = getattr(obj, 'unit', None)


class Data(bytes):
    """Bytes with another representation."""

    def __str__(self):
        return 'other bytes'

    __repr__ = __str__


def given(spec, value):
    """Decode a value that is to be assigned to an item.

    Like for arrays, some valid values are given in another form: strings and
    bytes of NumPy and other subclasses, datetimes as dates, masked arrays and
    other array types.
    """
    obj = decode(value)
    form = zlib.crc32(repr(value).encode('utf8', 'backslashreplace')) % 12
    if spec['t'] == 'String' and type(obj) is str:
        if form == 0:
            return np.str_(obj)
        if form == 1:
            return Text(obj)
        if form == 2:
            return enum.Enum('Texts', {'first': obj}, type=str).first
    elif spec['t'] == 'Bytes' and type(obj) is bytes:
        if form == 0:
            return np.bytes_(obj)
        if form == 1:
            return Data(obj)
    elif spec['t'] == 'Date' and type(obj) is datetime.date and form < 2:
        return datetime.datetime(obj.year, obj.month, obj.day, 13, 37, form)
    elif spec['t'] == 'Array' and type(obj) is np.ndarray:
        if form == 0:
            # Fields do not have masks; all elements count.
            return np.ma.array(obj, mask=np.arange(obj.size).reshape(
                obj.shape) % 2 == 0)
        if form == 1 and obj.ndim == 2:
            return obj.view(np.matrix)
        if form == 2:
            return obj.view(Quantity)
    return obj


def merge(spec, state, tree):
    """State after node.replace(plain(spec, tree))."""
    if spec['t'] == 'Comp':
        subs = dict(fields(spec))
        out = dict(state)
        for name, sub in tree.items():
            out[name] = merge(subs[name], state[name], sub)
        return out
    if spec['t'] == 'List':
        return [blank(spec['sub']) if item is None else
                merge(spec['sub'], blank(spec['sub']), item) for item in tree]
    return tree
