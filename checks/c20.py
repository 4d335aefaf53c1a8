"""C20 Array fields support element access and resizing like plain arrays."""
import json

import numpy as np
from hypothesis import strategies as st

import dsch
from dschpbt import gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, storage_path

QUICK, THOROUGH = 9400, 250000
RULE = ('case = array field of 0 to 4 dimensions (any numeric or boolean dtype, with and without shape limits) at some place '
        'of a schema, and a history of reading and writing elements and slices, resizing, replacing, clearing and '
        'reloading, on all backends and on a plain numpy array; non-trivial = at least two writes or resizes take effect '
        'on a non-empty array, one of them a resize or through a slice')
ASSUMPTIONS = ['keys are what both numpy and h5py support: integers, slices with positive steps, Ellipsis, tuples thereof; '
               'lists and masks as keys only on the in-memory and npz backends']
NUMPY_ONLY = ('inmem', 'npz', 'mat')


@st.composite
def array_spec(draw):
    ndim = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 2, 3, 3, 4]))
    dtype = draw(gen.dtypes({'aliases': False}, True))
    spec = {'t': 'Array', 'dtype': dtype, 'unit': draw(gen.units),
            'max_shape': None, 'min_shape': None, 'ndim': ndim,
            'max_value': None, 'min_value': None, 'depends_on': None}
    if ndim and draw(st.integers(0, 2)) == 0:
        spec['max_shape'] = [draw(st.integers(1, 5)) for _ in range(ndim)]
    if ndim and draw(st.integers(0, 3)) == 0:
        spec['min_shape'] = [
            draw(st.integers(0, min(3, spec['max_shape'][i])
                             if spec['max_shape'] else 3))
            for i in range(ndim)]
    return spec


def limits(spec):
    return spec['max_shape'] or [6 if spec['ndim'] < 3 else 3] * spec['ndim']


@st.composite
def shape_for(draw, spec):
    return [draw(st.integers(0, n)) if draw(st.integers(0, 3)) == 0 else
            draw(st.integers(1, n)) for n in limits(spec)]


def bound(n):
    return st.one_of(st.none(), st.integers(-n - 2, n + 2))


@st.composite
def key_for(draw, shape):
    if not shape:
        return draw(st.sampled_from(['...', ['t']]))
    parts = []
    for n in shape:
        kind = draw(st.sampled_from(['int', 'int', 'slice', 'slice', 'all']))
        if kind == 'int' and n:
            parts.append(draw(st.integers(-n, n - 1)))
        elif kind == 'slice':
            parts.append(['s', draw(bound(n)), draw(bound(n)), draw(
                st.sampled_from([None, None, 1, 2, 3]))])
        else:
            parts.append(['s', None, None, None])
    cut = draw(st.integers(0, 5))
    if cut == 0:
        del parts[draw(st.integers(1, len(parts))):]
    elif cut == 1:
        first = draw(st.integers(0, len(parts)))
        last = draw(st.integers(first, len(parts)))
        parts[first:last] = ['...']
    elif cut == 2:
        return '...'
    if len(parts) == 1 and draw(st.booleans()):
        return parts[0]
    return ['t'] + parts


@st.composite
def fancy_key(draw, shape):
    """Lists of indices or masks, also with negative steps."""
    n = shape[0]
    kind = draw(st.sampled_from(['list', 'mask', 'back']))
    if kind == 'list':
        return ['l', draw(st.lists(st.integers(-n, n - 1), min_size=1,
                                   max_size=4))]
    if kind == 'mask':
        return ['m', draw(st.lists(st.booleans(), min_size=n, max_size=n))]
    return ['s', None, None, -1]


def dec_key(key):
    if isinstance(key, list) and key[0] == 'l':
        return list(key[1])
    if isinstance(key, list) and key[0] == 'm':
        return np.array(key[1], dtype=bool)
    return history.dec_key(key)


@st.composite
def put_value(draw, dtype, shape):
    """Something assignable to a selection of the given shape."""
    kind = draw(st.sampled_from(['scalar', 'python', 'full', 'full', 'row']))
    if kind == 'python':
        return draw(st.sampled_from([['int', 0], ['int', 1], ['bool', True],
                                     ['int', 7]]))
    if kind == 'scalar' or not shape:
        return ['sc', dtype, draw(gen.elements(dtype))]
    if kind == 'row' and len(shape) > 1:
        shape = shape[1:]
    return draw(gen.array_of(np.dtype(dtype), list(shape)))


@st.composite
def strategy_(draw):
    spec = draw(array_spec())
    dtype = str(sp.npdtype(spec))
    place = draw(st.sampled_from(['top', 'field', 'item', 'deep']))
    state = draw(gen.array_of(np.dtype(dtype), draw(shape_for(spec))))
    now = sp.decode(state)
    fancy = draw(st.integers(0, 4)) == 0
    ops = []
    fixed = spec['max_shape'] and spec['max_shape'] == spec['min_shape']
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(['put', 'put', 'put', 'get', 'get',
                                     'resize', 'resize', 'resize', 'set',
                                     'reload', 'clear', 'outside',
                                     'badsize']))
        if kind in ('get', 'put'):
            if fancy and now.ndim and now.shape[0] and draw(st.booleans()):
                key = draw(fancy_key(now.shape))
            else:
                key = draw(key_for(now.shape))
            op = [kind, key]
            if kind == 'put':
                op.append(draw(put_value(dtype, now[dec_key(key)].shape)))
        elif kind == 'outside' and now.ndim:
            axis = draw(st.integers(0, now.ndim - 1))
            n = now.shape[axis]
            key = [['s', None, None, None]] * axis + [
                draw(st.sampled_from([n, n + 3, -n - 1]))]
            op = ['outside', ['t'] + key, ['sc', dtype,
                                           draw(gen.elements(dtype))]]
        elif kind == 'badsize':
            size = draw(shape_for(spec))
            if size and draw(st.booleans()):
                size[draw(st.integers(0, len(size) - 1))] = -1
            elif len(size) > 1 and draw(st.booleans()):
                del size[draw(st.integers(0, len(size) - 1))]
            else:
                size.insert(draw(st.integers(0, len(size))),
                            draw(st.integers(0, 4)))
            op = ['badsize', size]
        elif kind == 'resize' and now.ndim and not fixed:
            op = ['resize', draw(shape_for(spec))]
            if draw(st.booleans()):
                # Change one dimension only.
                axis = draw(st.integers(0, now.ndim - 1))
                op[1] = [op[1][i] if i == axis else n
                         for i, n in enumerate(now.shape)]
        elif kind in ('set', 'clear'):
            op = [kind, draw(gen.array_of(np.dtype(dtype),
                                          draw(shape_for(spec))))]
        else:
            op = ['reload']
        ops.append(op)
        now = applied(now, op)
    return {'spec': spec, 'place': place, 'state': state, 'ops': ops,
            'fancy': fancy}


def strategy():
    return strategy_()


def applied(array, op):
    """The plain array after the operation."""
    if op[0] == 'put':
        array = array.copy()
        array[dec_key(op[1])] = sp.decode(op[2])
    elif op[0] == 'resize':
        array = history.resized(array, op[1])
    elif op[0] in ('set', 'clear'):
        array = sp.decode(op[1])
    return array


def classify(case):
    now = sp.decode(case['state'])
    tags = {case['place'], '{}-d'.format(now.ndim),
            'kind ' + np.dtype(case['state'][1]).kind}
    writes = special = 0
    for op in case['ops']:
        tags.add(op[0])
        before, now = now, applied(now, op)
        if op[0] == 'put' and before.tobytes() != now.tobytes():
            writes += 1
            if before[dec_key(op[1])].size > 1:
                special += 1
                tags.add('slice written')
            if before[dec_key(op[1])].shape == ():
                tags.add('element written')
        if op[0] == 'resize' and before.shape != now.shape \
                and before.size and now.size:
            writes += 1
            special += 1
            tags.add('resize ' + ('smaller' if now.size < before.size else
                                  'larger' if now.size > before.size else
                                  'other shape'))
    if writes > 1 and special:
        tags.add('nontrivial')
    if case['fancy']:
        tags.add('fancy')
    if case['spec']['max_shape']:
        tags.add('max_shape')
    return sorted(tags)


def schema_for(spec, place):
    plain = {'t': 'Array', 'dtype': 'int16', 'unit': '', 'max_shape': None,
             'min_shape': None, 'ndim': 1, 'max_value': None,
             'min_value': None, 'depends_on': None}
    comp = {'t': 'Comp', 'fields': [['other', plain], ['x', spec],
                                    ['same', spec]]}
    if place == 'top':
        return spec, []
    if place == 'field':
        return comp, ['x']
    if place == 'item':
        return {'t': 'List', 'sub': spec, 'min': None, 'max': None}, [1]
    return {'t': 'Comp', 'fields': [
        ['runs', {'t': 'List', 'sub': comp, 'min': None, 'max': None}]]}, \
        ['runs', 1, 'x']


def whole(place, state):
    """State of the whole storage, with neighbours of the array."""
    if place == 'top':
        return state
    comp = {'other': ['arr', 'int16', [3], [1, 2, 3]], 'x': state,
            'same': state}
    if place == 'field':
        return comp
    if place == 'item':
        return [state, state, state]
    return {'runs': [comp, comp, comp]}


def check(case, scratch):
    spec, place = case['spec'], case['place']
    tree, path = schema_for(spec, place)
    names = NUMPY_ONLY if case['fancy'] else BACKENDS
    for name in names:
        run(case, name, tree, path, scratch)


def run(case, backend, tree, path, scratch):
    spec = case['spec']
    state = json.loads(json.dumps(whole(case['place'], case['state'])))
    now = sp.decode(case['state'])
    file_path = storage_path(scratch, backend)
    storage = dsch.create(file_path, sp.build(tree))
    sp.fill(storage.data, tree, state)
    node = sp.node_at(storage.data, path)
    given = []
    for other in twins(case['place']):
        # Assigning the same object does not tie the arrays together.
        sp.node_at(storage.data, other).value = node.value
    steps = list(case['ops'])
    steps.append(['reload'])
    for number, op in enumerate(steps):
        what = '{} step {} ({})'.format(backend, number, sp.short(op))
        before, now = now, applied(now, op)
        if op[0] == 'get':
            expect_same(before[dec_key(op[1])], node[dec_key(op[1])], what)
        elif op[0] == 'put':
            node[dec_key(op[1])] = sp.decode(op[2])
        elif op[0] == 'resize':
            node.resize(tuple(op[1]))
        elif op[0] == 'set':
            assign(node, sp.decode(op[1]), given, number)
        elif op[0] == 'clear':
            node.clear()
            assign(node, sp.decode(op[1]), given, number)
        elif op[0] == 'outside':
            expect_refused(node, op, what)
        elif op[0] == 'badsize':
            try:
                node.resize(tuple(op[1]))
            except (TypeError, ValueError, OverflowError):
                pass
            else:
                require(False, '{}: no error', what)
        elif backend != 'inmem':
            storage.save(force=True)
            storage = node = None
            end_session()
            storage = dsch.load(file_path, force=True)
            node = sp.node_at(storage.data, path)
        state = sp.set_state(state, path, sp.encode(now))
        look(storage, node, tree, path, state, now, spec, what)
        for array, content in given:
            require(array.tobytes() == content,
                    '{}: the array that was assigned is changed', what)


def twins(place):
    """Paths of the other arrays with the same content."""
    return {'top': [], 'field': [['same']], 'item': [[0], [2]],
            'deep': [['runs', 1, 'same'], ['runs', 2, 'x']]}[place]


def assign(node, array, given, number):
    if number % 2:
        array.flags.writeable = False
    node.value = array
    given.append((array, array.tobytes()))


def look(storage, node, tree, path, state, now, spec, what):
    require(sp.node_at(storage.data, path) is node, '{}: another node', what)
    sp.expect_state(storage.data, tree, state, what)
    expect_same(now[...], node[...], what + ' all elements')
    for index in np.ndindex(*now.shape):
        expect_same(now[index], node[index], '{} element {}'.format(
            what, index))
        if index and index[-1] > 1:
            break
    bad = sp.violations(spec, now)
    try:
        node.validate()
    except dsch.exceptions.ValidationError as err:
        require(bad, '{}: rejected: {}', what, err)
    else:
        require(not bad, '{}: {} with shape {} accepted', what, spec,
                now.shape)


def expect_same(expected, actual, what):
    require(np.shape(expected) == np.shape(actual)
            and np.asarray(actual).dtype == expected.dtype
            and np.asarray(actual).tobytes() == expected.tobytes(),
            '{}: got {}, expected {}', what, sp.short(actual),
            sp.short(expected))


def expect_refused(node, op, what):
    for write in (False, True):
        try:
            if write:
                node[dec_key(op[1])] = sp.decode(op[2])
            else:
                node[dec_key(op[1])]
        except (IndexError, ValueError):
            continue
        require(False, '{}: no error {}', what,
                'writing' if write else 'reading')
