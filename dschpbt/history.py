"""Operation histories on data nodes: generation, model and execution.

Operations (JSON lists); paths are lists of field names and list indices:

  ["set", path, value]        node.value = value
  ["replace", path, ptree]    node.replace(...); dicts/lists for collections
  ["append", path, ptree]     list.append(...); null appends an empty entry
  ["clear", path]             node.clear()
  ["aset", path, key, value]  array[key] = value
  ["resize", path, shape]     array.resize(shape)
  ["copy", path, path]        second.load_from(first), same schema
"""
import copy

import numpy as np
from hypothesis import strategies as st

from . import gen
from . import spec as sp


def dec_key(key):
    """Decode an index: int, ["s", start, stop, step], "..." or a tuple."""
    if key == '...':
        return Ellipsis
    if isinstance(key, int):
        return key
    if key and key[0] == 's':
        return slice(*key[1:])
    return tuple(dec_key(k) for k in key[1:])


def dec_any(value):
    """Decode a value that is to be assigned to array elements."""
    return sp.decode(value)


@st.composite
def ptree(draw, spec, partial=True, none_items=True):
    """Argument of replace() for a node."""
    if spec['t'] == 'Comp':
        out = {}
        for name, sub in sp.fields(spec):
            if not partial or draw(st.integers(0, 3)):
                out[name] = draw(ptree(sub, partial, none_items))
        return out
    if spec['t'] == 'List':
        return draw(list_of(spec, partial, none_items))
    return draw(gen.valid_value(spec))


@st.composite
def list_of(draw, spec, partial, none_items):
    lo = spec['min'] or 0
    hi = spec['max'] if spec['max'] is not None else lo + 3
    items = []
    for _ in range(draw(st.integers(lo, hi))):
        if none_items and draw(st.integers(0, 7)) == 0:
            items.append(None)
        else:
            items.append(draw(ptree(spec['sub'], partial, none_items)))
    return items


@st.composite
def simple_key(draw, shape):
    """An index that is valid for the shape (selecting at least one item)."""
    kind = draw(st.sampled_from(['int', 'int', 'slice', 'all', 'ell']))
    if kind == 'ell' or not shape:
        return '...'
    if kind == 'all':
        return ['s', None, None, None]
    if kind == 'slice':
        stop = draw(st.integers(1, shape[0]))
        return ['s', draw(st.integers(0, stop - 1)), stop, None]
    if len(shape) == 1:
        return draw(st.integers(0, shape[0] - 1))
    return ['t'] + [draw(st.integers(0, n - 1)) for n in shape]


@st.composite
def resized_shape(draw, spec):
    """A shape within the limits."""
    out = []
    for dim in range(spec['ndim']):
        lo = (spec['min_shape'] or [None] * spec['ndim'])[dim] or 0
        hi = (spec['max_shape'] or [None] * spec['ndim'])[dim]
        out.append(draw(st.integers(lo, lo + 5 if hi is None else hi)))
    return out


@st.composite
def operation(draw, spec, state, kinds):
    """One operation that is valid in the given state."""
    nodes = list(sp.paths(spec, state))
    leaves = [n for n in nodes if sp.is_leaf(n[1])]
    lists = [n for n in nodes if n[1]['t'] == 'List']
    arrays = [n for n in leaves if n[1]['t'] == 'Array' and n[2] is not None
              and np.dtype(n[2][1]).kind in 'iufcb']
    kind = draw(st.sampled_from(kinds))
    if kind == 'append' and lists:
        path, sub, now = draw(st.sampled_from(lists))
        # Automatic timestamps are overwritten, to have a known state.
        auto = sp.has_soc(sub)
        if not auto and draw(st.integers(0, 3)) == 0:
            return ['append', list(path), None]
        return ['append', list(path), draw(ptree(sub['sub'], not auto,
                                                 not auto))]
    if kind == 'aset' and arrays:
        path, sub, now = draw(st.sampled_from(arrays))
        if int(np.prod(now[2], dtype=int)) > 0:
            key = draw(simple_key(tuple(now[2])))
            item = draw(gen.elements(now[1], sub['min_value'],
                                     sub['max_value']))
            return ['aset', list(path), key, ['sc', now[1], item]]
    if kind == 'resize':
        # With equal limits, and without dimensions, HDF5 does not resize.
        free = [n for n in arrays if n[1]['ndim'] > 0
                and (not n[1]['max_shape']
                     or n[1]['max_shape'] != n[1]['min_shape'])]
        if free:
            path, sub, now = draw(st.sampled_from(free))
            return ['resize', list(path), draw(resized_shape(sub))]
    if kind == 'copy':
        by_hash = {}
        for node in nodes:
            by_hash.setdefault(sp.canon_json(node[1]), []).append(node[0])
        groups = [g for g in by_hash.values() if len(g) > 1]
        if groups:
            group = draw(st.sampled_from(groups))
            return ['copy', list(draw(st.sampled_from(group))),
                    list(draw(st.sampled_from(group)))]
    if kind == 'clear':
        path = draw(st.sampled_from(nodes))[0]
        return ['clear', list(path)]
    if kind == 'replace' or not leaves:
        path, sub, now = draw(st.sampled_from(nodes))
        auto = sp.has_soc(sub)
        return ['replace', list(path), draw(ptree(sub, not auto, not auto))]
    path, sub, now = draw(st.sampled_from(leaves))
    fixed = None
    if sub['t'] == 'Array' and sub['depends_on'] and draw(st.integers(0, 3)):
        fixed = sp.independent_sizes(sub, sp.state_at(state, path[:-1]))
        if gen.too_big(fixed):
            fixed = None
    return ['set', list(path), draw(gen.valid_value(sub, fixed))]


DEFAULT_KINDS = ('set', 'set', 'set', 'replace', 'append', 'append', 'clear',
                 'aset', 'resize', 'copy')


@st.composite
def history(draw, spec, state=None, kinds=DEFAULT_KINDS, min_ops=1,
            max_ops=12):
    """A list of operations, starting from the given state (or blank)."""
    state = sp.blank(spec) if state is None else copy.deepcopy(state)
    ops = []
    for _ in range(draw(st.integers(min_ops, max_ops))):
        op = draw(operation(spec, state, kinds))
        ops.append(op)
        state = apply_model(spec, state, op)
    return ops


def resized(array, shape):
    """Reference resize: elements keep their position, new ones are zero."""
    out = np.zeros(shape, dtype=array.dtype)
    overlap = tuple(slice(0, min(a, b)) for a, b in zip(shape, array.shape))
    out[overlap] = array[overlap]
    return out


def apply_model(spec, state, op):
    """Apply an operation to a state, returning the new state (a copy)."""
    state = copy.deepcopy(state)
    kind, path = op[0], op[1]
    sub = sp.spec_at(spec, path)
    now = sp.state_at(state, path)
    if kind == 'set':
        new = op[2]
    elif kind == 'replace':
        new = sp.merge(sub, now, op[2])
    elif kind == 'append':
        item = sp.blank(sub['sub'])
        if op[2] is not None:
            item = sp.merge(sub['sub'], item, op[2])
        new = now + [item]
    elif kind == 'clear':
        new = clear_state(sub, now)
    elif kind == 'aset':
        array = sp.decode(now)
        array[dec_key(op[2])] = dec_any(op[3])
        new = sp.encode(array)
    elif kind == 'resize':
        new = sp.encode(resized(sp.decode(now), op[2]))
    elif kind == 'copy':
        path = op[2]
        new = copy.deepcopy(now)
    else:
        raise AssertionError(kind)
    return sp.set_state(state, path, copy.deepcopy(new))


def clear_state(spec, state):
    if spec['t'] == 'Comp':
        return {name: clear_state(sub, state[name])
                for name, sub in sp.fields(spec)}
    return [] if spec['t'] == 'List' else None


def apply_dsch(spec, root, op):
    """Apply an operation to a tree of dsch data nodes."""
    kind = op[0]
    node = sp.node_at(root, op[1])
    sub = sp.spec_at(spec, op[1])
    if kind == 'set':
        node.value = sp.given(sub, op[2])
    elif kind == 'replace':
        node.replace(sp.plain(sub, op[2]))
    elif kind == 'append':
        if op[2] is None:
            node.append()
        else:
            node.append(sp.plain(sub['sub'], op[2]))
    elif kind == 'clear':
        node.clear()
    elif kind == 'aset':
        node[dec_key(op[2])] = dec_any(op[3])
    elif kind == 'resize':
        node.resize(tuple(op[2]))
    elif kind == 'copy':
        sp.node_at(root, op[2]).load_from(node)
    else:
        raise AssertionError(kind)


def run_model(spec, state, ops):
    """All states along a history, including the first one."""
    states = [state]
    for op in ops:
        states.append(apply_model(spec, states[-1], op))
    return states
