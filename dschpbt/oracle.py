"""Oracles shared by several checks."""
import dsch

from . import gen, require
from . import spec as sp


def expect_valid(node, spec, bad, what):
    """bad: violations below the node, by path relative to it."""
    try:
        node.validate()
    except dsch.exceptions.SubnodeValidationError as err:
        require(bad, '{}: rejected: {}', what, err)
        paths = {sp.path_str(path): pairs for path, pairs in bad.items()}
        where = err.node_path()
        require(where in paths, '{}: error is for "{}", but the violations '
                'are at {}', what, where, sorted(paths))
        require(where in str(err), '{}: the message does not name "{}": {}',
                what, where, err)
        require(sp.reported_ok(paths[where], err.original_cause()),
                '{}: error at "{}" carries ({!r}, {!r}), not one of {}', what,
                where, err.original_cause().expected,
                err.original_cause().got, paths[where])
    except dsch.exceptions.ValidationError as err:
        # Raised by the node itself: an item, or a list with a wrong length.
        require(bad, '{}: rejected: {}', what, err)
        require(() in bad, '{}: error "{}" does not name a node, but the '
                'violations are at {}', what, err,
                sorted(map(sp.path_str, bad)))
        require(sp.reported_ok(bad[()], err),
                '{}: error carries ({!r}, {!r}), not one of {}', what,
                err.expected, err.got, bad[()])
    else:
        require(not bad, '{}: accepted in spite of {}', what, bad)


def below(bad, path):
    return {key[len(path):]: pairs for key, pairs in bad.items()
            if key[:len(path)] == path}


def kinds_of_violation(spec, state):
    """Set of kinds that decide which backends can hold the data."""
    out = set()
    for _, sub, now in sp.paths(spec, state):
        if not sp.is_leaf(sub) or now is None:
            continue
        obj = sp.decode(now)
        if any(isinstance(pair[0], str) and pair[0] == 'type'
               for pair in sp.violations(sub, obj)):
            out.add('type')
        elif sub['t'] == 'Array':
            out |= array_kinds(sub, obj)
    return out


def array_kinds(sub, obj):
    out = set()
    if obj.dtype != sp.npdtype(sub):
        out.add('dtype')
    if obj.ndim != sub['ndim']:
        out.add('ndim')
    elif any(limit is not None and dim > limit for limit, dim
             in zip(sub['max_shape'] or (), obj.shape)):
        out.add('max_shape')
    return out


def backends_for(spec, state):
    """Backends that can hold the (possibly invalid) data in memory.

    HDF5 refuses arrays of a wrong number of dimensions or above the maximum
    shape on assignment and converts data types; only the in-memory backend
    stores values of arbitrary types.
    """
    kinds = kinds_of_violation(spec, state)
    out = ['inmem']
    if 'type' not in kinds:
        out += ['npz', 'mat']
        if not kinds:
            out.append('hdf5')
    return out


def files_for(spec, state):
    """File backends that can hold the data in memory and in the file."""
    kinds = kinds_of_violation(spec, state)
    out = [b for b in backends_for(spec, state) if b != 'inmem']
    if kinds & {'dtype', 'ndim'} or not gen.mat_names(spec):
        # MATLAB files cannot represent all of these.
        out = [b for b in out if b != 'mat']
    return out


def independents_ok(spec, state):
    """Whether filled independent variables are one-dimensional arrays."""
    for path, sub, now in sp.paths(spec, state):
        if sub['t'] != 'Array' or not sub['depends_on'] or now is None:
            continue
        siblings = sp.state_at(state, path[:-1])
        for name in sub['depends_on']:
            other = siblings[name] if name else None
            if other is not None and (other[0] != 'arr'
                                      or len(other[2]) != 1):
                return False
    return True
