"""The established file layouts, written and read without dsch.

Only h5py, NumPy and SciPy are used here. See DESIGN.md for the layouts.
"""
import json

import h5py
import numpy as np
import scipy.io as sio

from . import require
from . import spec as sp

BYTES_AS_TEXT = 'bytes as text'


def raw_item(spec, value):
    """Array-like representation of an item that all formats share."""
    obj = sp.decode(value)
    kind = spec['t']
    if kind == 'Date':
        return np.array([obj.year, obj.month, obj.day])
    if kind == 'DateTime':
        return np.array([obj.year, obj.month, obj.day, obj.hour, obj.minute,
                         obj.second, obj.microsecond])
    if kind == 'Time':
        return np.array([obj.hour, obj.minute, obj.second, obj.microsecond])
    return obj


def schema_text(spec, options):
    """The schema JSON, possibly formatted by another tool."""
    if options.get('indent'):
        return json.dumps(sp.canon(spec), indent=2)
    return sp.canon_json(spec)


def gapless(spec, state):
    """Fill lists so that no entry is entirely empty (or drop those)."""
    if spec['t'] == 'Comp':
        return {n: gapless(s, state[n]) for n, s in sp.fields(spec)}
    if spec['t'] == 'List':
        items = [gapless(spec['sub'], item) for item in state]
        return [x for x in items if not sp.is_empty(spec['sub'], x)]
    return state


# --------------------------------------------------------------------------
# HDF5

def write_hdf5(path, spec, state, options):
    with h5py.File(path, 'w') as file_:
        file_.attrs['dsch_schema'] = schema_text(spec, options)
        if spec['t'] == 'Comp':
            for name, sub in sp.fields(spec):
                _write_hdf5(file_, name, sub, state[name], options)
        else:
            _write_hdf5(file_, 'dsch_data', spec, state, options)


def _write_hdf5(group, name, spec, state, options):
    if spec['t'] == 'Comp':
        inner = group.create_group(name)
        for key, sub in sp.fields(spec):
            _write_hdf5(inner, key, sub, state[key], options)
    elif spec['t'] == 'List':
        inner = group.create_group(name)
        for idx, item in enumerate(state):
            _write_hdf5(inner, 'item_{}'.format(idx), spec['sub'], item,
                        options)
    elif state is not None:
        raw = raw_item(spec, state)
        kwargs = {}
        if spec['t'] == 'Bytes':
            raw = np.void(raw) if raw else np.zeros((0,), 'V1')
        elif spec['t'] == 'Array' and raw.ndim and raw.size:
            if options.get('compress'):
                kwargs = {'compression': 'gzip', 'chunks': True}
            elif options.get('resizable'):
                kwargs = {'maxshape': (None,) * raw.ndim}
        group.create_dataset(name, data=raw, **kwargs)


def expect_hdf5(path, spec, state, what):
    with h5py.File(path, 'r') as file_:
        require('dsch_schema' in file_.attrs,
                '{}: no attribute "dsch_schema"', what)
        text = file_.attrs['dsch_schema']
        require(isinstance(text, str) and json.loads(text) == sp.canon(spec),
                '{}: the attribute "dsch_schema" is {!r}', what, text)
        if spec['t'] == 'Comp':
            _expect_group(file_, spec, state, what, '')
        elif 'dsch_data' in file_:
            require(set(file_) == {'dsch_data'}, '{}: unknown objects {}',
                    what, sorted(file_))
            _expect_hdf5(file_['dsch_data'], spec, state, what, 'dsch_data')
        else:
            require(sp.is_empty(spec, state) and not state,
                    '{}: there is no "dsch_data"', what)
            require(not set(file_), '{}: unknown objects {}', what,
                    sorted(file_))


def _expect_group(group, spec, state, what, where):
    """Contents of the group of a compilation."""
    names = dict(sp.fields(spec))
    unknown = set(group) - set(names)
    require(not unknown, '{}: "{}" has unknown objects {}', what, where,
            sorted(unknown))
    for name, sub in names.items():
        if name in group:
            _expect_hdf5(group[name], sub, state[name], what,
                         where + '/' + name)
        else:
            require(sp.is_empty(sub, state[name]) and not (
                sub['t'] == 'List' and state[name]),
                '{}: "{}" has no "{}"', what, where, name)


def _expect_hdf5(obj, spec, state, what, where):
    if spec['t'] in ('Comp', 'List'):
        require(isinstance(obj, h5py.Group), '{}: "{}" is {!r}', what, where,
                obj)
        if spec['t'] == 'Comp':
            _expect_group(obj, spec, state, what, where)
            return
        names = {'item_{}'.format(i): i for i in range(len(state))}
        unknown = set(obj) - set(names)
        require(not unknown, '{}: "{}" has unknown objects {}', what, where,
                sorted(unknown))
        for name, idx in names.items():
            if name in obj:
                _expect_hdf5(obj[name], spec['sub'], state[idx], what,
                             where + '/' + name)
            else:
                require(sp.is_empty(spec['sub'], state[idx]),
                        '{}: "{}" has no "{}"', what, where, name)
        return
    require(isinstance(obj, h5py.Dataset), '{}: "{}" is {!r}', what, where,
            obj)
    require(state is not None, '{}: "{}" is there, but the field is empty',
            what, where)
    value, data = sp.decode(state), obj[()]
    kind = spec['t']
    if kind == 'String':
        require(h5py.check_string_dtype(obj.dtype) is not None
                and obj.shape == () and data.decode('utf8') == value,
                '{}: "{}" is {!r}, expected the text {!r}', what, where, data,
                value)
    elif kind == 'Bytes':
        require(obj.dtype.kind == 'V' and obj.shape == (() if value else (0,))
                and data.tobytes() == value,
                '{}: "{}" is {!r}, expected opaque {!r}', what, where, data,
                value)
    elif kind == 'Bool':
        require(obj.dtype == bool and obj.shape == () and bool(data) is value,
                '{}: "{}" is {!r}, expected {!r}', what, where, data, value)
    elif kind in ('Date', 'DateTime', 'Time'):
        numbers = raw_item(spec, state).tolist()
        require(obj.dtype == np.dtype('int') and data.tolist() == numbers,
                '{}: "{}" is {!r}, expected {}', what, where, data, numbers)
    else:
        require(obj.dtype == value.dtype and obj.shape == value.shape
                and np.asarray(data, obj.dtype).tobytes() == value.tobytes(),
                '{}: "{}" is {} ({}), expected {}', what, where,
                sp.short(data), obj.dtype, sp.short(value))


# --------------------------------------------------------------------------
# npz

def write_npz(path, spec, state, options):
    flat = {'_schema': schema_text(spec, options)}
    if spec['t'] == 'Comp':
        for name, sub in sp.fields(spec):
            _flatten(flat, name, sub, state[name])
    else:
        _flatten(flat, 'data', spec, state)
    items = list(flat.items())
    if options.get('reverse'):
        items.reverse()
    save = np.savez_compressed if options.get('compress') else np.savez
    with open(path, 'wb') as file_:
        save(file_, **dict(items))


def npz_writable(spec, state):
    """Whether numpy.savez can write all the names."""
    names = [n for n, _ in sp.fields(spec)] if spec['t'] == 'Comp' else []
    return not {'file', 'args', 'kwds', 'allow_pickle'} & set(names)


def _flatten(flat, key, spec, state):
    if spec['t'] == 'Comp':
        for name, sub in sp.fields(spec):
            _flatten(flat, key + '.' + name, sub, state[name])
    elif spec['t'] == 'List':
        for idx, item in enumerate(state):
            _flatten(flat, '{}.item_{}'.format(key, idx), spec['sub'], item)
    elif state is not None:
        raw = raw_item(spec, state)
        if spec['t'] == 'Bytes':
            raw = np.array(raw, dtype='bytes') if raw else \
                np.zeros((0,), 'bytes')
        elif spec['t'] == 'Bool':
            raw = np.array([raw])
        elif spec['t'] == 'String':
            raw = np.array(raw, dtype='U')
        flat[key] = raw


def expect_npz(path, spec, state, what):
    with np.load(path, allow_pickle=False) as file_:
        content = {name: file_[name] for name in file_.files}
        require(len(content) == len(file_.files), '{}: repeated names', what)
    require('_schema' in content, '{}: no entry "_schema"', what)
    text = content.pop('_schema')
    require(text.shape == () and text.dtype.kind == 'U'
            and json.loads(text.item()) == sp.canon(spec),
            '{}: the entry "_schema" is {!r}', what, text)
    expected, lengths = {}, {}
    if spec['t'] == 'Comp':
        for name, sub in sp.fields(spec):
            _flat_state(expected, lengths, name, sub, state[name])
    else:
        _flat_state(expected, lengths, 'data', spec, state)
    for key, (sub, now) in expected.items():
        require(key in content, '{}: no entry "{}"', what, key)
        _expect_npz(content.pop(key), sub, now, what, key)
    for key, data in content.items():
        require(key in lengths and data.size == 1
                and int(data) == lengths[key],
                '{}: unexpected entry "{}": {}', what, key, sp.short(data))


def _flat_state(out, lengths, key, spec, state):
    if spec['t'] == 'Comp':
        for name, sub in sp.fields(spec):
            _flat_state(out, lengths, key + '.' + name, sub, state[name])
    elif spec['t'] == 'List':
        lengths[key + '.length'] = len(state)
        for idx, item in enumerate(state):
            _flat_state(out, lengths, '{}.item_{}'.format(key, idx),
                        spec['sub'], item)
    elif state is not None:
        out[key] = (spec, state)


def _expect_npz(data, spec, state, what, where):
    value = sp.decode(state)
    kind = spec['t']
    if kind == 'String':
        ok = data.dtype.kind == 'U' and data.shape == () and \
            data.item() == value
    elif kind == 'Bytes':
        ok = data.dtype.kind == 'S' and data.tobytes() == value and \
            data.shape == (() if value else (0,))
    elif kind == 'Bool':
        ok = data.dtype == bool and data.shape == (1,) and \
            bool(data[0]) is value
    elif kind in ('Date', 'DateTime', 'Time'):
        value = raw_item(spec, state).tolist()
        ok = data.dtype == np.dtype('int') and data.tolist() == value
    else:
        ok = (data.dtype == value.dtype and data.shape == value.shape
              and data.tobytes() == value.tobytes())
    require(ok, '{}: entry "{}" is {}, expected {}', what, where,
            sp.short(data), sp.short(value))


# --------------------------------------------------------------------------
# MATLAB

def write_mat(path, spec, state, options):
    content = {'schema': schema_text(spec, options)}
    data = _mat_object(spec, state, options)
    if data is not None:
        content['data'] = data
    with open(path, 'wb') as file_:
        sio.savemat(file_, content, long_field_names=True,
                    do_compression=bool(options.get('compress')))


def _mat_object(spec, state, options):
    if spec['t'] == 'Comp':
        out = {}
        for name, sub in sp.fields(spec):
            data = _mat_object(sub, state[name], options)
            if data is not None:
                out[name] = data
        return out or None
    if spec['t'] == 'List':
        out = np.zeros((len(state),), dtype=object)
        for idx, item in enumerate(state):
            out[idx] = _mat_object(spec['sub'], item, options)
        return out
    if state is None:
        return None
    raw = raw_item(spec, state)
    if spec['t'] == 'Bytes':
        if options.get(BYTES_AS_TEXT):
            # Earlier releases stored bytes as text.
            return np.array(raw, dtype='bytes')
        return np.frombuffer(raw, dtype='uint8')
    if spec['t'] == 'Bool':
        return np.array([raw])
    if spec['t'] == 'String':
        return np.array(raw, dtype='U')
    return raw


def mat_text_bytes(spec, state):
    """Whether all bytes values can be stored as text, like they used to."""
    for _, sub, now in sp.paths(spec, state):
        if sub['t'] == 'Bytes' and now is not None:
            value = sp.decode(now)
            if not value or any(x >= 128 or x == 0 for x in value):
                return False
    return True


def expect_mat(path, spec, state, what):
    content = sio.loadmat(path, appendmat=False)
    require('schema' in content, '{}: no variable "schema"', what)
    text = ''.join(np.ravel(content['schema']))
    require(json.loads(text) == sp.canon(spec),
            '{}: the variable "schema" is {!r}', what, text)
    unknown = {k for k in content if not k.startswith('__')} - {'schema',
                                                                'data'}
    require(not unknown, '{}: unknown variables {}', what, sorted(unknown))
    if 'data' in content:
        _expect_mat(content['data'], spec, state, what, 'data')
    else:
        require(sp.is_empty(spec, state) and not (
            spec['t'] == 'List' and state), '{}: no variable "data"', what)


def _expect_mat(data, spec, state, what, where):
    if spec['t'] == 'Comp':
        if data is None or data.size == 0 or (
                data.dtype.names is None and data.ravel()[0] is None):
            require(sp.is_empty(spec, state), '{}: "{}" is {!r}', what, where,
                    data)
            return
        require(data.dtype.names is not None and data.size == 1,
                '{}: "{}" is no struct, but {}', what, where, sp.short(data))
        struct = data.ravel()[0]
        names = dict(sp.fields(spec))
        unknown = set(data.dtype.names) - set(names)
        require(not unknown, '{}: "{}" has unknown fields {}', what, where,
                sorted(unknown))
        for name, sub in names.items():
            if name in data.dtype.names:
                _expect_mat(struct[name], sub, state[name], what,
                            where + '.' + name)
            else:
                require(sp.is_empty(sub, state[name]) and not (
                    sub['t'] == 'List' and state[name]),
                    '{}: "{}" has no "{}"', what, where, name)
        return
    if spec['t'] == 'List':
        require(data.dtype == object and data.size == len(state)
                and data.ndim == 2 and data.shape[0] <= 1,
                '{}: "{}" is no cell array of length {}, but {}', what, where,
                len(state), sp.short(data))
        for idx, item in enumerate(state):
            element = data.ravel()[idx]
            if sp.is_empty(spec['sub'], item) and element.size == 0:
                continue
            _expect_mat(element, spec['sub'], item, what,
                        '{}{{{}}}'.format(where, idx + 1))
        return
    require(state is not None, '{}: "{}" is {}, but the field is empty', what,
            where, sp.short(data))
    value, kind = sp.decode(state), spec['t']
    if kind == 'String':
        ok = data.dtype.kind == 'U' and ''.join(data.ravel()) == value
    elif kind == 'Bytes':
        ok = data.dtype == np.uint8 and data.tobytes() == value
    elif kind == 'Bool':
        ok = data.shape == (1, 1) and data.dtype.kind in 'bu' and \
            bool(data.ravel()[0]) is value
    elif kind in ('Date', 'DateTime', 'Time'):
        value = raw_item(spec, state).tolist()
        ok = data.dtype == np.dtype('int') and data.tolist() == [value]
    else:
        shape = value.shape
        if len(shape) < 2:
            shape = (1, value.size)
        exact = value.dtype.kind in 'iuc' or value.dtype.newbyteorder(
            '=') in (np.dtype('float32'), np.dtype('float64'))
        ok = (data.shape == shape or value.size == 0 and data.size == 0) and (
            # The order of bytes is the same in the whole file.
            data.dtype == value.dtype.newbyteorder('=') or not exact) and \
            data.astype(value.dtype).tobytes() == value.tobytes()
    require(ok, '{}: "{}" is {}, expected {}', what, where, sp.short(data),
            sp.short(value))


WRITERS = {'hdf5': write_hdf5, 'npz': write_npz, 'mat': write_mat}
READERS = {'hdf5': expect_hdf5, 'npz': expect_npz, 'mat': expect_mat}
