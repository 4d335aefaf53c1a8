"""C01 Saved data reloads identically in every file format."""
import datetime
import os

import numpy as np
from hypothesis import strategies as st

import dsch
from dschpbt import gen, require
from dschpbt import spec as sp
from dschpbt.files import EXTENSIONS, end_session

QUICK, THOROUGH = 5200, 120000
RULE = ('case = schema spec + valid partial state, saved and reloaded (twice) in all three formats '
        '(unusual names of fields: not in MATLAB files); non-trivial = at least two filled items, or a filled item below a List, or an item with a boundary value (empty '
        'array/str/bytes, 0-d or >1-d array)')
CFG = {'soc': 'yes'}


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 5)) == 0:
        # Names of fields that are supported except by MATLAB files.
        spec = draw(gen.top_spec(dict(CFG, wide_names=True)))
        formats = [x for x in EXTENSIONS if x != '.mat']
    else:
        spec, formats = draw(gen.top_spec(CFG)), list(EXTENSIONS)
    return {'formats': formats, 'spec': spec, 'state': draw(gen.valid_state(spec)),
            'end': draw(st.booleans())}


def strategy():
    return strategy_()


def large():
    """Cases that are larger than generated ones."""
    scalar = {'t': 'Scalar', 'dtype': 'int32', 'unit': '', 'max_value': None,
              'min_value': None}
    text = {'t': 'String', 'min': None, 'max': None}

    def list_of(sub):
        return {'t': 'List', 'sub': sub, 'min': None, 'max': None}

    def comp(fields):
        return {'t': 'Comp', 'fields': fields, 'opt': None}

    # Long lists, with entries left empty.
    entry = comp([['x', scalar], ['l', list_of(text)]])
    numbers = [None if i % 9 == 4 else ['sc', 'int32', i] for i in range(1203)]
    entries = [{'x': numbers[i], 'l': [['str', str(i)]] * (i % 3)}
               for i in range(130)]
    # Many fields; their schema takes more than 64 KiB.
    wide = comp([['field_{}'.format(i), dict(scalar, unit='V' * (i % 50))]
                 for i in range(500)])
    # A deep tree.
    deep, deepest = text, ['str', 'deep']
    for level in range(24):
        if level % 2:
            deep, deepest = list_of(deep), [deepest] * (1 + (level == 11))
        else:
            deep, deepest = comp([['x', deep]]), {'x': deepest}
    for spec, state in ((list_of(scalar), numbers),
                        (comp([['l', list_of(entry)]]), {'l': entries}),
                        (wide, {name: numbers[i] for i, (name, _) in
                                enumerate(wide['fields'])}),
                        (deep, deepest)):
        for ext in EXTENSIONS:
            yield {'formats': [ext], 'spec': spec, 'state': state, 'end': True}


LARGE = list(large())


def classify(case):
    tags = []
    filled = 0
    special = deep = False
    for path, spec, state in sp.paths(case['spec'], case['state']):
        if spec['t'] == 'List':
            if any(sp.is_empty(spec['sub'], x) for x in state):
                tags.append('list with empty entry')
        if not sp.is_leaf(spec):
            continue
        if state is None:
            tags.append('empty item')
            continue
        tags.append(spec['t'])
        filled += 1
        deep = deep or any(isinstance(x, int) for x in path)
        if state[0] == 'arr':
            special = special or len(state[2]) != 1 or 0 in state[2]
        elif state[0] in ('str', 'bytes'):
            special = special or not state[1]
    tags = sorted(set(tags))
    if filled >= 2 or deep or special:
        tags.append('nontrivial')
    return tags


def expect_loaded(storage, spec, state, what):
    require(storage.schema_node.to_json() == sp.canon_json(spec),
            '{}: schema is {}, expected {}', what,
            storage.schema_node.to_json(), sp.canon_json(spec))
    require(storage.schema_hash() == sp.canon_hash(spec),
            '{}: wrong schema hash', what)
    sp.expect_state(storage.data, spec, state, what)


def check(case, scratch):
    spec, state = case['spec'], case['state']
    for ext in case['formats']:
        path = os.path.join(scratch, 'a' + ext)
        storage = dsch.create(path, sp.build(spec))
        sp.fill(storage.data, spec, state)
        sp.expect_state(storage.data, spec, state, ext + ' before saving')
        storage.save()
        sp.expect_state(storage.data, spec, state, ext + ' after saving')
        if case['end']:
            del storage
            end_session()
        again = dsch.load(path)
        expect_loaded(again, spec, state, ext + ' reloaded')
        again.save()
        if case['end']:
            del again
            end_session()
        again = dsch.load(path)
        expect_loaded(again, spec, state, ext + ' saved and reloaded again')


# --------------------------------------------------------------------------
# Known findings (see DESIGN.md); each probe returns a message while it shows.

def round_trip(scratch, ext, node, value):
    """Reload a single value; return it, or the exception that was raised."""
    path = os.path.join(scratch, 'p' + ext)
    if os.path.exists(path):
        os.unlink(path)
    try:
        storage = dsch.create(path, node)
        storage.data.replace(value)
        storage.save(force=True)
        del storage
        end_session()
        return dsch.load(path, force=True).data
    except Exception as err:
        end_session()
        return err


def probe_timezone(scratch):
    value = datetime.datetime(2020, 10, 25, 2, 30, fold=1,
                              tzinfo=datetime.timezone.utc)
    bad = []
    for ext in EXTENSIONS:
        data = round_trip(scratch, ext, dsch.schema.DateTime(), value)
        if isinstance(data, Exception) or not sp.same(value, data.value):
            bad.append(ext)
    return 'lost in {}'.format(', '.join(bad)) if bad else None


def probe_nul(ext):
    def probe(scratch):
        bad = []
        for value in ('a\0', 'a\0b'):
            data = round_trip(scratch, ext, dsch.schema.String(), value)
            if isinstance(data, Exception):
                bad.append('{!r}: {}'.format(value, data))
            elif data.value != value:
                bad.append('{!r} became {!r}'.format(value, data.value))
        return '; '.join(bad) or None
    return probe


def probe_name(ext, name):
    def probe(scratch):
        node = dsch.schema.Compilation({name: dsch.schema.Bool()})
        data = round_trip(scratch, ext, node, {name: True})
        if isinstance(data, Exception):
            return '{}: {}'.format(type(data).__name__, data)
        if getattr(data, name).empty:
            return 'the field is empty after reloading'
        return None
    return probe


def probe_dtype_mat(scratch):
    bad = []
    for value in (np.array(['abc'], dtype='U5'), np.array([b'abc'], dtype='S5'),
                  np.array(['1.1'], dtype='longdouble'),
                  np.array([1], dtype='datetime64[s]')):
        node = dsch.schema.Array(value.dtype.str)
        data = round_trip(scratch, '.mat', node, value)
        if isinstance(data, Exception):
            bad.append('{}: {}'.format(value.dtype, type(data).__name__))
        elif not np.array_equal(data.value, value):
            bad.append('{!r} became {!r}'.format(value, data.value))
    return '; '.join(bad) or None


PROBES = {
    'dtype-mat': probe_dtype_mat,
    'timezone': probe_timezone,
    'nul-hdf5': probe_nul('.h5'),
    'nul-npz': probe_nul('.npz'),
    'nul-mat': probe_nul('.mat'),
    'name-underscore-mat': probe_name('.mat', '_x'),
    'name-nonascii-mat': probe_name('.mat', 'größe'),
    'name-schema-npz': probe_name('.npz', '_schema'),
}
