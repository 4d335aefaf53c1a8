"""C07 Validating a tree finds any violation and names its exact location."""
from hypothesis import strategies as st

import dsch
from dschpbt import gen
from dschpbt import spec as sp
from dschpbt.files import end_session, storage_path
from dschpbt.oracle import backends_for, below, expect_valid, files_for, \
    independents_ok

QUICK, THOROUGH = 7800, 250000
RULE = ('case = schema tree with constraints and a state with no, one or several violations anywhere (values, shapes, '
        'lengths, dependent sizes, dtypes, types, list lengths); the storage and every node are validated in memory '
        'and after a forced save and load; non-trivial = exactly one violation, below at least one collection')
ASSUMPTIONS = [
    'Data that a backend refuses or converts on assignment (HDF5: array rank, maximum shape and dtype; file formats: '
    'values of wrong types) or cannot represent (MATLAB files: array rank, some dtypes) is used on the other '
    'backends only.',
    'Filled independent variables of filled dependent arrays are one-dimensional arrays, as documented.']
CFG = {'depths': [0, 1, 2, 2, 3, 3, 4], 'width': 4, 'tight': True,
       'kinds': gen.LIMITED}
WRONG = {
    'Bytes': [['str', 'abc']], 'String': [['bytes', '61'], ['int', 3]],
    'Bool': [['int', 1]], 'Date': [['str', '2020-01-01']],
    'DateTime': [['date', 2020, 1, 1]], 'Time': [['int', 12]],
    'Array': [['pylist', [['int', 1]]]]}


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(dict(CFG, wide_names='some')))
    return {'spec': spec, 'state': draw(gen.spoiled_state(
        spec, dtypes_too=draw(st.integers(0, 3)) == 0,
        dims=draw(st.integers(0, 3)) == 0,
        wrong=WRONG if draw(st.integers(0, 3)) == 0 else None))}


def strategy():
    return strategy_().filter(
        lambda case: independents_ok(case['spec'], case['state']))


def classify(case):
    bad = sp.tree_violations(case['spec'], case['state'])
    tags = ['{} violations'.format(min(len(bad), 3))]
    if len(bad) == 1:
        path = list(bad)[0]
        if path:
            tags += ['nontrivial', 'single violation at depth {}'.format(
                min(len(path), 4))]
        if any(isinstance(x, int) for x in path):
            tags.append('single violation in a list')
    if len(backends_for(case['spec'], case['state'])) == 4:
        tags.append('on all backends')
    return tags


def validate_all(storage, spec, state, bad, what):
    expect_valid(storage, spec, bad, what + ', storage')
    for path, sub, now in sp.paths(spec, state):
        expect_valid(sp.node_at(storage.data, path), sub, below(bad, path),
                     '{}, node "{}"'.format(what, sp.path_str(path)))


def check(case, scratch):
    spec, state = case['spec'], case['state']
    bad = sp.tree_violations(spec, state)
    files = files_for(spec, state)
    for backend in backends_for(spec, state):
        path = storage_path(scratch, backend)
        storage = dsch.create(path, sp.build(spec))
        sp.fill(storage.data, spec, state)
        validate_all(storage, spec, state, bad, backend)
        if backend in files:
            storage.save(force=True)
            del storage
            end_session()
            storage = dsch.load(path, force=True)
            validate_all(storage, spec, state, bad, backend + ' reloaded')
