"""C17 Files are readable and writable without dsch in a stable layout."""
import json
import os

from hypothesis import strategies as st

import dsch
from dschpbt import VERIF, gen, layout, require
from dschpbt import spec as sp
from dschpbt.files import BACKEND_OF, end_session, read_bytes, storage_path

QUICK, THOROUGH = 4200, 150000
RULE = ('case = schema and data, written by dsch in each format and read with h5py, NumPy or SciPy alone, then written '
        'with these libraries (various options, also the text form of bytes in older MATLAB files) and loaded with '
        'dsch; in addition, the files of the committed corpus written by the first release; non-trivial = at least two '
        'filled items or a nested item')
CFG = {'soc': 'yes'}
GOLDEN = os.path.join(VERIF, 'golden')


def golden_cases():
    path = os.path.join(GOLDEN, 'cases.json')
    if not os.path.exists(path):
        return []
    with open(path) as file_:
        return json.load(file_)


CASES = golden_cases()
FIXED = [{'golden': number} for number in range(len(CASES))]


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    return {'spec': spec, 'state': draw(gen.valid_state(spec)),
            'full': draw(gen.valid_state(spec, draw(st.sampled_from(
                [1.0, 1.0, 0.7, 0.4])))),
            'options': {'indent': draw(st.booleans()),
                        'compress': draw(st.booleans()),
                        'reverse': draw(st.booleans()),
                        'resizable': draw(st.booleans()),
                        layout.BYTES_AS_TEXT: draw(st.booleans())}}


def strategy():
    return strategy_()


def classify(case):
    if 'golden' in case:
        return ['files of the first release']
    tags = set()
    items = 0
    for path, spec, state in sp.paths(case['spec'], case['state']):
        if sp.is_leaf(spec) and state is not None:
            items += 1
            tags.add(spec['t'])
            if len(path) > 1:
                tags.add('nontrivial')
    if items > 1:
        tags.add('nontrivial')
    if not layout.npz_writable(case['spec'], case['full']):
        tags.add('not writable with savez')
    return sorted(tags)


def load_and_compare(path, spec, state, what, keep):
    before = read_bytes(path)
    storage = dsch.load(path, force=True)
    require(storage.schema_node.to_json() == sp.canon_json(spec),
            '{}: schema is {}', what, storage.schema_node.to_json())
    require(storage.schema_hash() == sp.canon_hash(spec), '{}: wrong hash',
            what)
    sp.expect_state(storage.data, spec, state, what)
    if keep:
        require(read_bytes(path) == before, '{}: loading changed the file',
                what)
    return storage


def check(case, scratch):
    if 'golden' in case:
        check_golden(CASES[case['golden']], scratch)
        return
    spec = case['spec']
    for backend in ('hdf5', 'npz', 'mat'):
        path = storage_path(scratch, backend, 'written')
        storage = dsch.create(path, sp.build(spec))
        sp.fill(storage.data, spec, case['state'])
        storage.save(force=True)
        del storage
        end_session()
        layout.READERS[backend](path, spec, case['state'],
                                backend + ' file read without dsch')

        state = layout.gapless(spec, case['full'])
        options = dict(case['options'])
        if backend == 'mat' and not layout.mat_text_bytes(spec, state):
            options[layout.BYTES_AS_TEXT] = False
        if backend == 'npz' and not layout.npz_writable(spec, state):
            continue
        path = storage_path(scratch, backend, 'plain')
        layout.WRITERS[backend](path, spec, state, options)
        what = '{} file written without dsch'.format(backend)
        storage = load_and_compare(path, spec, state, what, backend != 'hdf5')
        # It can be saved by dsch, too.
        storage.save(force=True)
        del storage
        end_session()
        storage = load_and_compare(path, spec, state, what + ', saved again',
                                   False)
        del storage
        end_session()


def check_golden(entry, scratch):
    """A file written by the first release."""
    spec, state = entry['spec'], entry['state']
    for name in entry['files']:
        path = os.path.join(scratch, name)
        with open(os.path.join(GOLDEN, name), 'rb') as source, \
                open(path, 'wb') as target:
            target.write(source.read())
        backend = BACKEND_OF[os.path.splitext(name)[1]]
        storage = load_and_compare(path, spec, state,
                                   'file {} of the first release'.format(name),
                                   backend != 'hdf5')
        storage.save(force=True)
        del storage
        end_session()
        storage = load_and_compare(path, spec, state,
                                   '{} of the first release, saved again'
                                   .format(name), False)
        del storage
        end_session()
