"""C08 Invalid data does not pass save or load unless forced."""
import os

from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen, require
from dschpbt import layout
from dschpbt import spec as sp
from dschpbt.files import end_session, read_bytes, storage_path
from dschpbt.oracle import files_for, independents_ok, kinds_of_violation

QUICK, THOROUGH = 4800, 150000
RULE = ('case = schema tree with constraints, a valid earlier state (saved or not) and a later state with none, one '
        'or several violations, on every file format that can hold it: saving and loading with and without force, '
        'comparing outcome, file bytes and data at each step; non-trivial = the later state violates the schema')
ASSUMPTIONS = [
    'HDF5 files are edited in place (known finding), so the bytes after a refused save are compared for npz and '
    'MATLAB files only.']
CFG = {'depths': [0, 1, 2, 2, 3], 'width': 3, 'tight': True,
       'kinds': gen.LIMITED}
ERRORS = (dsch.exceptions.ValidationError,
          dsch.exceptions.SubnodeValidationError)


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    return {'spec': spec, 'before': draw(gen.valid_state(spec)),
            'required': draw(st.sampled_from([None, 'schema', 'hash', 'both'])),
            'saved': draw(st.booleans()), 'fresh': draw(st.booleans()),
            'steps': draw(st.lists(st.one_of(
                st.tuples(st.just('set'), st.integers(0, 2)),
                st.tuples(st.sampled_from(['save', 'save', 'reopen']),
                          st.integers(0, 2))), min_size=2, max_size=9)),
            'format': draw(st.integers(0, 2)),
            'state': draw(gen.spoiled_state(
                spec, dtypes_too=draw(st.integers(0, 7)) == 0,
                dims=draw(st.integers(0, 7)) == 0))}


def strategy():
    return strategy_().filter(
        lambda case: independents_ok(case['spec'], case['state']))


def classify(case):
    bad = sp.tree_violations(case['spec'], case['state'])
    tags = ['{} violations'.format(min(len(bad), 3))]
    if bad:
        tags.append('nontrivial')
        if case['saved']:
            tags.append('invalid over saved valid data')
    return tags + files_for(case['spec'], case['state'])


def attempt(what, call, bad):
    """Returns the result, or None if refused as expected."""
    try:
        result = call()
    except ERRORS as err:
        if not bad:
            raise Violation('{} is refused for valid data: {}'.format(
                what, err)) from err
        return None
    require(not bad, '{} succeeds in spite of violations {}', what, bad)
    return result


def required(case, spec):
    kwds = {}
    if case['required'] in ('schema', 'both'):
        kwds['required_schema'] = sp.build(spec)
    if case['required'] in ('hash', 'both'):
        kwds['required_schema_hash'] = sp.canon_hash(spec)
    return kwds


def snapshot(path):
    return read_bytes(path) if os.path.exists(path) else None


def check(case, scratch):
    spec, state, before = case['spec'], case['state'], case['before']
    bad = sp.tree_violations(spec, state)
    for backend in files_for(spec, state):
        path = storage_path(scratch, backend)
        in_place = backend == 'hdf5'
        storage = dsch.create(path, sp.build(spec))
        sp.fill(storage.data, spec, before)
        if case['saved']:
            storage.save()
            if case['fresh']:
                del storage
                end_session()
                storage = dsch.load(path)
                sp.expect_state(storage.data, spec, before,
                                backend + ' valid data reloaded')
        content = snapshot(path)
        storage.data.clear()
        sp.fill(storage.data, spec, state)

        what = backend + ' save()'
        attempt(what, storage.save, bad)
        sp.expect_state(storage.data, spec, state, what + ', in memory')
        if bad and not in_place:
            require(snapshot(path) == content,
                    '{}: refused, but the file changed', what)
            if content is not None:
                again = dsch.load(path)
                sp.expect_state(again.data, spec, before,
                                what + ': file after refused save')
                del again

        what = backend + ' save(force=True)'
        storage.save(force=True)
        sp.expect_state(storage.data, spec, state, what + ', in memory')
        del storage
        end_session()
        content = snapshot(path)
        require(content is not None, '{}: no file was written', what)
        for number in range(2):
            what = backend + ' load()'
            loaded = attempt(what, lambda: dsch.load(path), bad)
            if loaded is not None:
                sp.expect_state(loaded.data, spec, state, what)
            del loaded
            end_session()
            what = backend + ' load(force=True)'
            loaded = dsch.load(path, force=True)
            sp.expect_state(loaded.data, spec, state, what)
            require(loaded.schema_node.to_json() == sp.canon_json(spec),
                    '{}: schema changed', what)
            # Requiring the schema that the file has changes nothing.
            if case.get('required') and number == 0:
                del loaded
                end_session()
                kwds = required(case, spec)
                what = '{} load({})'.format(backend, ', '.join(kwds))
                loaded = attempt(what, lambda: dsch.load(path, **kwds), bad)
                if loaded is not None:
                    sp.expect_state(loaded.data, spec, state, what)
                del loaded
                end_session()
                loaded = dsch.load(path, force=True, **kwds)
                sp.expect_state(loaded.data, spec, state,
                                what + ' with force=True')
            if number == 0:
                del loaded
                end_session()
                if not in_place:
                    require(snapshot(path) == content,
                            '{}: loading changed the file', what)
        # The data can be repaired.
        what = backend + ' after correcting the data'
        loaded.data.clear()
        sp.fill(loaded.data, spec, before)
        attempt(what + ', save()', loaded.save, {})
        del loaded
        end_session()
        loaded = attempt(what + ', load()', lambda: dsch.load(path), {})
        sp.expect_state(loaded.data, spec, before, what)
        del loaded
        end_session()
    check_foreign(case, scratch)
    check_history(case, scratch)


def check_history(case, scratch):
    """Valid and invalid states, saved and loaded with and without force."""
    spec = case['spec']
    formats = files_for(spec, case['state'])
    backend = formats[case['format'] % len(formats)]
    path = storage_path(scratch, backend, 'history')
    states = [case['before'], sp.blank(spec), case['state']]
    bad = [sp.tree_violations(spec, state) for state in states]
    storage = dsch.create(path, sp.build(spec))
    sp.fill(storage.data, spec, states[0])
    storage.save()
    current = filed = 0
    log = []
    for kind, arg in case['steps']:
        log.append(kind if kind != 'set' else 'set ' + 'VEI'[arg])
        if kind != 'set' and arg == 0:
            log[-1] += '(force=True)'
        what = '{}: {}'.format(backend, ', '.join(log))
        if kind == 'set':
            storage.data.clear()
            sp.fill(storage.data, spec, states[arg])
            current = arg
        elif kind == 'save':
            before = snapshot(path)
            if arg == 0:
                storage.save(force=True)
                filed = current
            else:
                attempt(what, storage.save, bad[current])
                if not bad[current]:
                    filed = current
                elif backend != 'hdf5':
                    require(snapshot(path) == before,
                            '{}: refused, but the file changed', what)
        else:
            del storage
            end_session()
            if backend == 'hdf5':
                filed = current
            storage = dsch.load(path, force=True) if arg == 0 else \
                attempt(what, lambda: dsch.load(path), bad[filed])
            if storage is None:
                storage = dsch.load(path, force=True)
            current = filed
        sp.expect_state(storage.data, spec, states[current], what)


def check_foreign(case, scratch):
    """The data in files that were not written by dsch."""
    spec, state = case['spec'], layout.gapless(case['spec'], case['state'])
    kinds = kinds_of_violation(spec, state)
    if 'type' in kinds:
        return
    bad = sp.tree_violations(spec, state)
    backends = ['hdf5', 'npz'] + ['mat'] * ('mat' in files_for(spec, state))
    for backend in backends:
        if backend == 'npz' and not layout.npz_writable(spec, state):
            continue
        path = storage_path(scratch, backend, 'foreign')
        layout.WRITERS[backend](path, spec, state, {})
        kwds = required(case, spec)
        what = '{} load({}) of a file written without dsch'.format(
            backend, ', '.join(kwds))
        loaded = attempt(what, lambda: dsch.load(path, **kwds), bad)
        if loaded is not None:
            sp.expect_state(loaded.data, spec, state, what)
        del loaded
        end_session()
        loaded = dsch.load(path, force=True, **kwds)
        sp.expect_state(loaded.data, spec, state, what + ', force=True')
        if backend != 'hdf5':
            attempt('saving it again', loaded.save, bad)
        del loaded
        end_session()


def probe_refused_hdf5(scratch):
    path = os.path.join(scratch, 'p.h5')
    storage = dsch.create(path, dsch.schema.String(max_length=3))
    storage.data.value = 'abc'
    storage.save()
    storage.data.value = 'spam'
    try:
        storage.save()
    except ERRORS:
        pass
    del storage
    end_session()
    value = dsch.load(path, force=True).data.value
    return None if value == 'abc' else 'the file holds {!r}'.format(value)


PROBES = {'refused-save-hdf5': probe_refused_hdf5}
