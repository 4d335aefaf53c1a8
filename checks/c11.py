"""C11 Loading with a required schema admits exactly that schema."""
import os

from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen, require
from dschpbt import spec as sp
from dschpbt.files import BACKEND_OF, EXTENSIONS, end_session, read_bytes, \
    storage_path
from dschpbt.oracle import files_for, independents_ok

QUICK, THOROUGH = 9400, 200000
RULE = ('case = schema, valid or invalid data in a file, and several loads with requirements as schema object, as '
        'hash or both, each one equal, reordered, differing in one option, a part, broader, or no hash at all, with and without force; '
        'non-trivial = a requirement that differs in one option, or two requirements that contradict each other')
CFG = {'depths': [0, 1, 2, 2, 3], 'width': 3, 'soc': 'yes'}


@st.composite
def requirement(draw, spec):
    kind = draw(st.sampled_from(['same', 'same', 'order', 'changed',
                                 'changed', 'part']))
    if kind == 'part':
        # A part of the schema, or a broader one.
        return draw(st.sampled_from(
            [node for _, node in gen.spec_paths(spec)][:6] + [
                {'t': 'List', 'sub': spec, 'min': None, 'max': None},
                {'t': 'Comp', 'fields': [['a', spec]], 'opt': None}]))
    if kind == 'changed':
        return draw(gen.mutated(spec))
    return draw(gen.permuted(spec)) if kind == 'order' else spec


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    loads = []
    for _ in range(draw(st.integers(1, 3))):
        load = {'force': draw(st.booleans()), 'schema': None, 'hash': None,
                'named': draw(st.booleans())}
        how = draw(st.sampled_from(['schema', 'hash', 'both', 'both', 'none']))
        if how in ('schema', 'both'):
            load['schema'] = draw(requirement(spec))
        if how in ('hash', 'both'):
            if draw(st.integers(0, 7)) == 0:
                own = sp.canon_hash(spec)
                load['hash'] = draw(st.sampled_from(
                    [own[:-1], own[:8], 'x', own[::-1], '0' * 64]))
            else:
                load['hash'] = sp.canon_hash(draw(requirement(spec)))
        loads.append(load)
    return {'spec': spec, 'state': draw(gen.spoiled_state(spec)),
            'ext': draw(st.sampled_from(EXTENSIONS)), 'loads': loads}


def strategy():
    def usable(case):
        return independents_ok(case['spec'], case['state']) and \
            BACKEND_OF[case['ext']] in files_for(case['spec'], case['state'])
    return strategy_().filter(usable)


def matches(spec, load):
    own = sp.canon_hash(spec)
    return ((load['schema'] is None or sp.canon_hash(load['schema']) == own),
            (load['hash'] is None or load['hash'] == own))


def classify(case):
    tags = {case['ext']}
    invalid = bool(sp.tree_violations(case['spec'], case['state']))
    for load in case['loads']:
        one, two = matches(case['spec'], load)
        how = [k for k in ('schema', 'hash') if load[k] is not None]
        tags.add('{}: {}'.format(' and '.join(how) or 'no requirement',
                                 'admitted' if one and two else 'refused'))
        if not (one and two):
            tags.add('nontrivial')
            if invalid:
                tags.add('refused with invalid data')
        elif how and invalid:
            tags.add('admitted with invalid data, {}'.format(
                'forced' if load['force'] else 'not forced'))
    return sorted(tags)


def check(case, scratch):
    spec, state, ext = case['spec'], case['state'], case['ext']
    bad = sp.tree_violations(spec, state)
    path = storage_path(scratch, BACKEND_OF[ext])
    storage = dsch.create(path, sp.build(spec))
    sp.fill(storage.data, spec, state)
    storage.save(force=True)
    del storage
    end_session()
    content = read_bytes(path)
    for number, load in enumerate(case['loads']):
        kwargs = {'force': load['force']}
        if load['schema'] is not None:
            kwargs['required_schema'] = sp.build(load['schema'])
        if load['hash'] is not None:
            kwargs['required_schema_hash'] = load['hash']
        if load['named']:
            kwargs['backend'] = BACKEND_OF[ext]
        what = '{} load {}: stored {}, required {} / {}, force={}'.format(
            ext, number, sp.canon_json(spec),
            None if load['schema'] is None else sp.canon_json(load['schema']),
            load['hash'], load['force'])
        fits = all(matches(spec, load))
        try:
            storage = dsch.load(path, **kwargs)
        except dsch.exceptions.InvalidSchemaError as err:
            if fits:
                raise Violation('{}: refused: {}'.format(what, err)) from err
        except (dsch.exceptions.ValidationError,
                dsch.exceptions.SubnodeValidationError) as err:
            require(fits, '{}: the data is reported ({}) instead of the '
                    'schema', what, err)
            require(bad and not load['force'], '{}: {}', what, err)
        else:
            require(fits, '{}: admitted', what)
            require(load['force'] or not bad, '{}: loaded invalid data', what)
            sp.expect_state(storage.data, spec, state, what)
            del storage
        end_session()
        if ext != '.h5':
            require(read_bytes(path) == content, '{}: the file changed', what)
        require(os.listdir(scratch) == [os.path.basename(path)],
                '{}: there are other files: {}', what, os.listdir(scratch))
    storage = dsch.load(path, force=True)
    require(storage.schema_hash() == sp.canon_hash(spec),
            '{}: the stored schema changed', ext)
    sp.expect_state(storage.data, spec, state, ext + ' finally')
