"""C04 Copying data between storages is exact and independent."""
import copy

from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, read_bytes, storage_path

QUICK, THOROUGH = 5200, 120000
RULE = ('case = schema spec, source state, backend pair, kind of copy (create_from, save_as, load_from into a filled '
        'storage or between sub-nodes), then edits on both sides, finally saving and reloading both; or a copy between '
        'schemas that differ in one option, which must be refused. non-trivial = at least two filled items are '
        'copied, or the target was filled before, or a refused copy with filled source and target')
CFG = {'depths': [0, 1, 2, 2, 3], 'width': 3, 'soc': 'yes'}
# Longer edit histories are covered by C02; these are about sharing of data.
EDITS = ('set', 'aset', 'aset', 'aset', 'resize', 'append', 'append', 'clear',
         'replace')


def wrap(spec):
    """A schema containing the given one twice, and other data."""
    return {'t': 'Comp', 'fields': [['one', spec], ['two', spec],
                                    ['three', {'t': 'List', 'sub': spec,
                                               'min': None, 'max': None}]],
            'opt': ['two']}


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    kind = draw(st.sampled_from(['create_from', 'save_as', 'load_from',
                                 'load_from', 'sub', 'sub', 'refused']))
    case = {'kind': kind, 'source': draw(st.sampled_from(BACKENDS)),
            'target': draw(st.sampled_from(BACKENDS)),
            'named': draw(st.booleans()), 'reload': draw(st.booleans())}
    inner = spec
    if kind == 'sub':
        spec = wrap(inner)
        case['target_spec'] = spec
        state = draw(gen.valid_state(spec))
        target = draw(gen.valid_state(spec))
        places = [['one'], ['two']]
        case['from'] = draw(st.sampled_from(
            places + [['three', i] for i in range(len(state['three']))]))
        case['same'] = draw(st.booleans())
        if case['same']:
            target = state
        case['to'] = draw(st.sampled_from(
            places + [['three', i] for i in range(len(target['three']))]))
    else:
        state = draw(gen.valid_state(spec))
        case['target_spec'] = spec
        if kind == 'refused':
            case['target_spec'] = draw(
                gen.mutated(spec, depends=False).filter(gen.sane))
        if kind in ('load_from', 'refused'):
            target = draw(gen.valid_state(case['target_spec']))
        else:
            target = sp.blank(spec)
    case.update(spec=spec, state=state, before=target)
    if kind != 'refused':
        source_state, target_state = model(case)
        case['source_ops'] = draw(history.history(
            spec, source_state, kinds=EDITS, min_ops=0, max_ops=3))
        case['target_ops'] = draw(history.history(
            spec, target_state, kinds=EDITS, min_ops=0, max_ops=3)) \
            if not case.get('same') else []
    return case


def strategy():
    return strategy_()


def model(case):
    """(source, target) states after copying."""
    state = case['state']
    if case['kind'] != 'sub':
        return state, copy.deepcopy(state)
    value = copy.deepcopy(sp.state_at(state, case['from']))
    base = copy.deepcopy(state if case['same'] else case['before'])
    target = sp.set_state(base, case['to'], value)
    return (target, target) if case['same'] else (state, target)


def classify(case):
    tags = {case['kind'], case['source'] + ' to ' + case['target']}
    if case['kind'] == 'sub' and case['same']:
        tags = {'sub in the same storage'}
    filled = sum(1 for _, spec, state in sp.paths(case['spec'], case['state'])
                 if sp.is_leaf(spec) and state is not None)
    before = not sp.is_empty(case['target_spec'], case['before'])
    if before:
        tags.add('target filled before')
    if case['kind'] == 'refused':
        if filled and before:
            tags.add('nontrivial')
    elif filled >= 2 or before:
        tags.add('nontrivial')
    if case.get('source_ops') or case.get('target_ops'):
        tags.add('edited afterwards')
    return sorted(tags)


def reopened(storage, spec, state, what):
    """Save and load a storage, if it is a file."""
    if storage.storage_path == '::inmem::':
        return storage
    storage.save(force=True)
    path = storage.storage_path
    del storage
    again = dsch.load(path, force=True)
    sp.expect_state(again.data, spec, state, what)
    require(again.schema_node.to_json() == sp.canon_json(spec),
            '{}: schema changed', what)
    return again


def check(case, scratch):
    spec, state, kind = case['spec'], case['state'], case['kind']
    what = '{} from {} to {}'.format(kind, case['source'], case['target'])
    source = dsch.create(storage_path(scratch, case['source'], 'source'),
                         sp.build(spec))
    sp.fill(source.data, spec, state)
    if case['reload']:
        source = reopened(source, spec, state, 'source after reloading')
    path = storage_path(scratch, case['target'], 'target')
    backend = case['target'] if case['named'] else None
    if kind == 'refused':
        return check_refused(case, source, path, what)
    if kind == 'create_from':
        target = dsch.create_from(path, source, backend)
    elif kind == 'save_as':
        target = source.save_as(path, backend)
    elif case.get('same'):
        target = source
    else:
        target = dsch.create(path, sp.build(spec), backend)
        sp.fill(target.data, spec, case['before'])
    if kind == 'load_from':
        target.data.load_from(source.data)
    elif kind == 'sub':
        sp.node_at(target.data, case['to']).load_from(
            sp.node_at(source.data, case['from']))

    require(target.storage_path == path or case.get('same'),
            '{}: the target has the path {!r}', what, target.storage_path)
    require(target.schema_node.to_json() == sp.canon_json(spec),
            '{}: the target has the schema {}', what,
            target.schema_node.to_json())
    source_state, target_state = model(case)
    sp.expect_state(source.data, spec, source_state, what + ', source')
    sp.expect_state(target.data, spec, target_state, what + ', target')
    for side, storage, ops in (('source', source, case['source_ops']),
                               ('target', target, case['target_ops'])):
        for op in ops:
            history.apply_dsch(spec, storage.data, op)
            if side == 'source':
                source_state = history.apply_model(spec, source_state, op)
            else:
                target_state = history.apply_model(spec, target_state, op)
            if case.get('same'):
                target_state = source_state
            now = '{}, after {} on the {}'.format(what, sp.short(op), side)
            sp.expect_state(source.data, spec, source_state,
                            now + ': source')
            sp.expect_state(target.data, spec, target_state,
                            now + ': target')
    reopened(target, spec, target_state, what + ', target reloaded')
    if not case.get('same'):
        reopened(source, spec, source_state, what + ', source reloaded')


def check_refused(case, source, path, what):
    spec, state = case['spec'], case['state']
    target_spec, before = case['target_spec'], case['before']
    target = dsch.create(path, sp.build(target_spec))
    sp.fill(target.data, target_spec, before)
    content = None
    if case['target'] != 'inmem':
        target.save()
        content = read_bytes(path)
    try:
        target.data.load_from(source.data)
    except dsch.exceptions.IncompatibleNodesError:
        pass
    else:
        raise Violation('{}: copying from schema {} to {} is accepted'.format(
            what, sp.canon_json(spec), sp.canon_json(target_spec)))
    sp.expect_state(source.data, spec, state, what + ', source')
    sp.expect_state(target.data, target_spec, before, what + ', target')
    if content is not None and case['target'] != 'hdf5':
        require(read_bytes(path) == content, '{}: file changed', what)
    reopened(target, target_spec, before, what + ', target reloaded')
    end_session()
