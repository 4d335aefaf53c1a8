"""C15 The data tree is an exact image of the data."""
import copy

from hypothesis import strategies as st

import dsch
from dschpbt import gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, storage_path

QUICK, THOROUGH = 8400, 250000
RULE = ('case = schema, partially filled data, a history of edits on one backend (optionally saved and reloaded); the '
        'data tree of every node, without and with empty entries, is compared with a reference, and each tree is put '
        'back into an empty storage of some backend; non-trivial = at least three filled items and one empty field or '
        'entry, in nested collections')
CFG = {'depths': [0, 1, 2, 2, 3, 3], 'width': 4, 'soc': 'yes',
       'constraints': False}


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(dict(CFG, wide_names='some')))
    backends = [b for b in BACKENDS if b != 'mat' or gen.mat_names(spec)]
    state = draw(gen.valid_state(spec, draw(st.sampled_from(
        [0.5, 0.75, 0.9, 1.0]))))
    ops = draw(history.history(spec, state, min_ops=0, max_ops=5))
    return {'spec': spec, 'state': state, 'ops': ops,
            'backend': draw(st.sampled_from(backends)),
            'target': draw(st.sampled_from(backends)),
            'reload': draw(st.booleans())}


def strategy():
    return strategy_()


def final(case):
    return history.run_model(case['spec'], case['state'], case['ops'])[-1]


def classify(case):
    spec, state = case['spec'], final(case)
    tags = {case['backend'], 'to ' + case['target'], case['spec']['t']}
    items = [(p, now) for p, s, now in sp.paths(spec, state) if sp.is_leaf(s)]
    filled = sum(1 for _, now in items if now is not None)
    depth = max((len(p) for p, _ in items), default=0)
    for p, s, now in sp.paths(spec, state):
        if s['t'] == 'List':
            if any(sp.is_empty(s['sub'], item) for item in now):
                tags.add('list with empty entries')
            if len(now) > 10:
                tags.add('long list')
        if s['t'] == 'Comp' and p and sp.is_empty(s, now):
            tags.add('empty compilation inside')
    if filled >= 3 and filled < len(items) and depth >= 2:
        tags.add('nontrivial')
    return sorted(tags)


def soc_in_list(spec):
    if spec['t'] == 'Comp':
        return any(soc_in_list(sub) for _, sub in sp.fields(spec))
    return spec['t'] == 'List' and sp.has_soc(spec['sub'])


def without_gaps(spec, state):
    """The state after exporting without empty entries."""
    if spec['t'] == 'Comp':
        return {n: without_gaps(s, state[n]) for n, s in sp.fields(spec)}
    if spec['t'] == 'List':
        items = [without_gaps(spec['sub'], item) for item in state]
        return [x for x in items if x is not None]
    return state


def check(case, scratch):
    spec, backend = case['spec'], case['backend']
    path = storage_path(scratch, backend)
    storage = dsch.create(path, sp.build(spec))
    sp.fill(storage.data, spec, case['state'])
    state = copy.deepcopy(case['state'])
    for op in case['ops']:
        history.apply_dsch(spec, storage.data, op)
        state = history.apply_model(spec, state, op)
    if case['reload'] and backend != 'inmem':
        storage.save(force=True)
        del storage
        end_session()
        storage = dsch.load(path, force=True)
    for sub_path, sub, now in sp.paths(spec, state):
        node = sp.node_at(storage.data, sub_path)
        for what, flag, tree in (
                ('data_tree()', False, node.data_tree()),
                ('data_tree(False)', False, node.data_tree(False)),
                ('data_tree(include_empty=True)', True,
                 node.data_tree(include_empty=True))):
            expected = sp.data_tree(sub, now, flag)
            require(sp.same_tree(expected, tree),
                    '{} "{}": {} is {}, expected {}', backend,
                    sp.path_str(sub_path), what, sp.short(tree),
                    sp.short(expected))
        require(isinstance(node.data_tree(), dict) == (sub['t'] == 'Comp'),
                '{} "{}": not a dictionary', backend, sp.path_str(sub_path))
    sp.expect_state(storage.data, spec, state, backend + ' after exporting')

    # Put trees back, into an empty storage of the node's schema.
    number = 0
    for sub_path, sub, now in sp.paths(spec, state):
        if len(sub_path) > 1 or soc_in_list(sub) or sub['t'] == 'Array' \
                and sub['depends_on']:
            continue
        tree = sp.node_at(storage.data, sub_path).data_tree()
        if tree is None:
            continue
        number += 1
        other = dsch.create(storage_path(scratch, case['target'],
                                         'copy{}'.format(number)),
                            sp.build(sub))
        other.data.clear()
        other.data.replace(tree)
        what = 'tree of {} "{}" put into {}'.format(
            backend, sp.path_str(sub_path), case['target'])
        sp.expect_state(other.data, sub, without_gaps(sub, now), what)
        again = other.data.data_tree()
        require(sp.same_tree(sp.data_tree(sub, now, False), again),
                '{}: exporting again gives {}', what, sp.short(again))
        if number >= 3:
            break
    sp.expect_state(storage.data, spec, state, backend + ' in the end')
