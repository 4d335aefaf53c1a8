"""C02 All storage backends behave identically through the API."""
import numpy as np
from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, storage_path

QUICK, THOROUGH = 6900, 100000
RULE = ('case = schema spec + operation history (set, replace, append, clear, element assignment, resize, copy), run on '
        'all four backends and the reference tree, everything observable compared after every operation; non-trivial '
        '= at least three operations of which one overwrites, clears or re-uses a non-empty node')
CFG = {'depths': [0, 1, 2, 2, 3], 'width': 3, 'soc': 'yes'}


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    return {'spec': spec, 'ops': draw(history.history(spec, max_ops=10))}


def strategy():
    return strategy_()


def classify(case):
    spec = case['spec']
    states = history.run_model(spec, sp.blank(spec), case['ops'])
    tags = set()
    reuse = False
    for op, before, after in zip(case['ops'], states, states[1:]):
        tags.add('op ' + op[0])
        target = op[2] if op[0] == 'copy' else op[1]
        if op[0] in ('set', 'replace', 'clear', 'copy', 'aset', 'resize') \
                and not sp.is_empty(sp.spec_at(spec, target),
                                    sp.state_at(before, target)):
            reuse = True
    if reuse and len(case['ops']) >= 3:
        tags.add('nontrivial')
    if any(sp.tree_violations(spec, s) for s in states):
        tags.add('invalid at some point')
    return sorted(tags)


def expect_everything(storage, spec, state, what):
    """Compare everything observable of a storage with a state."""
    sp.expect_state(storage.data, spec, state, what)
    require(bool(storage.complete) == sp.is_complete(spec, state),
            '{}: storage.complete is {}', what, storage.complete)
    for include_empty in (False, True):
        tree = storage.data.data_tree(include_empty=include_empty)
        expected = sp.data_tree(spec, state, include_empty)
        require(sp.same_tree(expected, tree),
                '{}: data_tree({}) is {}, expected {}', what, include_empty,
                sp.short(tree), sp.short(expected))
    invalid = sp.tree_violations(spec, state)
    try:
        storage.validate()
    except (dsch.exceptions.ValidationError,
            dsch.exceptions.SubnodeValidationError) as err:
        if not invalid:
            raise Violation('{}: valid data is rejected: {}'.format(
                what, err)) from err
    else:
        require(not invalid, '{}: data violating {} is accepted', what,
                sorted(map(sp.path_str, invalid)))


def check(case, scratch):
    spec = case['spec']
    states = history.run_model(spec, sp.blank(spec), case['ops'])
    storages = {name: dsch.create(storage_path(scratch, name), sp.build(spec))
                for name in BACKENDS}
    for storage in storages.values():
        sp.fill(storage.data, spec, states[0])
    for number, state in enumerate(states):
        op = case['ops'][number - 1] if number else ['create']
        for name, storage in storages.items():
            what = '{} after operation {} {}'.format(name, number,
                                                     sp.short(op))
            if number:
                history.apply_dsch(spec, storage.data, op)
            expect_everything(storage, spec, state, what)
        printed = {name: repr(storage.data)
                   for name, storage in storages.items()}
        for name in BACKENDS[1:]:
            require(printed[name] == printed['inmem'],
                    'after operation {} {}: printed tree of {} differs from '
                    'inmem: {} / {}', number, sp.short(op), name,
                    printed[name], printed['inmem'])


# --------------------------------------------------------------------------
# Known finding (see DESIGN.md)

def probe_live_value(scratch):
    """What was read from an array follows later writes to its elements."""
    live = []
    for name in BACKENDS:
        node = dsch.create(storage_path(scratch, name, 'live'),
                           dsch.schema.Array(dtype='int32')).data
        node.value = np.zeros(3, dtype='int32')
        value, tree = node.value, node.data_tree()
        node[0] = 5
        if value[0] or tree[0]:
            live.append(name)
    if live and len(live) < len(BACKENDS):
        return 'changes on {}, stays on the others'.format(', '.join(live))
    return None


PROBES = {'live-value': probe_live_value}
