"""C23 A schema behaves the same wherever it is embedded."""
import copy

from hypothesis import strategies as st

import dsch
from dschpbt import gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, storage_path
from dschpbt.oracle import backends_for, files_for, independents_ok

QUICK, THOROUGH = 6300, 200000
RULE = ('case = a schema used on its own and embedded at some place of a broader schema (fields of compilations and '
        'entries of lists, up to three levels), the same data and history of edits on both, on one backend, finally '
        'possibly invalid data; after every step both are compared with each other (data tree, printed tree, hash, '
        'validation error) and with a model, the surroundings must stay as they were; both are saved, reloaded (also in between) and '
        'copied into each other; non-trivial = at least two filled items or an invalid one in the embedded data, '
        'and an edit')
CFG = {'depths': [0, 1, 1, 2, 2, 3], 'width': 3, 'soc': 'yes'}
AROUND = {'depths': [0, 0, 1], 'width': 2, 'depends': False,
          'constraints': False, 'deep': False}
ERRORS = (dsch.exceptions.ValidationError,
          dsch.exceptions.SubnodeValidationError)


@st.composite
def embed(draw, spec):
    """(outer spec, outer state without the inner one, path)."""
    outer, path, states = spec, [], []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.integers(0, 2)):
            count = draw(st.integers(0, 3))
            names = draw(st.lists(gen.names, min_size=count + 1,
                                  max_size=count + 1, unique=True))
            subs = [draw(gen.top_spec(AROUND)) for _ in range(count)]
            place = draw(st.integers(0, count))
            fields = [list(x) for x in zip(names[1:], subs)]
            fields.insert(place, [names[0], outer])
            outer = {'t': 'Comp', 'fields': fields}
            if draw(st.booleans()):
                outer['opt'] = draw(st.lists(st.sampled_from(names),
                                             unique=True))
            states.insert(0, {n: draw(gen.valid_state(s))
                              for n, s in zip(names[1:], subs)})
            path.insert(0, names[0])
        else:
            count = draw(st.integers(1, 3))
            index = draw(st.integers(0, count - 1))
            states.insert(0, [draw(gen.valid_state(outer))
                              for _ in range(count)])
            outer = {'t': 'List', 'sub': outer, 'min': None, 'max': None}
            path.insert(0, index)
    return {'outer': outer, 'path': path, 'states': states}


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    state = draw(gen.valid_state(spec, draw(st.sampled_from(
        [0.5, 0.75, 1.0]))))
    ops = draw(history.history(spec, state, min_ops=0, max_ops=5))
    last = draw(st.one_of(st.none(), gen.spoiled_state(spec)))
    if last is not None and not independents_ok(spec, last):
        last = None
    return {'spec': spec, 'embed': draw(embed(spec)), 'state': state,
            'ops': ops, 'last': last,
            # Save and reload both before these operations.
            'reload': draw(st.lists(st.integers(0, 4), unique=True,
                                    max_size=3)) if ops else [],
            'backend': draw(st.sampled_from(BACKENDS)),
            'target': draw(st.sampled_from(BACKENDS))}


def strategy():
    return strategy_()


def complete_state(case, inner):
    """State of the broader storage with the inner state at its place."""
    state = inner
    for elem, around in reversed(list(zip(case['embed']['path'],
                                          case['embed']['states']))):
        around = copy.deepcopy(around)
        around[elem] = copy.deepcopy(state)
        state = around
    return state


def classify(case):
    spec = case['spec']
    state = history.run_model(spec, case['state'], case['ops'])[-1]
    tags = {case['backend'], spec['t']}
    tags.add('{} levels'.format(len(case['embed']['path'])))
    if any(isinstance(elem, int) for elem in case['embed']['path']):
        tags.add('in a list')
    filled = sum(1 for _, s, now in sp.paths(spec, state)
                 if sp.is_leaf(s) and now is not None)
    bad = case['last'] is not None and sp.tree_violations(spec, case['last'])
    if bad:
        tags.add('invalid in the end')
    if case['ops'] and (filled >= 2 or bad):
        tags.add('nontrivial')
    return sorted(tags)


def outcome(node):
    """None, or (path, message, limit, actual value) of the violation."""
    try:
        node.validate()
    except dsch.exceptions.SubnodeValidationError as err:
        cause = err.original_cause()
        return err.node_path(), cause.message, cause.expected, cause.got
    except dsch.exceptions.ValidationError as err:
        return '', err.message, err.expected, err.got
    return None


def same_outcome(first, second):
    return (first is None) == (second is None) and (
        first is None or first[:2] == second[:2]
        and repr(first[2:]) == repr(second[2:]))


def joined(prefix, path):
    if not path or path.startswith('['):
        return prefix + path
    return prefix + '.' + path


def compare(case, alone, broad, state, what):
    spec, outer = case['spec'], case['embed']['outer']
    path = case['embed']['path']
    full = complete_state(case, state)
    sp.expect_state(alone.data, spec, state, what + ', on its own')
    sp.expect_state(broad.data, outer, full, what + ', broader storage')
    node = sp.node_at(broad.data, path)
    for flag in (False, True):
        require(sp.same_tree(alone.data.data_tree(flag),
                             node.data_tree(flag)),
                '{}: data tree {} on its own, {} embedded', what,
                sp.short(alone.data.data_tree(flag)),
                sp.short(node.data_tree(flag)))
    require(repr(alone.data) == repr(node),
            '{}: printed as\n{}\non its own,\n{}\nembedded', what,
            repr(alone.data), repr(node))
    require(node.schema_node.hash() == alone.schema_hash()
            and node.schema_node == alone.schema_node,
            '{}: not the same schema', what)
    first, second = outcome(alone.data), outcome(node)
    require(same_outcome(first, second), '{}: validation gives {} on its '
            'own, {} embedded', what, sp.short(first), sp.short(second))
    require(same_outcome(first, outcome(alone)),
            '{}: storage and data validate differently', what)
    whole = outcome(broad)
    require((whole is None) == (not sp.tree_violations(outer, full)),
            '{}: validation of the broader storage gives {}', what,
            sp.short(whole))
    others = sp.tree_violations(outer, complete_state(case, sp.blank(spec)))
    if first is not None and not others:
        # Nothing else is wrong.
        expected = (joined(sp.path_str(path), first[0]),) + first[1:]
        require(same_outcome(expected, whole), '{}: error {} on its own, {} '
                'for the broader storage', what, sp.short(first),
                sp.short(whole))


def check(case, scratch):
    spec, outer = case['spec'], case['embed']['outer']
    path, backend = case['embed']['path'], case['backend']
    last = case['last']
    if last is not None and backend not in (
            files_for(spec, last) + ['inmem'] * (
                'inmem' in backends_for(spec, last))):
        last = None
    alone = dsch.create(storage_path(scratch, backend, 'alone'),
                        sp.build(spec))
    broad = dsch.create(storage_path(scratch, backend, 'broad'),
                        sp.build(outer))
    state = copy.deepcopy(case['state'])
    sp.fill(alone.data, spec, state)
    sp.fill(broad.data, outer, complete_state(case, state))
    compare(case, alone, broad, state, backend)

    def reloaded():
        nonlocal alone, broad
        for storage in (alone, broad):
            storage.save(force=True)
        del storage, alone, broad
        end_session()
        alone = dsch.load(storage_path(scratch, backend, 'alone'), force=True)
        broad = dsch.load(storage_path(scratch, backend, 'broad'), force=True)
        compare(case, alone, broad, state, backend + ' reloaded')

    for number, op in enumerate(case['ops']):
        if number in case['reload'] and backend != 'inmem':
            reloaded()
        what = '{} after operation {} ({})'.format(backend, number, op[0])
        history.apply_dsch(spec, alone.data, op)
        history.apply_dsch(spec, sp.node_at(broad.data, path), op)
        state = history.apply_model(spec, state, op)
        compare(case, alone, broad, state, what)
    if last is not None:
        what = backend + ' with other data'
        for root in (alone.data, sp.node_at(broad.data, path)):
            root.clear()
            sp.fill(root, spec, last)
        state = copy.deepcopy(last)
        compare(case, alone, broad, state, what)
    if backend != 'inmem':
        reloaded()
    if last is not None and sp.tree_violations(spec, last):
        return
    # Copies in both directions.
    target = case['target']
    what = '{} copied to {}'.format(backend, target)
    node = sp.node_at(broad.data, path)
    alone2 = dsch.create(storage_path(scratch, target, 'alone2'),
                         sp.build(spec))
    alone2.data.load_from(node)
    broad2 = dsch.create(storage_path(scratch, target, 'broad2'),
                         sp.build(outer))
    sp.fill(broad2.data, outer, complete_state(case, sp.blank(spec)))
    with dsch.PseudoStorage(sp.node_at(broad2.data, path),
                            sp.build(spec)) as pseudo:
        require(pseudo.data is sp.node_at(broad2.data, path)
                and pseudo.storage is None,
                '{}: pseudo-storage gives another node', what)
        pseudo.data.load_from(alone.data)
    compare(case, alone2, broad2, state, what)
