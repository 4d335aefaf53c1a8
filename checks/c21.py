"""C21 Every node is reached by its name or index and knows its place."""
import copy

from hypothesis import strategies as st

import dsch
from dschpbt import gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, storage_path

QUICK, THOROUGH = 10500, 200000
RULE = ('case = schema, data, a history of edits on one backend, optionally saved and reloaded or copied to a second '
        'storage; after every step all nodes are walked by name, by (negative) index, by slice and by iteration, '
        'their parents and schema nodes are compared with the schema, names and indices that do not exist are tried, '
        'and all references held from before are compared with the model; non-trivial = nodes on at least three '
        'levels and at least one collection edited as a whole or a list with two or more entries')
CFG = {'depths': [1, 2, 2, 3, 3], 'width': 4, 'soc': 'yes',
       'constraints': False}


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(dict(CFG, wide_names='some')))
    backends = [b for b in BACKENDS if b != 'mat' or gen.mat_names(spec)]
    state = draw(gen.valid_state(spec, draw(st.sampled_from(
        [0.5, 0.75, 1.0]))))
    ops = draw(history.history(spec, state, min_ops=0, max_ops=6))
    names = draw(st.lists(st.one_of(gen.random_name(), st.sampled_from(
        ['items', 'keys', 'values', 'get', 'data', 'name', 'spec', 'item_0',
         'length', 'file', 'index', 'count', '__len__', '_data', '0', '',
         'subnodes', '__getstate__x', 'a.b', 'units'])),
        min_size=1, max_size=3))
    return {'spec': spec, 'state': state, 'ops': ops, 'names': names,
            'numbers': draw(st.lists(st.integers(-6, 6), min_size=3,
                                     max_size=3)),
            'backend': draw(st.sampled_from(backends)),
            'target': draw(st.sampled_from(backends)),
            'then': draw(st.sampled_from(['reload', 'reload', 'copy',
                                          'nothing']))}


def strategy():
    return strategy_()


def classify(case):
    spec = case['spec']
    states = history.run_model(spec, case['state'], case['ops'])
    tags = {case['backend'], case['then'], spec['t']}
    if case['then'] == 'copy':
        tags.add('to ' + case['target'])
    depth, edited = 0, False
    for state in states:
        for path, sub, now in sp.paths(spec, state):
            depth = max(depth, len(path))
            if sub['t'] == 'List' and len(now) >= 2:
                edited = True
                tags.add('list of {}'.format(sub['sub']['t']))
                if len(now) > 10:
                    tags.add('long list')
    for op in case['ops']:
        tags.add(op[0])
        where = op[2] if op[0] == 'copy' else op[1]
        if op[0] in ('replace', 'clear', 'copy') \
                and not sp.is_leaf(sp.spec_at(spec, where)):
            edited = True
    if depth >= 5:
        tags.add('deep')
    if depth >= 2 and edited:
        tags.add('nontrivial')
    return sorted(tags)


def variants(name):
    """Names that resemble an existing one."""
    return [name + '_', '_' + name, name[:-1], name.swapcase(), name * 2]


def walk(case, node, spec, state, parent, what, path=(), found=None):
    """Check a node's place and everything below; collect all nodes."""
    found = {} if found is None else found
    found[path] = node
    here = '{}: node "{}"'.format(what, sp.path_str(path))
    require(node.parent is parent, '{}: its parent is not the node that '
            'contains it but {}', here, sp.short(type(node.parent).__name__))
    require(node.schema_node.to_json() == sp.canon_json(spec),
            '{}: its schema node is {}, not that of its place', here,
            sp.short(node.schema_node.to_json()))
    if spec['t'] == 'Comp':
        names = [name for name, _ in sp.fields(spec)]
        listed = dir(node)
        for name in names + ['clear', 'complete', 'replace', 'validate',
                             'schema_node', 'parent', 'load_from']:
            require(name in listed, '{}: dir() lacks "{}"', here, name)
            require(hasattr(node, name), '{}: has no attribute "{}"', here,
                    name)
        wrong = set(case['names'])
        for name in names:
            wrong.update(variants(name))
        wrong -= set(names) | set(dir(type(node))) | set(vars(node))
        for name in sorted(wrong):
            require(name not in listed, '{}: dir() has "{}"', here, name)
            require(not hasattr(node, name), '{}: has an attribute "{}"',
                    here, name)
            require(getattr(node, name, None) is None,
                    '{}: default for "{}" ignored', here, name)
        for name, sub in sp.fields(spec):
            child = getattr(node, name)
            require(child is getattr(node, name), '{}: "{}" is not a stable '
                    'node', here, name)
            walk(case, child, sub, state[name], node, what, path + (name,),
                 found)
    elif spec['t'] == 'List':
        check_list(case, node, state, here)
        for idx, item in enumerate(state):
            walk(case, node[idx], spec['sub'], item, node, what,
                 path + (idx,), found)
    return found


def identical(first, second):
    return len(first) == len(second) and all(
        a is b for a, b in zip(first, second))


def check_list(case, node, state, here):
    count = len(state)
    require(len(node) == count, '{}: length is {}, expected {}', here,
            len(node), count)
    items = [node[idx] for idx in range(count)]
    require(len(set(map(id, items))) == count,
            '{}: the same node occurs twice', here)
    require(identical(items, list(node)),
            '{}: iteration differs from the indices', here)
    require(identical(items[::-1], list(reversed(node))),
            '{}: reversed iteration differs from the indices', here)
    for idx in range(count):
        require(node[idx - count] is items[idx],
                '{}: [{}] is not [{}]', here, idx - count, idx)
    a, b, step = case['numbers']
    for key in (slice(a, b, step or None), slice(a, None), slice(None, b),
                slice(None)):
        require(identical(items[key], list(node[key])),
                '{}: wrong entries for {}', here, key)
    for idx in (count, -count - 1, count + 7):
        try:
            node[idx]
        except IndexError:
            continue
        require(False, '{}: [{}] exists, with {} entries', here, idx, count)


def keeps_nodes(spec, op, path):
    """Whether the node at path before op is still the one after it."""
    if op[0] not in ('replace', 'clear', 'copy'):
        return True
    where = tuple(op[2] if op[0] == 'copy' else op[1])
    if path[:len(where)] != where:
        return True
    # Entries of the lists in there are replaced by others.
    return not any(isinstance(elem, int) for elem in path[len(where):])


def check(case, scratch):
    spec, backend = case['spec'], case['backend']
    path = storage_path(scratch, backend)
    storage = dsch.create(path, sp.build(spec))
    sp.fill(storage.data, spec, case['state'])
    state = copy.deepcopy(case['state'])
    what = backend
    found = walk(case, storage.data, spec, state, None, what)
    held = dict(found)
    for number, op in enumerate(case['ops']):
        history.apply_dsch(spec, storage.data, op)
        state = history.apply_model(spec, state, op)
        what = '{} after operation {} ({})'.format(backend, number, op[0])
        found = walk(case, storage.data, spec, state, None, what)
        held = {p: node for p, node in held.items()
                if keeps_nodes(spec, op, p)}
        for old_path, node in held.items():
            sp.expect_state(node, sp.spec_at(spec, old_path),
                            sp.state_at(state, old_path),
                            what + ', through a reference held', old_path)
        for new_path, node in found.items():
            held.setdefault(new_path, node)
    if case['then'] == 'reload' and backend != 'inmem':
        storage.save(force=True)
        what = backend + ' after saving'
        for old_path, node in held.items():
            sp.expect_state(node, sp.spec_at(spec, old_path),
                            sp.state_at(state, old_path),
                            what + ', through a reference held', old_path)
        walk(case, storage.data, spec, state, None, what)
        del storage, held, found, node
        end_session()
        storage = dsch.load(path, force=True)
        what = backend + ' after reloading'
        require(storage.schema_node.to_json() == sp.canon_json(spec),
                '{}: schema changed', what)
    elif case['then'] == 'copy':
        other = dsch.create(storage_path(scratch, case['target'], 'other'),
                            sp.build(spec))
        held = walk(case, other.data, spec, sp.blank(spec), None,
                    'new ' + case['target']) if not sp.has_soc(spec) else {}
        other.data.load_from(storage.data)
        walk(case, storage.data, spec, state, None, backend + ' as source')
        storage = other
        what = '{} copied to {}'.format(backend, case['target'])
        for old_path, node in held.items():
            sp.expect_state(node, sp.spec_at(spec, old_path),
                            sp.state_at(state, old_path),
                            what + ', through a reference held', old_path)
    found = walk(case, storage.data, spec, state, None, what)
    # The nodes at the places are those that hold their data.
    for sub_path, sub, now in sp.paths(spec, state):
        if sp.is_leaf(sub):
            sp.expect_state(found[sub_path], sub, now, what, sub_path)
    # Setting a value through a node shows at its place only.
    for sub_path, sub, now in sp.paths(spec, state):
        if sp.is_leaf(sub) and now is not None:
            found[sub_path].clear()
            state = sp.set_state(copy.deepcopy(state), sub_path, None)
            sp.expect_state(storage.data, spec, state,
                            what + ', clearing one node')
            break
