"""C16 Refused operations leave the data untouched."""
import copy
import os

from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, read_bytes, storage_path
from dschpbt.oracle import backends_for, files_for, independents_ok

QUICK, THOROUGH = 10500, 250000
RULE = ('case = schema, data and backend, and a history mixing valid edits with operations that must or may be refused '
        '(assigning to fields and entries, bad values, bad entries, incompatible sources, reading empty nodes, failing '
        'validation or saving, bad indices and sizes); after every refusal all data is compared with the model, and '
        'saved and reloaded in the end; non-trivial = at least two different kinds of operations were refused')
CFG = {'depths': [0, 1, 1, 2, 2, 3], 'width': 3, 'soc': 'yes',
       'kinds': gen.LIMITED}
ATTRS = ('foo', 'value', 'data', '_x', '__x', 'clear', 'empty', 'complete',
         'storage', 'schema', '_storage', 'validate', 'ä', 'item_0', 'save',
         'Value', '_subnodes2', 'parent_', 'replace', 'schema_nod', 'x.y', '')
BAD = (
    ['none'], ['str', 'abc'], ['str', 'a\0b'], ['int', 5], ['int', 2 ** 70],
    ['int', -1], ['float', 1.5], ['complex', 1.0, 2.0], ['bytes', '00ff'],
    ['pylist', []], ['pylist', [['int', 1], ['str', 'x']]],
    ['pylist', [['pylist', [['int', 1]]],
                ['pylist', [['int', 1], ['int', 2]]]]],
    ['arr', 'float64', [2, 2], [1.0]], ['arr', 'int16', [3], [1]],
    ['arr', 'float64', [], [1.0]], ['date', 2000, 1, 2],
    ['time', 1, 2, 3, 4], ['datetime', 2000, 1, 2, 3, 4, 5, 6],
    ['sc', 'float64', 1.0], ['bool', True], ['dict'], ['object'])


class Strange:
    """An object no backend can store."""


def decode(value):
    if value[0] == 'dict':
        return {'foo': 1}
    if value[0] == 'object':
        return Strange()
    if value[0] == 'bad tree':
        return build_tree(value[1])
    return sp.decode(value)


def build_tree(tree):
    if tree[0] == 'D':
        return {name: build_tree(sub) for name, sub in tree[1]}
    if tree[0] == 'L':
        return [build_tree(sub) for sub in tree[1]]
    return decode(tree[1])


@st.composite
def bad_value(draw, spec):
    if spec['t'] == 'Array' and draw(st.booleans()):
        shape = [draw(st.integers(0, 5)) for _ in range(
            draw(st.integers(0, 3)))]
        return draw(gen.array_of(sp.npdtype(spec), shape))
    return draw(st.sampled_from(BAD))


@st.composite
def bad_tree(draw, spec):
    """An argument for append() with something bad at some depth."""
    if spec['t'] == 'Comp' and draw(st.integers(0, 5)):
        items = []
        names = [n for n, _ in spec['fields']]
        where = draw(st.sampled_from(names)) if names else None
        for name, sub in sp.fields(spec):
            if name == where:
                items.append([name, draw(bad_tree(sub))])
            elif draw(st.booleans()):
                items.append([name, draw(good_tree(sub))])
        if where is None or draw(st.integers(0, 3)) == 0:
            items.append(['no such field', ['V', ['int', 1]]])
        return ['D', items]
    if spec['t'] == 'List' and draw(st.integers(0, 5)):
        items = [draw(good_tree(spec['sub']))
                 for _ in range(draw(st.integers(0, 2)))]
        items.append(draw(bad_tree(spec['sub'])))
        return ['L', items]
    return ['V', draw(bad_value(spec))]


@st.composite
def good_tree(draw, spec):
    if spec['t'] == 'Comp':
        return ['D', [[n, draw(good_tree(s))] for n, s in sp.fields(spec)]]
    if spec['t'] == 'List':
        return ['L', [draw(good_tree(spec['sub']))
                      for _ in range(draw(st.integers(0, 2)))]]
    return ['V', draw(gen.valid_value(spec))]


KINDS = ('attr', 'attr', 'item', 'item', 'value', 'value', 'value', 'entry',
         'entry', 'load_from', 'load_from', 'read', 'invalid', 'invalid',
         'element', 'size', 'missing')


@st.composite
def refused(draw, spec, state, backend):
    """An operation that must or may be refused, or None."""
    nodes = list(sp.paths(spec, state))
    kind = draw(st.sampled_from(KINDS))

    def pick(condition):
        found = [n for n in nodes if condition(n)]
        return draw(st.sampled_from(found)) if found else None

    if kind == 'attr':
        node = pick(lambda n: n[1]['t'] == 'Comp')
        if node:
            names = [n for n, _ in node[1]['fields']]
            name = draw(st.sampled_from(names) if names and draw(
                st.booleans()) else st.sampled_from(ATTRS))
            return ['attr', list(node[0]), name, draw(st.sampled_from(BAD)),
                    draw(st.integers(0, 7)) == 0]
    if kind == 'item':
        node = pick(lambda n: n[1]['t'] == 'List')
        if node:
            size = len(node[2])
            idx = draw(st.one_of(
                st.integers(-size - 1, size + 1), st.sampled_from(
                    ['x', ['s', None, None, None], ['s', 0, 1, None]])))
            return ['item', list(node[0]), idx, draw(st.sampled_from(BAD)),
                    draw(st.integers(0, 7)) == 0]
    if kind == 'entry':
        node = pick(lambda n: n[1]['t'] == 'List')
        if node:
            return ['entry', list(node[0]), draw(bad_tree(node[1]['sub']))]
    if kind == 'load_from':
        node = draw(st.sampled_from(nodes))
        other = draw(gen.mutated(node[1]))
        if gen.sane(other):
            source = draw(gen.valid_state(other))
            return ['load_from', list(node[0]), other, source,
                    draw(st.sampled_from(BACKENDS))]
    if kind == 'read':
        node = pick(lambda n: sp.is_leaf(n[1]) and n[2] is None)
        if node:
            return ['read', list(node[0])]
    if kind == 'invalid':
        node = pick(lambda n: sp.is_leaf(n[1]))
        if node:
            value = draw(gen.loose_value(node[1]))
            new = sp.set_state(copy.deepcopy(state), node[0], value)
            if backend in backends_for(spec, new) and independents_ok(
                    spec, new):
                return ['invalid', list(node[0]), value]
    if kind in ('element', 'size'):
        node = pick(lambda n: n[1]['t'] == 'Array' and n[2] is not None)
        if node:
            shape = list(node[2][2])
            if kind == 'element':
                key = draw(st.sampled_from(
                    [100, -100, ['t', 0, 100], ['t'] + [0] * 5, 'x',
                     ['s', None, None, None], '...']))
                wrong = draw(st.sampled_from(
                    [['arr', 'float64', [7, 11], [1.0]], ['str', 'abc'],
                     ['none'], ['int', 1]]))
                if key in ('...', ['s', None, None, None]):
                    wrong = ['arr', 'float64', [7, 11], [1.0]]
                return ['element', list(node[0]), key, wrong]
            size = draw(st.sampled_from(
                [shape + [2], shape[1:], [-1] * len(shape), [2 ** 62] * 3,
                 [10 ** 15] * max(1, len(shape)), [9] * len(shape)]))
            return ['size', list(node[0]), size]
    if kind == 'missing':
        node = pick(lambda n: not sp.is_leaf(n[1]))
        if node:
            return ['missing', list(node[0])]
    node = pick(lambda n: sp.is_leaf(n[1]))
    if node:
        return ['value', list(node[0]), draw(bad_value(node[1]))]
    return None


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    state = draw(gen.valid_state(spec))
    backend = draw(st.sampled_from(BACKENDS))
    steps, now = [], state
    for _ in range(draw(st.integers(2, 9))):
        step = None
        if draw(st.integers(0, 3)):
            step = draw(refused(spec, now, backend))
            if step and step[0] == 'invalid':
                now = sp.set_state(copy.deepcopy(now), step[1], step[2])
        elif not sp.tree_violations(spec, now):
            op = draw(history.operation(spec, now, history.DEFAULT_KINDS))
            new = history.apply_model(spec, now, op)
            if independents_ok(spec, new):
                step = ['do', op]
                now = new
        if step:
            steps.append(step)
    return {'spec': spec, 'state': state, 'backend': backend, 'steps': steps}


def strategy():
    return strategy_().filter(lambda case: case['steps'] and independents_ok(
        case['spec'], case['state']))


def classify(case):
    kinds = {step[0] for step in case['steps']}
    tags = {case['backend']} | kinds
    for step in case['steps']:
        if step[0] == 'value' and case['backend'] != 'inmem':
            tags.add('bad value, file backend')
    if len(kinds - {'do', 'value', 'element', 'size', 'entry'}) > 1 or \
            case['backend'] == 'hdf5' and len(kinds - {'do'}) > 1:
        tags.add('nontrivial')
    return sorted(tags)


class Session:
    def __init__(self, case, scratch):
        self.spec, self.backend = case['spec'], case['backend']
        self.scratch = scratch
        self.path = storage_path(scratch, self.backend)
        self.storage = dsch.create(self.path, sp.build(self.spec))
        self.state = copy.deepcopy(case['state'])
        sp.fill(self.storage.data, self.spec, self.state)

    def look(self, what):
        sp.expect_state(self.storage.data, self.spec, self.state, what)

    def reset(self, path):
        """Bring a node back to its state after something was accepted."""
        node = sp.node_at(self.storage.data, path)
        spec = sp.spec_at(self.spec, path)
        node.clear()
        sp.fill(node, spec, sp.state_at(self.state, path))

    def step(self, number, step):
        kind, path = step[0], step[1]
        what = '{} step {} ({})'.format(self.backend, number, kind)
        if kind == 'do':
            history.apply_dsch(self.spec, self.storage.data, path)
            self.state = history.apply_model(self.spec, self.state, path)
        else:
            what += ' at "{}"'.format(sp.path_str(path))
            node = sp.node_at(self.storage.data, path)
            getattr(self, 'do_' + kind)(node, step, what)
        self.look(what)

    # -- Operations that are always refused --------------------------------

    def do_attr(self, node, step, what):
        _, _, name, value, delete = step
        names = [n for n, _ in sp.spec_at(self.spec, step[1])['fields']]
        if delete and name in names:
            try:
                delattr(node, name)
            except Exception:
                return
            raise Violation('{}: field {!r} could be deleted'.format(
                what, name))
        try:
            setattr(node, name, decode(value))
        except dsch.exceptions.ResetSubnodeError as err:
            require('"{}'.format(name) in str(err),
                    '{}: the error does not name {!r}: {}', what, name, err)
        else:
            raise Violation('{}: assigning to {!r} is accepted'.format(
                what, name))

    def do_item(self, node, step, what):
        _, _, idx, value, delete = step
        key = idx if isinstance(idx, (int, str)) else history.dec_key(idx)
        if delete:
            try:
                del node[key]
            except Exception:
                return
            raise Violation('{}: entry {!r} could be deleted'.format(what,
                                                                     key))
        try:
            node[key] = decode(value)
        except dsch.exceptions.ResetSubnodeError as err:
            require('[{}]'.format(key) in str(err),
                    '{}: the error does not name [{}]: {}', what, key, err)
        else:
            raise Violation('{}: assigning to [{}] is accepted'.format(what,
                                                                       key))

    def do_load_from(self, node, step, what):
        _, _, other, source_state, backend = step
        source = dsch.create(storage_path(self.scratch, backend, 'source'),
                             sp.build(other))
        sp.fill(source.data, other, source_state)
        try:
            node.load_from(source.data)
        except dsch.exceptions.IncompatibleNodesError as err:
            own = sp.canon_hash(sp.spec_at(self.spec, step[1]))
            require(own in str(err) and sp.canon_hash(other) in str(err),
                    '{}: the error does not name both schemas: {}', what, err)
        else:
            raise Violation('{}: loading from another schema is accepted'
                            .format(what))
        sp.expect_state(source.data, other, source_state, what + ', source')
        if backend != 'inmem':
            path = source.storage_path
            del source
            end_session_of(path)
            if os.path.exists(path):
                os.unlink(path)

    def do_read(self, node, step, what):
        try:
            value = node.value
        except dsch.exceptions.NodeEmptyError:
            return
        raise Violation('{}: reading an empty node gives {}'.format(
            what, sp.short(value)))

    def do_missing(self, node, step, what):
        spec = sp.spec_at(self.spec, step[1])
        state = sp.state_at(self.state, step[1])
        try:
            if spec['t'] == 'List':
                found = node[len(state)]
            else:
                found = node.no_such_field
        except Exception:
            return
        raise Violation('{}: something that does not exist is {!r}'.format(
            what, found))

    def do_invalid(self, node, step, what):
        node.value = sp.decode(step[2])
        self.state = sp.set_state(self.state, step[1], copy.deepcopy(step[2]))
        self.look(what + ', assigned')
        bad = sp.tree_violations(self.spec, self.state)
        before = None
        if self.backend in ('npz', 'mat'):
            self.storage.save(force=True)
            before = read_bytes(self.path)
        calls = [('validating', self.storage.validate)]
        if self.backend != 'inmem':
            calls.append(('saving', self.storage.save))
        for name, call in calls:
            try:
                call()
            except (dsch.exceptions.ValidationError,
                    dsch.exceptions.SubnodeValidationError):
                require(bad, '{}: {} valid data is refused', what, name)
            else:
                require(not bad, '{}: {} invalid data is accepted', what,
                        name)
            self.look('{}, {}'.format(what, name))
        if bad and before is not None:
            require(read_bytes(self.path) == before,
                    '{}: refused saving changed the file', what)

    # -- Operations that a backend may accept or refuse --------------------

    def attempt(self, step, what, call):
        try:
            call()
        except Violation:
            raise
        except Exception:
            self.look(what + ', refused')
        else:
            self.reset(step[1])

    def do_value(self, node, step, what):
        def call():
            node.value = decode(step[2])
        self.attempt(step, what, call)

    def do_entry(self, node, step, what):
        tree = build_tree(step[2])
        expected = self.alone(sp.spec_at(self.spec, step[1])['sub'], tree)
        size = len(node)

        def call():
            node.append(tree)
            got = (len(node) - size, node[-1].empty, node[-1].complete)
            if got != (1,) + (expected or ()):
                raise Violation('{}: accepted: {} new, empty {}, complete {}; '
                                'alone: {}'.format(what, *got, expected
                                                   or 'refused'))
        self.attempt(step, what, call)

    def alone(self, spec, tree):
        """What becomes of a new storage given the tree; None: refused."""
        storage = dsch.create(storage_path(self.scratch, self.backend, 'alone'),
                              sp.build(spec))
        try:
            # For list entries, None stands for no value.
            if tree is not None:
                storage.data.replace(tree)
            return storage.data.empty, storage.data.complete
        except Exception:
            return None
        finally:
            if self.backend == 'hdf5':
                path = storage.storage_path
                del storage
                end_session_of(path)
                os.unlink(path)

    def do_element(self, node, step, what):
        key = step[2] if isinstance(step[2], (int, str)) and \
            step[2] != '...' else history.dec_key(step[2])

        def call():
            node[key] = decode(step[3])
        self.attempt(step, what, call)

    def do_size(self, node, step, what):
        self.attempt(step, what, lambda: node.resize(tuple(step[2])))


def end_session_of(path):
    """Close a single HDF5 file."""
    import h5py
    from h5py import h5f, h5i
    kinds = h5f.OBJ_FILE | h5f.OBJ_DATASET | h5f.OBJ_GROUP
    for obj in h5f.get_obj_ids(h5f.OBJ_ALL, kinds):
        if obj.valid:
            fid = h5i.get_file_id(obj)
            if h5f.get_name(fid).decode() == path:
                h5py.File(fid).close()


def check(case, scratch):
    session = Session(case, scratch)
    session.look(case['backend'] + ' filled')
    for number, step in enumerate(case['steps']):
        session.step(number, step)
    if case['backend'] == 'inmem':
        return
    what = case['backend'] + ' saved and reloaded'
    if case['backend'] == 'mat' and 'mat' not in backends_for(
            session.spec, session.state):
        return
    session.storage.save(force=True)
    session.storage = None
    end_session()
    session.storage = dsch.load(session.path, force=True)
    if case['backend'] == 'mat':
        if 'mat' not in files_for(session.spec, session.state):
            return
    session.look(what)
