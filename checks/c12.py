"""C12 Pseudo-storages give uniform access to storages and nodes."""
import copy
import os

from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen, history, require
from dschpbt import spec as sp
from dschpbt.files import copy_of, end_session, read_bytes, \
    storage_path

QUICK, THOROUGH = 8400, 120000
RULE = ('case = primary schema, accepted alternatives (as schema or hash), a path (new or with an existing file) or a '
        'data node, and a history of opening, closing, with blocks (also left by an exception), edits, and the file '
        'being removed or replaced while closed; every step compared with a model of the data, the file and what is '
        'accessible; non-trivial = at least two openings, a refused schema, or an alternative schema in use')
CFG = {'depths': [0, 1, 1, 2, 2], 'width': 3, 'depends': False}


class Boom(Exception):
    """Raised inside a with block."""


class Model:
    """What a pseudo-storage and its target should look like.

    file: None or (spec, state) on disk; current: None or (spec, state).
    """

    def __init__(self, case):
        self.primary = case['primary']
        self.admitted = {sp.canon_hash(s) for s in
                         [case['primary']] + [a[1] for a in case['alts']]}
        self.node = case['place'] is not None
        self.memory = case['backend'] == 'inmem'
        self.file = None
        self.current = None
        self.used = []
        if case['actual'] is not None:
            self.file = (case['actual'], case['state'])

    def admits(self):
        return self.file is None or \
            sp.canon_hash(self.file[0]) in self.admitted

    def open(self):
        """Open; return False if that is refused."""
        if not self.admits():
            self.used.append('refused')
            return False
        if self.file is None:
            self.current = (self.primary, sp.blank(self.primary))
        else:
            self.current = copy.deepcopy(self.file)
        self.used.append('opened')
        if sp.canon_hash(self.current[0]) != sp.canon_hash(self.primary):
            self.used.append('alternative')
        return True

    def edit(self, op):
        self.current = (self.current[0],
                        history.apply_model(self.current[0], self.current[1],
                                            op))

    def close(self):
        if self.current is not None and not (self.memory and not self.node):
            self.file = self.current
        self.current = None


def usable(spec):
    """Whether a new storage of the spec holds valid data."""
    return gen.sane(spec) and not sp.tree_violations(spec, sp.blank(spec))


@st.composite
def edits(draw, current, most):
    """Valid operations, from valid states to valid states."""
    spec, state = current
    ops = []
    for _ in range(draw(st.integers(0, most))):
        op = draw(history.operation(spec, state, history.DEFAULT_KINDS))
        new = history.apply_model(spec, state, op)
        if not sp.tree_violations(spec, new):
            ops.append(op)
            state = new
    return ops


@st.composite
def schema_like(draw, spec):
    """The spec, or one that differs in one option."""
    if draw(st.integers(0, 3)) == 0:
        return draw(gen.permuted(spec))
    other = draw(gen.mutated(spec, depends=False))
    return other if usable(other) else spec


@st.composite
def valid(draw, spec):
    state = draw(gen.valid_state(spec))
    return sp.blank(spec) if sp.tree_violations(spec, state) else state


@st.composite
def strategy_(draw):
    primary = draw(gen.top_spec(CFG).filter(usable))
    pool = [draw(schema_like(primary)) for _ in range(draw(
        st.sampled_from([2, 2, 1, 0, 5])))]
    case = {'primary': primary, 'alts': [], 'backend': draw(
        st.sampled_from(
            ('npz', 'hdf5', 'mat', 'npz', 'hdf5', 'mat', 'inmem'))), 'place': None, 'actual': None,
        'state': None, 'defer': draw(st.booleans()),
        'form': draw(st.sampled_from(['list', 'tuple', 'iterator', 'dict']))}
    for other in pool:
        if len(pool) > 2 or draw(st.booleans()):
            case['alts'].append([draw(st.sampled_from(['schema', 'hash'])),
                                 other])
    if draw(st.integers(0, 2)) == 0:
        case['place'] = draw(st.sampled_from(['top', 'field', 'entry']))
    if case['place'] is not None or (case['backend'] != 'inmem'
                                     and draw(st.booleans())):
        case['actual'] = draw(st.sampled_from(pool + [primary]))
        case['state'] = draw(valid(case['actual']))
    model = Model(case)
    steps = []
    if not case['defer']:
        model.open()
    for _ in range(draw(st.integers(1, 7))):
        kinds = ['open', 'with', 'with', 'close']
        if model.current is not None:
            kinds = ['edit', 'edit', 'edit', 'close', 'close', 'with', 'open']
        elif case['place'] is None and case['backend'] != 'inmem':
            kinds += ['delete', 'put']
        kind = draw(st.sampled_from(kinds))
        if kind == 'open':
            steps.append(['open'])
            if model.current is None:
                model.open()
        elif kind == 'close':
            steps.append(['close'])
            model.close()
        elif kind == 'edit':
            for op in draw(edits(model.current, 3)):
                steps.append(['edit', op])
                model.edit(op)
        elif kind == 'with':
            ops = []
            if model.current is not None or model.open():
                ops = draw(edits(model.current, 3))
                for op in ops:
                    model.edit(op)
                model.close()
            steps.append(['with', ops, draw(st.booleans())])
        elif kind == 'delete':
            steps.append(['delete'])
            model.file = None
        else:
            spec = draw(st.sampled_from([primary] + pool))
            state = draw(valid(spec))
            steps.append(['put', spec, state])
            model.file = (spec, state)
    case['steps'] = steps
    return case


def strategy():
    return strategy_()


def classify(case):
    model = Model(case)
    tags = {'node ' + case['place'] if case['place'] else 'path',
            case['backend']}
    if not case['defer']:
        model.open()
    for step in case['steps']:
        tags.add(step[0])
        if step[0] == 'open':
            if model.current is None:
                model.open()
            else:
                tags.add('already open')
        elif step[0] == 'close':
            model.close()
        elif step[0] == 'edit':
            model.edit(step[1])
        elif step[0] == 'with':
            if step[2]:
                tags.add('exception in with')
            if model.current is not None or model.open():
                for op in step[1]:
                    model.edit(op)
                model.close()
        elif step[0] == 'delete':
            model.file = None
        else:
            model.file = (step[1], step[2])
    tags.update(model.used)
    if model.used.count('opened') > 1 or 'refused' in model.used \
            or 'alternative' in model.used:
        tags.add('nontrivial')
    return sorted(tags)


def alternatives(case):
    out = []
    for form, spec in case['alts']:
        out.append(sp.build(spec) if form == 'schema' else sp.canon_hash(spec))
    if case['form'] == 'tuple':
        return tuple(out)
    if case['form'] == 'iterator':
        return iter(out)
    if case['form'] == 'dict':
        # Any iterable will do; keep the order.
        return dict(enumerate(out)).values()
    return out


class World:
    """The real pseudo-storage and its target."""

    def __init__(self, case, scratch):
        self.case = case
        self.model = Model(case)
        self.path = storage_path(scratch, case['backend'], 'p')
        self.outer = self.target = None
        if case['place'] is not None:
            self.make_node(scratch)
        elif case['actual'] is not None:
            self.put(case['actual'], case['state'])
            self.target = self.path
        else:
            self.target = self.path
        self.ps = None

    def put(self, spec, state):
        if os.path.exists(self.path):
            os.unlink(self.path)
        storage = dsch.create(self.path, sp.build(spec))
        sp.fill(storage.data, spec, state)
        storage.save()
        del storage
        end_session()

    def make_node(self, scratch):
        case = self.case
        spec = case['actual']
        if case['place'] == 'field':
            self.outer_spec = {'t': 'Comp', 'fields': [
                ['other', {'t': 'Bool'}], ['part', spec]]}
            self.outer_state = {'other': ['bool', True],
                                'part': case['state']}
            self.where = ('part',)
        elif case['place'] == 'entry':
            self.outer_spec = {'t': 'List', 'sub': spec, 'min': None,
                               'max': None}
            self.outer_state = [sp.blank(spec), case['state']]
            self.where = (1,)
        else:
            self.outer_spec, self.outer_state = spec, case['state']
            self.where = ()
        self.outer_path = storage_path(scratch, case['backend'], 'outer')
        self.outer = dsch.create(self.outer_path, sp.build(self.outer_spec))
        sp.fill(self.outer.data, self.outer_spec, self.outer_state)
        self.outer_bytes = None
        if case['backend'] != 'inmem':
            self.outer.save()
            if case['backend'] != 'hdf5':
                self.outer_bytes = read_bytes(self.outer_path)
        self.target = sp.node_at(self.outer.data, self.where)

    # ----------------------------------------------------------------------

    def expect_closed(self, what):
        for name in ('data', 'storage', 'schema_node'):
            require(getattr(self.ps, name) is None,
                    '{}: {} is {!r} although it is not open', what, name,
                    getattr(self.ps, name))
        self.expect_target(what)

    def expect_open(self, what):
        spec, state = self.model.current
        require(self.ps.data is not None, '{}: no data although it is open',
                what)
        require(self.ps.schema_node is not None and
                self.ps.schema_node.to_json() == sp.canon_json(spec),
                '{}: reports the schema {}, expected {}', what,
                self.ps.schema_node and self.ps.schema_node.to_json(),
                sp.canon_json(spec))
        if self.outer is not None:
            require(self.ps.data is self.target,
                    '{}: data is not the given node', what)
            require(self.ps.storage is None,
                    '{}: manages a storage although a node was given', what)
        else:
            require(self.ps.storage is not None, '{}: no storage', what)
            require(self.ps.storage.schema_node.to_json() ==
                    sp.canon_json(spec), '{}: wrong schema of the storage',
                    what)
            require(self.ps.storage.storage_path == self.path,
                    '{}: storage is at {!r}', what,
                    self.ps.storage.storage_path)
            require(self.ps.storage.data is self.ps.data,
                    '{}: data is not the data of the storage', what)
        sp.expect_state(self.ps.data, spec, state, what)

    def expect_target(self, what):
        """While closed: the given node, or the file at the path."""
        if self.outer is not None:
            self.outer_state = sp.set_state(
                copy.deepcopy(self.outer_state), self.where,
                copy.deepcopy(self.model.file[1]))
            sp.expect_state(self.outer.data, self.outer_spec,
                            self.outer_state, what + ', outer storage')
            if self.outer_bytes is not None:
                require(read_bytes(self.outer_path) == self.outer_bytes,
                        '{}: the outer storage has been saved', what)
            return
        if self.case['backend'] == 'inmem':
            return
        if self.model.file is None:
            require(not os.path.exists(self.path), '{}: a file exists', what)
            return
        require(os.path.exists(self.path), '{}: there is no file', what)
        end_session()
        spec, state = self.model.file
        path = copy_of(self.path)
        storage = dsch.load(path)
        require(storage.schema_node.to_json() == sp.canon_json(spec),
                '{}: the file has the schema {}, expected {}', what,
                storage.schema_node.to_json(), sp.canon_json(spec))
        sp.expect_state(storage.data, spec, state, what + ', file')
        del storage
        end_session()
        os.unlink(path)

    def opening(self, what, call):
        """Open in some way, which must succeed or be refused."""
        before = self.disk()
        if self.model.open():
            call()
            return True
        try:
            call()
        except dsch.exceptions.InvalidSchemaError as err:
            own, actual = (sp.canon_hash(self.model.primary),
                           sp.canon_hash(self.model.file[0]))
            require(own in str(err) and actual in str(err),
                    '{}: the error does not name both schemas: {}', what, err)
        else:
            raise Violation('{}: a schema that is neither the primary one '
                            'nor an alternative is accepted'.format(what))
        require(self.disk() == before, '{}: refusing changed the file', what)
        return False

    def disk(self):
        if self.outer is None and self.case['backend'] in ('npz', 'mat') \
                and os.path.exists(self.path):
            return read_bytes(self.path)
        return None

    def construct(self, defer):
        self.ps = dsch.PseudoStorage(
            self.target, sp.build(self.case['primary']), defer,
            alternatives(self.case) if self.case['alts'] or
            self.case['defer'] else None)

    def start(self):
        if self.case['defer']:
            before = self.disk(), self.outer is None and os.path.exists(
                self.path)
            self.construct(True)
            require((self.disk(), self.outer is None and os.path.exists(
                self.path)) == before, 'deferred opening touched the file')
            self.expect_closed('deferred')
            return
        if self.opening('constructor', lambda: self.construct(False)):
            self.expect_open('constructor')
        else:
            self.construct(True)

    def edit(self, op, what):
        history.apply_dsch(self.model.current[0], self.ps.data, op)
        self.model.edit(op)
        self.expect_open(what + ', after ' + op[0])

    def step(self, step, what):
        kind = step[0]
        before = self.disk()
        if kind == 'open':
            if self.model.current is None:
                self.opening(what, self.ps.open)
            else:
                try:
                    self.ps.open()
                except RuntimeError:
                    pass
                else:
                    raise Violation('{}: opened again'.format(what))
        elif kind == 'close':
            self.ps.close()
            self.model.close()
        elif kind == 'edit':
            self.edit(step[1], what)
            require(self.disk() == before, '{}: editing changed the file',
                    what)
        elif kind == 'with':
            self.with_block(step, what)
        elif kind == 'delete':
            end_session()
            if os.path.exists(self.path):
                os.unlink(self.path)
            self.model.file = None
        else:
            end_session()
            self.put(step[1], step[2])
            self.model.file = (step[1], step[2])
        if self.model.current is None:
            self.expect_closed(what)
        else:
            self.expect_open(what)

    def with_block(self, step, what):
        entered = []

        def body():
            with self.ps as value:
                entered.append(True)
                require(value is self.ps, '{}: with does not provide the '
                        'pseudo-storage', what)
                self.expect_open(what + ', inside')
                for op in step[1]:
                    self.edit(op, what)
                if step[2]:
                    raise Boom()

        def run():
            try:
                body()
            except Boom:
                pass
            else:
                require(not step[2], '{}: exception was swallowed', what)

        if self.model.current is None:
            if self.opening(what, run):
                self.model.close()
        else:
            run()
            self.model.close()


def check(case, scratch):
    world = World(case, scratch)
    world.start()
    for number, step in enumerate(case['steps']):
        world.step(step, '{} {} step {} ({})'.format(
            case['backend'], 'node ' + case['place'] if case['place']
            else 'path', number, step[0]))
    if world.model.current is not None:
        world.step(['close'], 'closing at the end')
    # Closing once more does nothing.
    world.step(['close'], 'closing again')
