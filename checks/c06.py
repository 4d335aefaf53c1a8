"""C06 Dependent arrays must match their independent variables."""
from hypothesis import strategies as st

import dsch
from dschpbt import gen, history
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, storage_path
from dschpbt.oracle import below, expect_valid

QUICK, THOROUGH = 8400, 120000
RULE = ('case = compilation (top level, in a list or nested) with independent and dependent arrays in any field order, '
        'one to three dimensions, some undeclared, and a history of assignments, resizes, clears, replacements and '
        'reloads on all backends; validation outcome, path and reported sizes are compared with a reference after '
        'every operation; non-trivial = the history contains both a mismatch and a match of filled arrays')
ASSUMPTIONS = ['Independent variables are one-dimensional arrays, as documented.']
KINDS = ('set', 'set', 'set', 'set', 'resize', 'resize', 'resize', 'clear',
         'replace', 'copy')


def array(dtype='float64', ndim=1, deps=None, **kwargs):
    return dict({'t': 'Array', 'dtype': dtype, 'unit': '', 'max_shape': None,
                 'min_shape': None, 'ndim': ndim, 'max_value': None,
                 'min_value': None, 'depends_on': deps}, **kwargs)


@st.composite
def compilation(draw):
    independents = ['t', 's', 'w'][:draw(st.integers(1, 3))]
    fields = [[name, array(draw(st.sampled_from(['float64', 'int32'])))]
              for name in independents]
    dependents = ['u', 'v'][:draw(st.sampled_from([1, 1, 1, 2]))]
    usable = list(independents)
    for name in dependents:
        ndim = draw(st.sampled_from([1, 1, 2, 2, 3]))
        deps = [draw(st.sampled_from(usable + usable + [None]))
                for _ in range(ndim)]
        extra = {}
        if ndim == 1 and draw(st.booleans()) and deps[0]:
            extra['dep_str'] = True
        fields.append([name, array(draw(st.sampled_from(
            ['float64', 'int16', 'complex64'])), ndim, deps, **extra)])
        if ndim == 1:
            usable.append(name)
    if draw(st.integers(0, 3)) == 0:
        fields.append(['note', {'t': 'Bool'}])
    fields = draw(st.permutations(fields))
    return {'t': 'Comp', 'fields': [list(f) for f in fields],
            'opt': draw(st.sampled_from([None, ['t']]))}


@st.composite
def sizes(draw, spec, state):
    """A value whose shape is often, but not always, the right one."""
    shape = [draw(st.integers(0, 4)) for _ in range(spec['ndim'])]
    known = sp.independent_sizes(spec, state)
    for dim, size in enumerate(known or ()):
        if size is not None and draw(st.integers(0, 3)):
            shape[dim] = size
    if not spec['depends_on'] and draw(st.booleans()):
        # Follow an already assigned dependent array.
        shape = [draw(st.sampled_from([2, 3]))]
    if gen.too_big(shape):
        shape = [size % 4 for size in shape]
    return shape


@st.composite
def operation(draw, spec, state):
    nodes = [n for n in sp.paths(spec, state) if n[1]['t'] == 'Array']
    kind = draw(st.sampled_from(['set', 'set', 'set', 'set', 'resize',
                                 'resize', 'clear', 'other', 'reload']))
    if kind == 'reload':
        return ['reload']
    if kind == 'other' or not nodes:
        op = draw(history.operation(spec, state, ('replace', 'append',
                                                  'copy')))
        return op
    path, sub, now = draw(st.sampled_from(nodes))
    if kind == 'clear':
        return ['clear', list(path)]
    shape = draw(sizes(sub, sp.state_at(state, path[:-1])))
    if kind == 'resize' and now is not None:
        return ['resize', list(path), shape]
    return ['set', list(path), draw(gen.array_of(sub['dtype'], shape))]


@st.composite
def strategy_(draw):
    spec = draw(compilation())
    where = draw(st.sampled_from(['top', 'top', 'list', 'nested']))
    if where == 'list':
        spec = {'t': 'List', 'sub': spec, 'min': None, 'max': None}
    elif where == 'nested':
        # A field of the same name one level up must not be used.
        spec = {'t': 'Comp', 'fields': [['t', array()], ['sub', spec]]}
    state = sp.blank(spec)
    ops = []
    if where == 'list':
        ops.append(['append', [], None])
        state = [sp.blank(spec['sub'])]
    for _ in range(draw(st.integers(2, 9))):
        op = draw(operation(spec, state))
        ops.append(op)
        state = step(spec, state, op)
    return {'spec': spec, 'ops': ops}


def step(spec, state, op):
    return state if op[0] == 'reload' else history.apply_model(spec, state, op)


def strategy():
    return strategy_()


def classify(case):
    spec, state = case['spec'], sp.blank(case['spec'])
    tags = {spec['t']}
    outcomes = set()
    for op in case['ops']:
        state = step(spec, state, op)
        tags.add('op ' + op[0])
        bad = sp.tree_violations(spec, state)
        if bad:
            outcomes.add('mismatch')
        for path, sub, now in sp.paths(spec, state):
            if now is None or sub['t'] != 'Array' or not sub['depends_on'] \
                    or path in bad:
                continue
            known = sp.independent_sizes(sub, sp.state_at(state, path[:-1]))
            if any(x is not None for x in known):
                outcomes.add('match')
            if any(x is None and name for x, name in
                   zip(known, sub['depends_on'])):
                tags.add('independent variable empty')
            if None in sub['depends_on']:
                tags.add('undeclared dimension')
    tags.update(outcomes)
    if len(outcomes) == 2:
        tags.add('nontrivial')
    return sorted(tags)


def check(case, scratch):
    spec = case['spec']
    for backend in BACKENDS:
        path = storage_path(scratch, backend)
        storage = dsch.create(path, sp.build(spec))
        state = sp.blank(spec)
        for number, op in enumerate(case['ops']):
            what = '{} after operation {} {}'.format(backend, number,
                                                     sp.short(op))
            if op[0] == 'reload':
                if backend != 'inmem':
                    storage.save(force=True)
                    del storage
                    end_session()
                    storage = dsch.load(path, force=True)
            else:
                history.apply_dsch(spec, storage.data, op)
            state = step(spec, state, op)
            sp.expect_state(storage.data, spec, state, what)
            bad = sp.tree_violations(spec, state)
            expect_valid(storage, spec, bad, what + ', storage')
            for where, sub, now in sp.paths(spec, state):
                if sub['t'] in ('Array', 'Comp'):
                    expect_valid(sp.node_at(storage.data, where), sub,
                                 below(bad, where), '{}, node "{}"'.format(
                                     what, sp.path_str(where)))
