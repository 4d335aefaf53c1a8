"""C14 Emptiness and completeness reflect exactly what is filled."""
import copy

from hypothesis import strategies as st

import dsch
from dschpbt import gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, storage_path

QUICK, THOROUGH = 8400, 250000
RULE = ('case = schema with nested optional fields, a state that is complete or nearly complete (a few required or '
        'optional items missing), and a history of filling, clearing and reloading on one backend; empty, complete and '
        'reading of every node compared with a reference after each step; non-trivial = the storage is complete in one '
        'state and not in another, or a compilation or list with content is cleared')
CFG = {'depths': [1, 2, 2, 3, 3], 'width': 4, 'soc': 'yes',
       'constraints': False, 'optional': True}
KINDS = ('set', 'set', 'replace', 'append', 'append', 'clear', 'clear',
         'clear', 'copy')


@st.composite
def with_optionals(draw, spec):
    """The spec with other sets of optional fields, often collections."""
    if spec['t'] == 'Comp':
        names = [n for n, _ in spec['fields']]
        fields = [[n, draw(with_optionals(s))] for n, s in sp.fields(spec)]
        opt = [n for n, s in fields
               if draw(st.integers(0, 2 if sp.is_leaf(s) else 1)) == 0]
        if opt and draw(st.integers(0, 3)) == 0:
            # A name may be given more than once.
            opt.append(draw(st.sampled_from(opt)))
        return dict(spec, fields=fields, opt=draw(st.permutations(opt))
                    if names else [])
    if spec['t'] == 'List':
        return dict(spec, sub=draw(with_optionals(spec['sub'])))
    return spec


@st.composite
def nearly_complete(draw, spec):
    state = draw(gen.valid_state(spec, 1.0))
    leaves = [p for p, s, now in sp.paths(spec, state)
              if sp.is_leaf(s) and now is not None]
    if leaves:
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            state = sp.set_state(state, draw(st.sampled_from(leaves)), None)
    return state


@st.composite
def strategy_(draw):
    spec = draw(with_optionals(draw(gen.top_spec(
        dict(CFG, wide_names='some')))))
    state = draw(st.one_of(nearly_complete(spec), gen.valid_state(spec),
                           st.just(sp.blank(spec))))
    backend = draw(st.sampled_from([
        b for b in BACKENDS if b != 'mat' or gen.mat_names(spec)]))
    steps = []
    now = state
    for _ in range(draw(st.integers(0, 6))):
        if backend != 'inmem' and draw(st.integers(0, 4)) == 0:
            steps.append(['reload'])
            continue
        missing = [(p, s) for p, s, x in sp.paths(spec, now)
                   if sp.is_leaf(s) and x is None]
        if missing and draw(st.integers(0, 2)) == 0:
            path, sub = draw(st.sampled_from(missing))
            op = ['set', list(path), draw(gen.valid_value(sub))]
        else:
            op = draw(history.operation(spec, now, KINDS))
        steps.append(op)
        now = history.apply_model(spec, now, op)
    return {'spec': spec, 'state': state, 'backend': backend, 'steps': steps}


def strategy():
    return strategy_()


def classify(case):
    spec, now = case['spec'], case['state']
    tags = {case['backend'], case['spec']['t']}
    seen = {sp.is_complete(spec, now)}
    for step in case['steps']:
        if step[0] == 'reload':
            tags.add('reload')
            continue
        if step[0] == 'clear':
            sub = sp.spec_at(spec, step[1])
            if not sp.is_leaf(sub) and not sp.is_empty(
                    sub, sp.state_at(now, step[1])):
                tags |= {'clear filled ' + sub['t'], 'nontrivial'}
        now = history.apply_model(spec, now, step)
        seen.add(sp.is_complete(spec, now))
    for flag in seen:
        tags.add('complete' if flag else 'incomplete')
    if len(seen) == 2:
        tags.add('nontrivial')
    if True in seen and any(
            sub['t'] == 'Comp' and any(
                not sp.is_complete(dict(sp.fields(sub))[n], state[n])
                for n in sub.get('opt') or [])
            for _, sub, state in sp.paths(spec, now)):
        tags.add('incomplete optional field')
    return sorted(tags)


def look(storage, spec, state, what):
    sp.expect_state(storage.data, spec, state, what)
    expected = sp.is_complete(spec, state)
    require(bool(storage.complete) == expected,
            '{}: storage.complete is {!r}, expected {!r}', what,
            storage.complete, expected)
    for path, sub, now in sp.paths(spec, state):
        node = sp.node_at(storage.data, path)
        require(type(node.empty) is bool and type(node.complete) is bool,
                '{}: "{}": empty and complete are {!r} and {!r}', what,
                sp.path_str(path), node.empty, node.complete)
        if sp.is_leaf(sub) and now is None:
            try:
                node[()] if sub['t'] == 'Array' else node.value
            except dsch.exceptions.NodeEmptyError:
                pass
            except Exception:
                require(sub['t'] == 'Array', '{}: "{}": wrong error', what,
                        sp.path_str(path))
            else:
                require(False, '{}: "{}": no error when reading', what,
                        sp.path_str(path))


def check(case, scratch):
    spec, backend = case['spec'], case['backend']
    path = storage_path(scratch, backend)
    storage = dsch.create(path, sp.build(spec))
    state = copy.deepcopy(case['state'])
    sp.fill(storage.data, spec, state)
    look(storage, spec, state, backend + ' filled')
    steps = list(case['steps'])
    if backend != 'inmem':
        steps.append(['reload'])
    for number, step in enumerate(steps):
        what = '{} step {} ({})'.format(backend, number, step[0])
        if step[0] == 'reload':
            storage.save(force=True)
            storage = None
            end_session()
            storage = dsch.load(path, force=True)
        else:
            history.apply_dsch(spec, storage.data, step)
            state = history.apply_model(spec, state, step)
        look(storage, spec, state, what)
    # In the end, clear everything node by node, starting at any depth.
    for sub_path in sorted((p for p, _, _ in sp.paths(spec, state)),
                           key=lambda p: (len(p), str(p))):
        try:
            sub = sp.spec_at(spec, sub_path)
            now = sp.state_at(state, sub_path)
        except IndexError:
            continue
        if not sub_path and spec['t'] == 'Comp':
            continue
        sp.node_at(storage.data, sub_path).clear()
        state = sp.set_state(state, sub_path, history.clear_state(sub, now))
        look(storage, spec, state, '{} clear "{}"'.format(
            backend, sp.path_str(sub_path)))
    storage.data.clear()
    state = history.clear_state(spec, state)
    look(storage, spec, state, backend + ' all cleared')
