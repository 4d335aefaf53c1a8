"""C18 Automatic timestamps are set on creation and only then."""
import copy
import datetime
import os
import time

from hypothesis import strategies as st

import dsch
from dschpbt import gen, history, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, storage_path

QUICK, THOROUGH = 14700, 250000
RULE = ('case = schema with automatic and plain date/time fields and a history of creating the storage and list entries, '
        'editing, clearing, copying and reloading on one backend; the local time zone changes between steps, so that '
        'even dates differ; new automatic fields compared with the clock before and after, everything else with a '
        'reference; non-trivial = a list entry with an automatic field is created, or an automatic field is cleared or '
        'replaced and the storage reloaded afterwards')
ASSUMPTIONS = ['the system clock is not set back while a case runs']
CFG = {'depths': [0, 1, 1, 2, 2, 3], 'width': 4, 'soc': 'yes',
       'constraints': False, 'depends': False,
       'kinds': ('Date', 'DateTime', 'Time') * 2 + sp.LEAVES}
# Between these zones the local date always differs.
ZONES = ('AAA12', 'BBB-14')
KINDS = ('set', 'set', 'clear', 'clear', 'copy')
NEW = ['auto']


def new(spec):
    """State of a new node, where NEW stands for the current moment."""
    if spec['t'] == 'Comp':
        return {name: new(sub) for name, sub in sp.fields(spec)}
    if spec['t'] == 'List':
        return []
    return list(NEW) if spec.get('soc') else None


def merged(spec, state, tree):
    """State after node.replace(plain(spec, tree))."""
    if spec['t'] == 'Comp':
        subs = dict(sp.fields(spec))
        out = dict(state)
        for name, sub in tree.items():
            out[name] = merged(subs[name], state[name], sub)
        return out
    if spec['t'] == 'List':
        return [new(spec['sub']) if item is None else
                merged(spec['sub'], new(spec['sub']), item) for item in tree]
    return tree


def apply_model(spec, state, op):
    if op[0] in ('reload', 'validate', 'export'):
        return state
    if op[0] not in ('append', 'replace'):
        return history.apply_model(spec, state, op)
    state = copy.deepcopy(state)
    sub, now = sp.spec_at(spec, op[1]), sp.state_at(state, op[1])
    if op[0] == 'append':
        item = new(sub['sub'])
        if op[2] is not None:
            item = merged(sub['sub'], item, op[2])
        now = now + [item]
    else:
        now = merged(sub, now, op[2])
    return sp.set_state(state, op[1], copy.deepcopy(now))


@st.composite
def step(draw, spec, now, backend):
    nodes = list(sp.paths(spec, now))
    lists = [n for n in nodes if n[1]['t'] == 'List']
    autos = [n for n in nodes if n[1].get('soc')]
    kind = draw(st.sampled_from(['reload', 'reload', 'append', 'append',
                                 'replace', 'auto', 'auto', 'validate',
                                 'export', 'other', 'other']))
    if kind == 'reload' and backend != 'inmem':
        return ['reload']
    if kind == 'validate':
        return ['validate']
    if kind == 'export':
        return ['export', draw(st.sampled_from(BACKENDS))]
    if kind == 'append' and lists:
        path, sub, _ = draw(st.sampled_from(lists))
        return ['append', list(path), draw(st.one_of(
            st.none(), history.ptree(sub['sub'])))]
    if kind == 'replace':
        path, sub, _ = draw(st.sampled_from(
            [n for n in nodes if not sp.is_leaf(n[1])] or nodes))
        return ['replace', list(path), draw(history.ptree(sub))]
    if kind == 'auto' and autos:
        path, sub, _ = draw(st.sampled_from(autos))
        if draw(st.booleans()):
            return ['clear', list(path)]
        return ['set', list(path), draw(gen.valid_value(sub))]
    return draw(history.operation(spec, now, KINDS))


auto_leaf = st.sampled_from(['Date', 'DateTime', 'Time']).map(
    lambda kind: {'t': kind, 'soc': True})


@st.composite
def auto_list(draw):
    """A schema with a list whose entries are filled automatically."""
    sub = draw(auto_leaf)
    if draw(st.integers(0, 2)):
        others = [draw(gen.leaf_spec(CFG)),
                  draw(gen.node_spec(CFG, 1))][:draw(st.integers(0, 2))]
        names = draw(st.permutations(['when', 'b', 'a']))
        sub = {'t': 'Comp', 'fields': [
            list(x) for x in zip(names, [sub] + others)]}
    spec = {'t': 'List', 'sub': sub, 'min': None, 'max': None}
    if draw(st.integers(0, 3)) == 0:
        spec = {'t': 'List', 'sub': spec, 'min': None, 'max': None}
    if draw(st.integers(0, 3)):
        rest = draw(gen.comp_spec(CFG, 1))
        spec = dict(rest, fields=rest['fields'] + [['runs', spec]])
    return spec


@st.composite
def strategy_(draw):
    if draw(st.booleans()):
        spec = draw(auto_list())
    else:
        spec = draw(gen.top_spec(CFG))
    backend = draw(st.sampled_from(BACKENDS))
    now = new(spec)
    steps = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(step(spec, now, backend))
        steps.append(op)
        now = apply_model(spec, now, op)
    return {'spec': spec, 'backend': backend, 'steps': steps,
            'zone': draw(st.integers(0, 1))}


def strategy():
    return strategy_()


def news(spec, state):
    """Nodes that are to hold the current moment."""
    return [path for path, sub, now in sp.paths(spec, state) if now == NEW]


def classify(case):
    spec, now = case['spec'], new(case['spec'])
    tags = {case['backend']}
    tags |= {'auto ' + sub['t'] for _, sub, _ in sp.paths(spec, now)
             if sub.get('soc')}
    touched = False
    if news(spec, now):
        tags.add('auto at top' if sp.is_leaf(spec) else 'auto field')
    for op in case['steps']:
        before, now = now, apply_model(spec, now, op)
        if op[0] in ('append', 'replace'):
            count = len(news(spec, now)) - len(news(spec, before))
            if count > 0:
                tags |= {'auto by ' + op[0], 'nontrivial'}
        if op[0] == 'reload':
            tags.add('reload')
            if touched:
                tags |= {'nontrivial', 'edited and reloaded'}
        elif op[0] in ('set', 'clear', 'export'):
            tags.add(op[0])
            if op[0] != 'export' and has_auto(spec, before, op[1]):
                touched = True
    return sorted(tags)


def has_auto(spec, state, path):
    sub, now = sp.spec_at(spec, path), sp.state_at(state, path)
    return any(s.get('soc') for _, s, _ in sp.paths(sub, now))


def clock():
    return datetime.datetime.now()


def observed(data, spec, state, span, what):
    """The state with the actual values of the new automatic fields."""
    start, end = span
    for path in news(spec, state):
        kind = sp.spec_at(spec, path)['t']
        node = sp.node_at(data, path)
        name = '{}: automatic {} "{}"'.format(what, kind, sp.path_str(path))
        require(not node.empty, '{} is empty', name)
        value = node.value
        if kind == 'Date':
            good = type(value) is datetime.date and \
                start.date() <= value <= end.date()
            encoded = gen.enc_date(value)
        elif kind == 'DateTime':
            good = type(value) is datetime.datetime and \
                value.tzinfo is None and start <= value <= end
            encoded = gen.enc_datetime(value)
        else:
            good = type(value) is datetime.time and value.tzinfo is None
            if good and start.date() == end.date():
                good = start.time() <= value <= end.time()
            elif good:
                good = value >= start.time() or value <= end.time()
            encoded = gen.enc_time(value)
        require(good, '{} is {!r}, created between {} and {}', name, value,
                start, end)
        state = sp.set_state(state, path, encoded)
    return state


def set_zone(number):
    os.environ['TZ'] = ZONES[number % 2]
    time.tzset()


def check(case, scratch):
    before = os.environ.get('TZ')
    try:
        run(case, scratch)
    finally:
        if before is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = before
        time.tzset()


def run(case, scratch):
    spec, backend = case['spec'], case['backend']
    path = storage_path(scratch, backend)
    zone = case['zone']
    set_zone(zone)
    start = clock()
    storage = dsch.create(path, sp.build(spec))
    span = start, clock()
    state = observed(storage.data, spec, new(spec), span, backend + ' created')
    zone += 1
    set_zone(zone)
    sp.expect_state(storage.data, spec, state, backend + ' created')
    steps = list(case['steps'])
    if backend != 'inmem':
        steps += [['reload'], ['validate'], ['reload']]
    for number, op in enumerate(steps):
        what = '{} step {} ({})'.format(backend, number, op[0])
        zone += 1
        set_zone(zone)
        start = clock()
        if op[0] == 'reload':
            storage.save()
            storage = None
            end_session()
            storage = dsch.load(path)
        elif op[0] == 'validate':
            storage.validate()
        elif op[0] == 'export':
            export(storage, spec, state, op[1], scratch, number, zone)
        else:
            history.apply_dsch(spec, storage.data, op)
        span = start, clock()
        zone += 1
        set_zone(zone)
        state = observed(storage.data, spec, apply_model(spec, state, op),
                         span, what)
        sp.expect_state(storage.data, spec, state, what)


def export(storage, spec, state, backend, scratch, number, zone):
    """Copy everything to a new storage, then reload that one."""
    path = storage_path(scratch, backend, 'export{}'.format(number))
    other = dsch.create(path, sp.build(spec))
    set_zone(zone + 1)
    other.data.load_from(storage.data)
    sp.expect_state(other.data, spec, state, 'copied to ' + backend)
    if backend != 'inmem':
        other.save()
        other = None
        # Only the copy is read again; the storage itself stays open.
        other = dsch.load(path)
        sp.expect_state(other.data, spec, state, 'copied and saved as '
                        + backend)
    set_zone(zone)
