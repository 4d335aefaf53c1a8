"""C19 The printed tree shows every node with its current state."""
import copy
import re

import numpy as np
from hypothesis import strategies as st

import dsch
from checks.c07 import WRONG
from dschpbt import gen, history, oracle, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, storage_path

QUICK, THOROUGH = 5200, 150000
RULE = ('case = schema tree, (possibly invalid) data and a short history; after every step the printed tree of every node '
        'on every backend that can hold the data is compared with a reference: names, indices, types, nesting, values, '
        'units, shapes; non-trivial = a list within the tree has at least two entries, or at least three fields on two '
        'levels')
CFG = {'depths': [0, 1, 2, 2, 3, 4], 'width': 4, 'soc': 'yes',
       'depends': False}
KINDS = ('set', 'set', 'append', 'append', 'clear', 'replace', 'resize',
         'copy')
DRAWING = ' \u2502\u251c\u2514\u2500|+-`\\'


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(dict(CFG, wide_names='some')))
    if draw(st.integers(0, 3)) == 0:
        return {'spec': spec, 'ops': [], 'state': draw(
            gen.spoiled_state(spec, dtypes_too=True, wrong=WRONG))}
    state = draw(st.one_of(gen.valid_state(spec), gen.valid_state(spec, 0.4),
                           st.just(sp.blank(spec))))
    return {'spec': spec, 'state': state, 'ops': draw(history.history(
        spec, state, KINDS, min_ops=0, max_ops=3))}


def strategy():
    return strategy_()


def classify(case):
    spec, state = case['spec'], case['state']
    state = history.run_model(spec, state, case['ops'])[-1]
    tags = {spec['t']} | {'op ' + op[0] for op in case['ops']}
    nodes = list(sp.paths(spec, state))
    if any(sub['t'] == 'List' and len(now) > 1 for _, sub, now in nodes):
        tags |= {'nontrivial', 'long list'}
    if any(sub['t'] == 'List' and len(now) > 10 for _, sub, now in nodes):
        tags.add('list with index 10')
    if len(nodes) > 3 and any(len(path) > 1 for path, _, _ in nodes):
        tags |= {'nontrivial', 'tree'}
    for _, sub, now in nodes:
        if sp.is_leaf(sub):
            tags.add(sub['t'] + (' empty' if now is None else ' filled'))
            if now is not None and '\n' in str(sp.decode(now)):
                tags.add('line break')
    if sp.tree_violations(spec, state):
        tags.add('invalid')
    return sorted(tags)


def shown(spec, state):
    """Possible texts for the state of an item."""
    if state is None:
        return ['<empty>']
    value = sp.decode(state)
    unit = ' ' + (spec.get('unit') or '')
    if spec['t'] == 'Array':
        if isinstance(value, np.ndarray):
            texts = ['x'.join(map(str, value.shape)) + ' array']
        else:
            texts = [str(value), repr(value)]
        return texts + [text + unit for text in texts]
    texts = [str(value), repr(value)]
    if spec['t'] == 'Scalar' and np.ndim(value) == 0:
        # For some types, this differs from the above.
        texts.insert(0, format(value))
    return [text + unit for text in texts]


def expect_label(label, prefix, spec, state, what):
    """prefix: name or index within the parent, None for the root."""
    kind = sp.type_name(spec)
    require(isinstance(label, str), '{}: label {!r}', what, label)
    text = label
    if prefix is not None:
        require(text.startswith(prefix + ' '), '{}: {!r} is not shown as '
                '{!r}', what, label, prefix)
        text = text[len(prefix) + 1:]
    head = '(' + kind + ')'
    require(text.startswith(head), '{}: {!r} does not show the type {}', what,
            label, head)
    text = text[len(head):]
    if not sp.is_leaf(spec):
        require(text.strip(' :') == '', '{}: {!r} for a {}', what, label, kind)
        return
    require(text.startswith(': ') and any(
        text[2:].strip() == option.strip() for option in shown(spec, state)),
            '{}: {!r} does not show {}', what, label, shown(spec, state)[0])


def expect_tree(tree, prefix, spec, state, what):
    require(isinstance(tree, dict) and len(tree) == 1, '{}: tree is {!r}',
            what, tree)
    label, below = next(iter(tree.items()))
    expect_label(label, prefix, spec, state, what)
    expect_children(below, spec, state, what)


def expect_children(below, spec, state, what):
    if spec['t'] == 'Comp':
        items = [(name, sub, state[name]) for name, sub in sp.fields(spec)]
    elif spec['t'] == 'List':
        items = [('[{}]'.format(i), spec['sub'], item)
                 for i, item in enumerate(state)]
    else:
        items = []
    require(len(below) == len(items), '{}: {} entries shown, expected {}: {}',
            what, len(below), len(items), list(below))
    for name, sub, now in items:
        labels = [x for x in below if x.startswith(name + ' (')]
        require(len(labels) == 1, '{}: {} shown {} times in {}', what, name,
                len(labels), list(below))
        expect_tree({labels[0]: below[labels[0]]}, name, sub, now,
                    what + ' ' + name)


def preorder(tree, depth=0):
    for label, below in tree.items():
        yield depth, label
        yield from preorder(below, depth + 1)


def expect_drawing(text, tree, what):
    """Every label of the tree in its own line, indented by its level."""
    lines = text.split('\n')
    position = 0
    indents = {}
    for depth, label in preorder(tree):
        parts = label.split('\n')
        require(position + len(parts) <= len(lines), '{}: {!r} is missing in '
                'the printed tree:\n{}', what, label, text)
        first = lines[position]
        # Names may begin with a space, like the drawing.
        bare = parts[0] if first.endswith(parts[0]) and not first[
            :len(first) - len(parts[0])].strip(DRAWING) else first
        require(bare == parts[0], '{}: {!r} printed as {!r}', what, parts[0],
                first)
        indent = len(first) - len(bare)
        require(indents.setdefault(depth, indent) == indent
                and (depth == 0 or indents[depth - 1] < indent),
                '{}: {!r} is not at its level in\n{}', what, label, text)
        position += len(parts)
    require(position == len(lines), '{}: printed tree has {} lines, expected '
            '{}', what, len(lines), position)


def look(storage, spec, state, what):
    """Returns all printed trees."""
    out = []
    for path, sub, now in sp.paths(spec, state):
        node = sp.node_at(storage.data, path)
        name = '{} "{}"'.format(what, sp.path_str(path))
        tree = node.node_tree()
        expect_tree(tree, None, sub, now, name)
        text = repr(node)
        require(str(node) == text, '{}: str and repr differ', name)
        expect_drawing(text, tree, name)
        out.append(text)
    return out


def compare(storages, spec, state, what):
    printed = {name: look(storage, spec, state, name + ' ' + what)
               for name, storage in storages.items()}
    first = next(iter(printed))
    for name, texts in printed.items():
        for one, other in zip(printed[first], texts):
            require(one == other, '{}: printed trees differ: {}\n{}\n{}\n{}',
                    what, first, one, name, other)


def check(case, scratch):
    spec, state = case['spec'], copy.deepcopy(case['state'])
    names = [n for n in BACKENDS if n in oracle.backends_for(spec, state)]
    storages = {name: dsch.create(storage_path(scratch, name), sp.build(spec))
                for name in names}
    for storage in storages.values():
        sp.fill(storage.data, spec, state)
    compare(storages, spec, state, 'filled')
    for number, op in enumerate(case['ops']):
        state = history.apply_model(spec, state, op)
        for storage in storages.values():
            history.apply_dsch(spec, storage.data, op)
        compare(storages, spec, state, 'step {} ({})'.format(number, op[0]))
    files = [n for n in names if n in oracle.files_for(spec, state)]
    for name in files:
        storages.pop(name).save(force=True)
    if not files:
        return
    end_session()
    again = {name: dsch.load(storage_path(scratch, name), force=True)
             for name in files}
    # The fields may be in another order than in the in-memory tree.
    compare(again, spec, state, 'reloaded')
