"""C10 Schema hash and equality identify the configuration."""
import json

from hypothesis import strategies as st

import dsch
from dschpbt import gen, require
from dschpbt import spec as sp
from dschpbt.files import BACKENDS, end_session, storage_path

QUICK, THOROUGH = 14700, 600000
RULE = ('case = a schema tree and a second one: with reordered fields, with equivalent arguments (tuple or list, dtype '
        'string or object), with exactly one option changed somewhere, or unrelated; equality and hashes are compared '
        'with those of an independently written JSON form; non-trivial = one option changed below the top level, or '
        'reordered fields')
CFG = {'depths': [0, 1, 2, 2, 3, 3], 'width': 4, 'soc': 'yes',
       'dtype_objects': True}


@st.composite
def variant(draw, spec):
    """The same configuration, stated differently."""
    out = dict(spec)
    if spec['t'] == 'Comp':
        out['fields'] = [[n, draw(variant(sub))] for n, sub in spec['fields']]
        if not spec.get('opt'):
            out['opt'] = draw(st.sampled_from([None, []]))
    elif spec['t'] == 'List':
        out['sub'] = draw(variant(spec['sub']))
    elif spec['t'] in ('Array', 'Scalar'):
        text = sp.dtype_str(spec)
        forms = [text]
        # A string is kept as it is, so only canonical names are equivalent.
        if str(sp.npdtype(spec)) == text:
            forms += [{'np': text}] + (
                [] if text in gen.SWAPPED else [{'type': text}])
        out['dtype'] = draw(st.sampled_from(forms))
        out['np_limits'] = draw(st.booleans())
        out['as_list'] = draw(st.booleans())
        out['dep_str'] = draw(st.booleans())
    return out


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    kind = draw(st.sampled_from(['changed', 'changed', 'changed', 'order',
                                 'variant', 'unrelated']))
    if kind == 'changed':
        other = draw(gen.mutated(spec))
    elif kind == 'order':
        other = draw(gen.permuted(spec))
    elif kind == 'variant':
        other = draw(variant(spec))
    else:
        other = draw(gen.top_spec(CFG))
    if draw(st.booleans()):
        other = draw(gen.permuted(other))
    backend = None
    if draw(st.integers(0, 3)) == 0:
        backend = draw(st.sampled_from(BACKENDS))
    return {'kind': kind, 'spec': spec, 'other': other, 'backend': backend}


def strategy():
    return strategy_()


def top_level_only(a, b):
    """Whether the two differ in options of the top-level node itself."""
    if a['t'] != b['t'] or a['t'] not in ('Comp', 'List'):
        return True
    if a['t'] == 'List':
        return sp.canon_json(a['sub']) == sp.canon_json(b['sub'])
    subs = {n: sp.canon_json(s) for n, s in a['fields']}
    return all(subs.get(n, sp.canon_json(s)) == sp.canon_json(s)
               for n, s in b['fields'])


def classify(case):
    spec, other = case['spec'], case['other']
    tags = [case['kind']]
    same = sp.canon_json(spec) == sp.canon_json(other)
    tags.append('same' if same else 'different')
    if case['kind'] == 'changed' and not top_level_only(spec, other):
        tags += ['nontrivial', 'one option changed below the top']
    if same and json.dumps(sp.canon(spec)) != json.dumps(sp.canon(other)):
        tags += ['nontrivial', 'reordered']
    return sorted(set(tags))


OPTIONS = {
    'Array': ('dtype', 'unit', 'max_shape', 'min_shape', 'ndim', 'max_value',
              'min_value', 'depends_on'),
    'Scalar': ('dtype', 'unit', 'max_value', 'min_value'),
    'Bytes': ('min_length', 'max_length'),
    'String': ('min_length', 'max_length'),
    'Bool': (), 'Date': ('set_on_create',), 'DateTime': ('set_on_create',),
    'Time': ('set_on_create',), 'List': ('min_length', 'max_length'),
    'Compilation': ('optionals',)}


def every_hash(node):
    node.hash()
    if isinstance(node, dsch.schema.List):
        every_hash(node.subnode)
    if isinstance(node, dsch.schema.Compilation):
        for sub in node.subnodes.values():
            every_hash(sub)


def adopt(node, model):
    """Change the configuration of a schema in place; returns the result."""
    if type(node) is not type(model):
        return model
    for option in OPTIONS[type(node).__name__]:
        setattr(node, option, getattr(model, option))
    if isinstance(node, dsch.schema.List):
        node.subnode = adopt(node.subnode, model.subnode)
    if isinstance(node, dsch.schema.Compilation):
        for name in list(node.subnodes):
            if name not in model.subnodes:
                del node.subnodes[name]
        for name, sub in model.subnodes.items():
            node.subnodes[name] = adopt(node.subnodes.get(name), sub)
    return node


def check(case, scratch):
    spec, other = case['spec'], case['other']
    a, b, c = sp.build(spec), sp.build(other), sp.build(spec)
    for node, config in ((a, spec), (b, other)):
        require(node.to_json() == sp.canon_json(config),
                'JSON is {}, expected {}', node.to_json(),
                sp.canon_json(config))
        require(node.hash() == sp.canon_hash(config),
                'hash of {} is {}, expected {}', node.to_json(), node.hash(),
                sp.canon_hash(config))
    same = sp.canon_json(spec) == sp.canon_json(other)
    if not same and sp.canon(spec) == sp.canon(other):
        return  # They only differ in limits like 1 and 1.0.
    require(a == c and c == a, 'a schema differs from itself built again: {}',
            a.to_json())
    for left, right in ((a, b), (b, a)):
        require(bool(left == right) == same and bool(left != right) != same,
                '{} and {} compare as {}', left.to_json(), right.to_json(),
                'equal' if left == right else 'different')
    require((a.hash() == b.hash()) == same, 'hashes of {} and {} are {}',
            a.to_json(), b.to_json(), 'equal' if not same else 'different')
    for thing in (None, 1, 'x', a.to_json(), a.hash(), {}, object()):
        require(not a == thing and a != thing, '{} equals {!r}', a.to_json(),
                thing)
    # A schema can be changed until it is used for a storage.
    every_hash(c)
    changed = adopt(c, sp.build(other))
    require(changed.to_json() == sp.canon_json(other) and changed.hash() ==
            sp.canon_hash(other), 'JSON and hash of {} changed to {} are {} '
            'and {}', sp.canon_json(spec), sp.canon_json(other),
            changed.to_json(), changed.hash())
    require(changed == b and b == changed and bool(changed == a) == same,
            '{} changed to {} does not compare as such', sp.canon_json(spec),
            sp.canon_json(other))
    if case['backend']:
        path = storage_path(scratch, case['backend'])
        storage = dsch.create(path, a)
        require(storage.schema_hash() == sp.canon_hash(spec),
                '{}: hash is {}', case['backend'], storage.schema_hash())
        if case['backend'] != 'inmem':
            storage.save(force=True)
            del storage
            end_session()
            storage = dsch.load(path, force=True)
            require(storage.schema_hash() == sp.canon_hash(spec),
                    '{}: hash is {} after loading', case['backend'],
                    storage.schema_hash())
            require((storage.schema_node == b) == same and
                    (b == storage.schema_node) == same,
                    '{}: loaded schema compared with the other is wrong',
                    case['backend'])
