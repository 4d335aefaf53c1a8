"""C09 Schemas survive serialisation unchanged."""
import json

import numpy as np
from hypothesis import strategies as st

import dsch
from dsch import schema
from dschpbt import Violation, gen, require
from dschpbt import spec as sp
from dschpbt.files import EXTENSIONS, end_session, storage_path
from dschpbt.files import BACKEND_OF
from dschpbt.oracle import independents_ok

QUICK, THOROUGH = 8400, 300000
RULE = ('case = schema tree with any options (dtype as string, dtype or type, limits as Python or NumPy numbers), '
        'values for its items, and a way of damaging the node type; restored from dict and JSON several times and from '
        'a file, comparing JSON, hash, equality, every attribute and the outcome of validating the values with '
        'references; non-trivial = at least two nodes, or an item with at least two options set')
CFG = {'depths': [0, 1, 2, 2, 3, 3], 'width': 4, 'soc': 'yes',
       'dtype_objects': True, 'tight': True, 'kinds': gen.LIMITED}
TYPES = ('Array', 'Bytes', 'Bool', 'Compilation', 'Date', 'DateTime', 'List',
         'Scalar', 'String', 'Time')
UNKNOWN = ('', 'array', 'Foo', 'Compilation ', 'ItemNode', 'np', 'json',
           'ValidationError', 'datetime', 'String2', 'Int', 'bool', 'Dict')


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    nodes = [path for path, _ in gen.spec_paths(spec)]
    return {'spec': spec, 'state': draw(gen.spoiled_state(spec)),
            'ext': draw(st.sampled_from(EXTENSIONS)),
            'damage': list(draw(st.sampled_from(nodes))),
            'unknown': draw(st.sampled_from(UNKNOWN)),
            'other': draw(st.integers(0, len(TYPES) - 2))}


def strategy():
    return strategy_().filter(
        lambda case: independents_ok(case['spec'], case['state']))


OPTIONS = ('unit', 'max_shape', 'min_shape', 'max_value', 'min_value',
           'depends_on', 'min', 'max', 'opt', 'soc')


def classify(case):
    nodes = [node for _, node in gen.spec_paths(case['spec'])]
    tags = set(node['t'] for node in nodes)
    options = max(sum(1 for key in OPTIONS if node.get(key))
                  for node in nodes)
    for node in nodes:
        if isinstance(node.get('dtype'), dict):
            tags.add('dtype as ' + list(node['dtype'])[0])
        if node.get('np_limits') and (node['min_value'] is not None
                                      or node['max_value'] is not None):
            tags.add('NumPy limit')
    if len(nodes) > 1 or options > 1:
        tags.add('nontrivial')
    return sorted(tags)


def expect_attributes(node, spec, what, path=()):
    """Compare all attributes of a schema node with the specification."""
    def expect(name, expected, actual):
        require(type(actual) is type(expected) and actual == expected
                or isinstance(expected, (int, float))
                and isinstance(actual, (int, float, np.number))
                and actual == expected,
                '{}: node "{}": {} is {!r}, expected {!r}', what,
                sp.path_str(path), name, actual, expected)

    def sequence(value):
        return None if value is None else tuple(value)

    kind = spec['t']
    expect('type', sp.type_name(spec), type(node).__name__)
    if kind == 'Comp':
        expect('fields', sorted(n for n, _ in spec['fields']),
               sorted(node.subnodes))
        expect('optionals', sorted(spec.get('opt') or []),
               sorted(node.optionals))
        for name, sub in sp.fields(spec):
            expect_attributes(node.subnodes[name], sub, what, path + (name,))
    elif kind == 'List':
        expect('max_length', spec['max'], node.max_length)
        expect('min_length', spec['min'], node.min_length)
        expect_attributes(node.subnode, spec['sub'], what, path + (0,))
    elif kind in ('Bytes', 'String'):
        expect('max_length', spec['max'], node.max_length)
        expect('min_length', spec['min'], node.min_length)
    elif kind in ('Date', 'DateTime', 'Time'):
        expect('set_on_create', spec['soc'], node.set_on_create)
    elif kind in ('Scalar', 'Array'):
        expect('dtype', sp.npdtype(spec), np.dtype(node.dtype))
        for name in ('unit', 'max_value', 'min_value'):
            expect(name, spec[name], getattr(node, name))
        if kind == 'Array':
            expect('ndim', spec['ndim'], node.ndim)
            for name in ('max_shape', 'min_shape', 'depends_on'):
                expect(name, sequence(spec[name]),
                       sequence(getattr(node, name)))


def expect_same(original, restored, spec, what):
    require(type(restored) is type(original), '{}: type is {}', what,
            type(restored).__name__)
    require(restored.to_json() == sp.canon_json(spec),
            '{}: JSON is {}, expected {}', what, restored.to_json(),
            sp.canon_json(spec))
    require(restored == original and original == restored
            and not restored != original,
            '{}: not equal to the original schema', what)
    require(restored.hash() == original.hash(), '{}: hash changed', what)
    expect_attributes(restored, spec, what)


def expect_outcomes(node, case, what):
    """Validate the data of the case with the restored schema."""
    storage = dsch.create('::inmem::', node)
    sp.fill(storage.data, case['spec'], case['state'])
    bad = sp.tree_violations(case['spec'], case['state'])
    try:
        storage.validate()
    except (dsch.exceptions.ValidationError,
            dsch.exceptions.SubnodeValidationError) as err:
        if not bad:
            raise Violation('{}: valid data is rejected: {}'.format(
                what, err)) from err
    else:
        require(not bad, '{}: data violating {} is accepted', what,
                {sp.path_str(p): v for p, v in bad.items()})


def at_path(node_dict, path):
    for elem in path:
        config = node_dict['config']
        node_dict = config['subnode'] if isinstance(elem, int) \
            else config['subnodes'][elem]
    return node_dict


def check(case, scratch):
    spec = case['spec']
    node = sp.build(spec)
    require(node.to_json() == sp.canon_json(spec),
            'the JSON form is {}, expected {}', node.to_json(),
            sp.canon_json(spec))
    expect_attributes(node, spec, 'original')
    expect_outcomes(node, case, 'original')

    current = node
    for number in range(1, 4):
        what = 'restored from JSON (round {})'.format(number)
        current = schema.node_from_json(current.to_json())
        expect_same(node, current, spec, what)
    expect_outcomes(current, case, what)
    current = node
    for number in range(1, 4):
        what = 'restored from dict (round {})'.format(number)
        node_dict = current.to_dict()
        text = json.dumps(node_dict, default=str)
        current = schema.node_from_dict(node_dict)
        expect_same(node, current, spec, what)
        current = type(node).from_dict(node_dict)
        expect_same(node, current, spec, what + ', from_dict')
        require(json.dumps(node_dict, default=str) == text,
                '{}: the dict was changed to {}', what, node_dict)
    expect_outcomes(current, case, what)
    # Other JSON tools may order or indent differently.
    text = json.dumps(json.loads(node.to_json()), indent=1)
    expect_same(node, schema.node_from_json(text), spec,
                'restored from indented JSON')

    path = storage_path(scratch, BACKEND_OF[case['ext']])
    storage = dsch.create(path, node)
    require(storage.schema_hash() == sp.canon_hash(spec),
            '{}: wrong hash for a new storage', case['ext'])
    storage.save(force=True)
    del storage
    end_session()
    storage = dsch.load(path, force=True)
    what = 'restored from a {} file'.format(case['ext'])
    expect_same(node, storage.schema_node, spec, what)
    require(storage.schema_hash() == sp.canon_hash(spec), '{}: wrong hash',
            what)
    del storage

    # Damaged descriptions.
    damaged = json.loads(node.to_json())
    at_path(damaged, case['damage'])['node_type'] = case['unknown']
    for what, call in (
            ('node_from_dict', lambda: schema.node_from_dict(damaged)),
            ('node_from_json',
             lambda: schema.node_from_json(json.dumps(damaged)))):
        expect_error('{} with node type {!r} at "{}"'.format(
            what, case['unknown'], sp.path_str(case['damage'])), call)
    part = sp.build(_sub(spec, case['damage']))
    own = type(part).__name__
    other = [t for t in TYPES if t != own][case['other']]
    expect_error('{}.from_dict with a {}'.format(other, own),
                 lambda: getattr(schema, other).from_dict(part.to_dict()))


def _sub(spec, path):
    for elem in path:
        spec = spec['sub'] if isinstance(elem, int) else dict(
            sp.fields(spec))[elem]
    return spec


def expect_error(what, call):
    try:
        result = call()
    except (ValueError, TypeError, KeyError, dsch.exceptions.DschError):
        return
    raise Violation('{} is accepted: {!r}'.format(what, result.to_json()))
