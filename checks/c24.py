"""C24 Schemas are built exactly as specified, or refused."""
import json

from hypothesis import strategies as st

import dsch
from dschpbt import Violation, gen, require
from dschpbt import spec as sp
from dschpbt.files import end_session, storage_path
from dschpbt.oracle import backends_for, independents_ok
from checks.c09 import expect_attributes, expect_outcomes

QUICK, THOROUGH = 9400, 300000
RULE = ('case = schema tree built with any mixture of positional, keyword and omitted arguments, data, a backend it is '
        'used on, and an inconsistent array configuration; attributes, JSON and validation of the schema are compared '
        'with the reference before and after use, the inconsistent one must be refused by constructor, dict and JSON; '
        'non-trivial = some option is set, and some argument is positional or omitted')
CFG = {'depths': [0, 0, 1, 1, 2, 3], 'width': 4, 'soc': 'yes',
       'dtype_objects': True, 'tight': True, 'kinds': gen.LIMITED}
# The documented order of arguments, with the default values.
ARGS = {
    'Comp': [('subnodes',), ('optionals', None)],
    'List': [('subnode',), ('max_length', None), ('min_length', None)],
    'Bytes': [('min_length', None), ('max_length', None)],
    'String': [('min_length', None), ('max_length', None)],
    'Bool': [],
    'Date': [('set_on_create', False)], 'DateTime': [('set_on_create', False)],
    'Time': [('set_on_create', False)],
    'Scalar': [('dtype',), ('unit', ''), ('max_value', None),
               ('min_value', None)],
    'Array': [('dtype',), ('unit', ''), ('max_shape', None),
              ('min_shape', None), ('ndim', 1), ('max_value', None),
              ('min_value', None), ('depends_on', None)],
}
NAMES = ('a', 'b', 'time', 'x0', 'foo')


@st.composite
def inconsistent(draw):
    size = st.one_of(st.none(), st.integers(0, 9))
    dtype = draw(st.sampled_from(('float64', 'int16', 'complex64', 'bool')))
    out = {'dtype': dtype}
    first = draw(st.integers(1, 5))
    second = draw(st.integers(1, 5).filter(lambda n: n != first))

    def shape(length):
        return draw(st.lists(size, min_size=length, max_size=length))

    def names(length):
        return draw(st.lists(st.one_of(st.sampled_from(NAMES), st.none()),
                             min_size=length, max_size=length))

    kind = draw(st.sampled_from(('limits', 'max', 'min', 'both', 'ndim',
                                 'default', 'str')))
    if kind == 'limits':
        out.update(max_shape=shape(first), min_shape=shape(second))
        if draw(st.booleans()):
            out['depends_on'] = names(draw(st.sampled_from((first, second))))
        if draw(st.booleans()):
            out['ndim'] = draw(st.sampled_from((first, second)))
    elif kind == 'ndim':
        out.update(ndim=first, depends_on=names(second))
    elif kind == 'default':
        out['depends_on'] = names(draw(st.integers(2, 5)))
    elif kind == 'str':
        size = draw(st.integers(2, 4))
        out['depends_on'] = draw(st.sampled_from(NAMES))
        if draw(st.booleans()):
            out['ndim'] = size
        else:
            out['max_shape'] = [7] * size
    else:
        if kind in ('max', 'both'):
            out['max_shape'] = shape(first)
        if kind in ('min', 'both'):
            out['min_shape'] = shape(first)
        out['depends_on'] = names(second)
    if draw(st.booleans()):
        out['unit'] = draw(st.sampled_from(('V', '', 'm/s')))
    return out


@st.composite
def strategy_(draw):
    spec = draw(gen.top_spec(CFG))
    state = draw(gen.spoiled_state(spec))
    return {'spec': spec, 'state': state,
            'forms': draw(st.lists(st.integers(0, 17), min_size=1,
                                   max_size=6)),
            'backend': draw(st.sampled_from(backends_for(spec, state))),
            'bad': draw(inconsistent()), 'tuples': draw(st.booleans())}


def strategy():
    return strategy_().filter(
        lambda case: independents_ok(case['spec'], case['state']))


def classify(case):
    nodes = [node for _, node in gen.spec_paths(case['spec'])]
    tags = set(node['t'] for node in nodes)
    tags.add('bad: ' + ', '.join(sorted(set(case['bad'])
                                        - {'dtype', 'unit'})))
    options = any(node.get(key) for node in nodes for key in (
        'unit', 'max_shape', 'min_shape', 'max_value', 'min_value',
        'depends_on', 'min', 'max', 'opt', 'soc'))
    if options and any(form not in (0, 1) for form in case['forms']):
        tags.add('nontrivial')
    return sorted(tags)


class Builder:
    """Builds schemas with different forms of giving the arguments."""

    def __init__(self, forms):
        self.forms, self.count, self.given = forms, 0, []

    def build(self, spec):
        form = self.forms[self.count % len(self.forms)]
        self.count += 1
        positional, omit = form // 2, form % 2
        values = self.values(spec)
        args, kwargs = [], {}
        for number, arg in enumerate(ARGS[spec['t']]):
            name = arg[0]
            if number < positional and len(args) == number:
                args.append(values[name])
            elif len(arg) > 1 and omit and values[name] is arg[1]:
                continue
            else:
                kwargs[name] = values[name]
        return getattr(dsch.schema, sp.type_name(spec))(*args, **kwargs)

    def values(self, spec):
        """The arguments as documented, by name."""
        kind = spec['t']
        if kind == 'Comp':
            out = {'subnodes': {name: self.build(sub)
                                for name, sub in sp.fields(spec)},
                   'optionals': spec.get('opt')}
            if out['optionals'] is not None:
                out['optionals'] = list(out['optionals'])
            self.given.append((out['subnodes'], dict(out['subnodes'])))
            if out['optionals'] is not None:
                self.given.append((out['optionals'], list(out['optionals'])))
            return out
        if kind == 'List':
            return {'subnode': self.build(spec['sub']),
                    'max_length': spec['max'], 'min_length': spec['min']}
        if kind in ('Bytes', 'String'):
            return {'max_length': spec['max'], 'min_length': spec['min']}
        if kind in ('Date', 'DateTime', 'Time'):
            return {'set_on_create': spec['soc']}
        if kind == 'Bool':
            return {}
        node = sp.build(spec)
        return {name[0]: getattr(node, name[0]) for name in ARGS[kind]}


def expect_refused(what, call):
    try:
        result = call()
    except (ValueError, TypeError, dsch.exceptions.DschError):
        return
    raise Violation('{} is accepted: {}'.format(what, result.to_json()))


def check(case, scratch):
    spec, state = case['spec'], case['state']
    builder = Builder(case['forms'])
    node = builder.build(spec)

    def expect_node(node, what):
        expect_attributes(node, spec, what)
        require(node.to_json() == sp.canon_json(spec),
                '{}: the JSON form is {}, expected {}', what, node.to_json(),
                sp.canon_json(spec))
        for given, copied in builder.given:
            same = type(given) is type(copied) and given == copied
            require(same, '{}: an argument was changed from {!r} to {!r}',
                    what, copied, given)

    expect_node(node, 'new schema')
    other = sp.build(spec)
    require(node == other and other == node and node.hash() == other.hash(),
            'the same schema, given with other forms of arguments, differs')
    expect_outcomes(node, case, 'new schema')

    # Using a schema does not change it.
    path = storage_path(scratch, case['backend'])
    storage = dsch.create(path, node)
    expect_attributes(storage.schema_node, spec, 'storage')
    sp.fill(storage.data, spec, state)
    repr(storage.data)
    storage.data.data_tree(True)
    require(storage.data.complete == sp.is_complete(spec, state),
            'complete is wrong')
    if case['backend'] != 'inmem':
        storage.save(force=True)
    storage.save_as('::inmem::').data.clear()
    del storage
    end_session()
    if case['backend'] != 'inmem':
        dsch.load(path, required_schema=node, force=True)
        end_session()
    expect_node(node, 'used schema')
    expect_outcomes(node, case, 'used schema')

    # Inconsistent configurations.
    bad = case['bad']

    def arguments():
        out = dict(bad)
        for key in ('max_shape', 'min_shape', 'depends_on'):
            if case['tuples'] and isinstance(out.get(key), list):
                out[key] = tuple(out[key])
        return out

    what = 'Array with {}'.format(bad)
    expect_refused(what, lambda: dsch.schema.Array(**arguments()))
    config = {'unit': '', 'max_shape': None, 'min_shape': None, 'ndim': 1,
              'max_value': None, 'min_value': None, 'depends_on': None}
    config.update(bad)
    if isinstance(config['depends_on'], str):
        config['depends_on'] = [config['depends_on']]
    described = {'node_type': 'Array', 'config': config}
    for call in (dsch.schema.node_from_dict, dsch.schema.Array.from_dict):
        expect_refused(what + ', as dict',
                       lambda: call(json.loads(json.dumps(described))))
    text = json.dumps({'node_type': 'Compilation', 'config': {
        'optionals': [], 'subnodes': {'a': described}}})
    expect_refused(what + ', as JSON',
                   lambda: dsch.schema.node_from_json(text))
