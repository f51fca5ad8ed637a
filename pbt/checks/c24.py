"""C24: find_by, pop_by, group_by against a straightforward scan."""
import copy
from dataclasses import dataclass, field, asdict, is_dataclass
from pbt import gen
from pbt.gen import st, rec, optional
from pbt.runner import Suite, check, eq, fail

RULE = ('a case counts as non-trivial if at least two items are present and the reference answer is an item that is '
        'not the first, or no item because of a missing member, or groups of more than one item')

val = st.one_of(st.integers(0, 3), st.sampled_from(['a', 'b', '0', '1', '']), st.booleans(), st.none())
leaf = st.dictionaries(st.sampled_from(['x', 'y', 'z']), val, max_size=3)
item = optional({}, p=val, q=val, n=leaf, m=st.fixed_dictionaries({}, optional=dict(n=leaf, p=val)))
PATHS = ['p', 'q', 'p', 'q', 'n.x', 'n.y', 'm.n.x', 'm.n.y', 'm.p', 'missing', 'missing.p', 'n.missing']
cond = st.tuples(st.sampled_from(PATHS), st.one_of(val, st.lists(val, min_size=0, max_size=3), rec(tuple=st.booleans()),
                                                rec(tuple=st.just(False)), rec(tuple=st.booleans())))
MISSING = object()


@dataclass
class Leaf:
    x: object = 0
    y: object = 0


@dataclass
class Mid:
    n: Leaf
    p: object = 0


@dataclass
class Item:
    p: object
    q: object
    n: Leaf
    m: Mid


dc_item = rec(p=val, q=val, x=val, y=val, mp=val, mx=val, my=val)


def build(kind, it):
    if kind == 'dict':
        return it
    leaf = dict(x=it['x'], y=it['y'])
    mleaf = dict(x=it['mx'], y=it['my'])
    if kind == 'dataclass':
        return Item(it['p'], it['q'], Leaf(**leaf), Mid(Leaf(**mleaf), it['mp']))
    return Item(it['p'], it['q'], leaf, {'n': Leaf(**mleaf), 'p': it['mp']})    # mixed


def member(obj, path):
    for p in path.split('.'):
        if is_dataclass(obj):
            obj = getattr(obj, p, MISSING)
        elif isinstance(obj, dict):
            obj = obj.get(p, MISSING)
        else:
            return MISSING
        if obj is MISSING:
            return MISSING
    return obj


def matches(obj, conds):
    for path, value in conds:
        got = member(obj, path)
        if got is MISSING:
            return False
        if isinstance(value, tuple):
            if got not in value:
                return False
        elif got != value:
            return False
    return True


def resolve(items, path, value, anchor):
    """Values may be taken from the anchor item."""
    if isinstance(value, list):
        return tuple(value)
    if isinstance(value, dict):
        got = member(items[anchor % len(items)], path) if items else 0
        got = 0 if got is MISSING else got
        return (got, 'zz') if value['tuple'] else got
    return value


def find(case, info):
    from openleadr import utils
    kind = case['kind']
    items = [build(kind, i) for i in case['items']]
    conds = [(p, resolve(items, p, v, case['anchor'])) for p, v in case['conds']]
    before = copy.deepcopy(items)
    args = [x for c in conds for x in c]
    want = next((i for i, it in enumerate(items) if matches(it, conds)), None)
    info.tag('found' if want is not None else 'none', kind)
    info.nontrivial(len(items) > 1 and (want or (want is None and len(conds) > 1)))
    source = items if case['container'] == 'list' else {'k%d' % i: it for i, it in enumerate(items)}
    got = utils.find_by(source, *args)
    check(got is (None if want is None else items[want]), 'find_by returned the wrong item', case, got)
    eq(repr(items), repr(before), 'find_by changed the items')
    if case['container'] == 'list':
        lst = list(items)
        got = utils.pop_by(lst, *args)
        if want is None:
            check(got is None, 'pop_by found an item', got)
            check(len(lst) == len(items), 'pop_by removed an item')
        else:
            check(got is items[want], 'pop_by popped the wrong item', got)
            rest = items[:want] + items[want + 1:]
            check(len(rest) == len(lst) and all(a is b or a == b for a, b in zip(rest, lst)),
                  'pop_by did not remove exactly the item that it returned')
        eq(repr(items), repr(before), 'pop_by changed the items')


def group(case, info):
    from openleadr import utils
    path, items = case['path'], case['items']
    items = [i for i in items if member(i, path) is not MISSING and member(i, path) is not None]
    before = copy.deepcopy(items)
    want = {}
    for it in items:
        want.setdefault(member(it, path), []).append(it)
    got = utils.group_by(items, path)
    info.nontrivial(len(want) > 1 and any(len(v) > 1 for v in want.values()))
    eq(list(got.items()), list(want.items()), 'group_by')
    check(all(a is b for k in want for a, b in zip(got[k], want[k])), 'group_by copied the items')
    eq(items, before, 'group_by changed the items')


SUITES = [
    Suite('find_dict', rec(kind=st.just('dict'), container=st.sampled_from(['list', 'dict']),
                           items=st.lists(item, max_size=7), anchor=st.integers(0, 6), conds=st.lists(cond, min_size=1, max_size=3)),
          find, 40000),
    Suite('find_object', rec(kind=st.sampled_from(['dataclass', 'mixed']), container=st.sampled_from(['list', 'dict']),
                             items=st.lists(dc_item, max_size=7), anchor=st.integers(0, 6), conds=st.lists(cond, min_size=1, max_size=3)),
          find, 24000),
    Suite('group', rec(items=st.lists(item, max_size=9), path=st.sampled_from(['p', 'q', 'n.x', 'm.n.x', 'm.p'])),
          group, 16000),
    Suite('find_volume', st.builds(lambda c, n, f: dict(c, items=gen.cycle([f], n) + c['items']),
                                   rec(kind=st.just('dict'), container=st.sampled_from(['list', 'dict']), items=st.lists(item, min_size=1, max_size=5), anchor=st.integers(-3, -1),
                                       conds=st.lists(st.tuples(st.sampled_from(PATHS[:7]), rec(tuple=st.booleans())), min_size=1, max_size=2)), gen.SIZES, st.sampled_from([{}, dict(p='other', q='other', n=dict(x='other', y='other'))])), find, 1500),
    Suite('group_volume', st.builds(lambda c, n, m: dict(c, items=gen.cycle(c['items'], n, lambda x, k: dict(x, p=k % m))),
                                    rec(items=st.lists(item, min_size=1, max_size=9), path=st.sampled_from(['p', 'p', 'q', 'n.x'])), gen.SIZES, st.sampled_from([2, 7, 40, 1000])), group, 1000),
]
