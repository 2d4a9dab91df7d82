"""C08: archives are replaced atomically and load back exactly."""
import math
from sim.core import Violation, HarnessError
from checks.storelib import StoreCheck

KEYS = ['a', 'cl', 'alpha', 'mission', 'segments', 'climb_1', 'climb_2', 'b_x', 'zeta', 'conditions', 'x1', 'Mach', 'wing tip']
COMPONENTS = ['wing', 'fuselage', 'vehicle', 'state', 'battery', 'config', 'unknowns']
TEXT = ['', 'cruise', 'line\nbreak', 'tab\t"quoted"', u'\u00e9t\u00e9 \u2603', '\\', '</x>', '[1, 2', '{"a": 1}', 'null', 'NaN', 'x' * 9000, '\u2028', '\r\n']


def comp(name):
    import SUAVE
    from SUAVE.Components import Wings, Fuselages
    return {'wing': lambda: Wings.Main_Wing(), 'fuselage': lambda: Fuselages.Fuselage(), 'vehicle': lambda: SUAVE.Vehicle(),
            'state': lambda: SUAVE.Analyses.Mission.Segments.Conditions.State(),
            'battery': lambda: SUAVE.Components.Energy.Storages.Batteries.Constant_Mass.Lithium_Ion_LiNiMnCoO2_18650(),
            'config': lambda: SUAVE.Components.Configs.Config(),
            'unknowns': lambda: SUAVE.Analyses.Mission.Segments.Conditions.Unknowns()}[name]()


def walk(v):
    """What a stored value must come back as, from the documented conversion rules: ('map', [(k, ..)]) or a leaf."""
    import numpy as np
    if isinstance(v, (np.ndarray, np.generic)):
        v = v.tolist()
    if isinstance(v, (str, bool, type(None), float, int, list)):
        return leaf(v)
    if isinstance(v, dict):
        return ('map', [(k, walk(v[k])) for k in v.keys()])
    if callable(v): return leaf(None)
    raise TypeError(type(v))


def leaf(v):
    if isinstance(v, list): return ('arr', v)
    return ('leaf', v)


def gen_leaf(rng):
    t = rng.choice(['f', 'f', 'i', 's', 'b', 'n', 'arr', 'arr', 'arr', 'npf', 'npi', 'list', 'fn', 'big'])
    if t == 'f': return dict(t='f', v=rng.choice([0.0, -0.0, 1.5, 1e-310, 1.7976931348623157e308, 0.1, rng.uniform(-1e6, 1e6), 'nan', 'inf', '-inf', rng.random() / 3]))
    if t == 'i': return dict(t='i', v=rng.choice([0, -1, 7, 2 ** 53 + 1, -2 ** 70, rng.randrange(10 ** 6)]))
    if t == 's': return dict(t='s', v=rng.choice(TEXT))
    if t == 'b': return dict(t='b', v=rng.random() < .5)
    if t == 'n': return dict(t='n')
    if t == 'npf': return dict(t='npf', v=rng.uniform(-1e3, 1e3))
    if t == 'npi': return dict(t='npi', v=rng.randrange(-5, 1000), dt=rng.choice(['int64', 'int32', 'bool_', 'float32']))
    if t == 'list': return dict(t='list', v=[round(rng.uniform(-9, 9), 3) for _ in range(rng.choice([0, 1, 3]))])
    if t == 'fn': return dict(t='fn', k=rng.choice(['def', 'lambda', 'builtin', 'class']))
    if t == 'big': return dict(t='arr', dt='float64', shape=[rng.choice([600, 3000])], s=rng.randrange(10 ** 6))
    return dict(t='arr', dt=rng.choice(['float64', 'float64', 'float32', 'int64', 'bool', 'U']), s=rng.randrange(10 ** 6),
                shape=rng.choice([[1], [3], [4, 1], [2, 3], [1, 1], [2, 2, 2], [0], [16, 3], [2, 0]]), sp=rng.random() < .15)


def gen_map(rng, depth):
    keys = rng.sample(KEYS, rng.choice([0, 1, 2, 3, 4]) if depth else rng.choice([1, 2, 3, 5, 6]))
    out = []
    for k in keys:
        r = rng.random()
        if r < .35 and depth < 4: out.append([k, gen_map(rng, depth + 1)])
        elif r < .40: out.append([k, dict(t='comp', v=rng.choice(COMPONENTS))])
        else: out.append([k, gen_leaf(rng)])
    return dict(t='map', c=rng.choice(['Data', 'Data', 'DataOrdered', 'dict', 'Container']), v=out)


def arr(spec):
    import numpy as np
    r = np.random.RandomState(spec['s'])
    n = int(np.prod(spec['shape']))
    if spec['dt'] == 'U': a = np.array(['w%d' % q for q in r.randint(0, 999, n)], dtype='<U8')
    elif spec['dt'] == 'bool': a = r.rand(n) < .5
    elif spec['dt'] == 'int64': a = r.randint(-2 ** 40, 2 ** 40, n)
    else:
        a = (r.randn(n) * 10.0 ** r.randint(-12, 12)).astype(spec['dt'])
        if spec.get('sp') and n: a[0] = float('nan'); a[-1] = float('inf')
    return a.reshape(spec['shape'])


class C08(StoreCheck):
    prop = 'C08'
    n_quick, n_thorough = 2600, 120000
    check_open = False
    only = None
    rule = ('seeded sequences of archive saves of random nested structures to one or two files, each in its own process that may meet a '
            'disk fault, an interrupt, an allocation failure or a crash at any file operation or source line; after each, a fresh process '
            'loads the file; non-trivial = at least one fault fired')
    real = ['SUAVE.Input_Output.SUAVE.archive', 'SUAVE.Input_Output.SUAVE.load', 'SUAVE.Core.Data', 'SUAVE.Core.DataOrdered', 'real files']
    stub = ['the disk below raw file writes (fault injection)']
    assumptions = ['a crash is a process crash: bytes handed to the operating system survive it',
                   'lists come back as arrays and functions as null, as the archive format documents; zero-dimensional arrays come back as numbers']
    expected_probes = ['failed_save_checked', 'nothing_saved_yet']
    state_measure = 'distinct (outcome of the save, planned faults, whether a previous archive existed)'
    names = ['results.res', 'sub/other.res']

    def setup(self):
        import SUAVE, SUAVE.Input_Output.SUAVE
        for c in COMPONENTS: comp(c)

    def gen(self, rng, tier, i):
        return dict(ops=self.gen_ops(rng, tier, i))

    def gen_doc(self, rng):
        d = gen_map(rng, 0)
        if rng.random() < .12 and d['v']:
            bad = dict(t='bad', k=rng.choice(['object', 'tuple', 'complex', 'set', 'cycle', 'bytes', 'objarr']))
            # somewhere inside
            tgt = d
            while rng.random() < .5:
                subs = [v for _, v in tgt['v'] if v['t'] == 'map' and v['v']]
                if not subs: break
                tgt = rng.choice(subs)
            tgt['v'][rng.randrange(len(tgt['v']))][1] = bad
        return d

    def storable(self, spec):
        if spec['t'] == 'bad': return False
        if spec['t'] == 'map': return all(self.storable(v) for _, v in spec['v'])
        return True

    def build(self, spec, top=True):
        import numpy as np
        from SUAVE.Core import Data, DataOrdered, Container
        t = spec['t']
        if t == 'map':
            c = spec['c']
            if top and c in ('dict', 'Container'): c = 'Data'
            d = {'Data': Data, 'DataOrdered': DataOrdered, 'dict': dict, 'Container': Container}[c]()
            for k, v in spec['v']:
                d[k] = self.build(v, False)
            return d
        if t == 'comp': return comp(spec['v'])
        if t == 'f': return float(spec['v'])
        if t in ('i', 's', 'b'): return spec['v']
        if t == 'n': return None
        if t == 'npf': return np.float64(spec['v'])
        if t == 'npi': return getattr(np, spec['dt'])(spec['v'])
        if t == 'list': return list(spec['v'])
        if t == 'fn': return {'def': gen_leaf, 'lambda': lambda x: x, 'builtin': max, 'class': C08}[spec['k']]
        if t == 'arr': return arr(spec)
        if t == 'bad':
            k = spec['k']
            if k == 'cycle':
                d = Data(); d.self = d; return d
            return {'object': object(), 'tuple': (1, 2), 'complex': 1j, 'set': {1, 2}, 'bytes': b'xy', 'objarr': np.array([object(), 1])}[k]
        raise HarnessError(t)

    def why_not(self, spec):
        return 'a structure that holds a value JSON cannot represent'

    def save(self, data, path):
        import SUAVE
        SUAVE.Input_Output.SUAVE.archive(data, path)

    def load(self, path):
        import SUAVE
        return SUAVE.Input_Output.SUAVE.load(path)

    def compare(self, spec, obj):
        import numpy as np
        from SUAVE.Core import Data
        if not isinstance(obj, Data): return 'top level is %s' % type(obj).__name__
        return cmp(walk(self.build(spec)), obj, '')

    def shrink_doc(self, d):
        if d['t'] != 'map': return
        for k in range(len(d['v'])):
            yield dict(d, v=d['v'][:k] + d['v'][k + 1:])
        for k, (key, v) in enumerate(d['v']):
            if v['t'] == 'map':
                for s in self.shrink_doc(v):
                    yield dict(d, v=d['v'][:k] + [[key, s]] + d['v'][k + 1:])


def same_num(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)


def cmp(w, g, path):
    import numpy as np
    if w[0] == 'map':
        if not isinstance(g, dict): return '%s is %s, not a structure' % (path or 'top', type(g).__name__)
        want = [str(k) for k, _ in w[1]]
        have = [k for k in g.keys()]
        if want != have: return '%s has keys %s instead of %s' % (path or 'top', have[:8], want[:8])
        for k, v in w[1]:
            k = str(k)
            m = cmp(v, g[k], path + '.' + k)
            if m: return m
            if k.isidentifier() and not hasattr(dict, k) and not hasattr(type(g), k) and getattr(g, k) is not g[k]:
                return '%s.%s differs as attribute' % (path, k)
        return None
    if w[0] == 'arr':
        if not isinstance(g, np.ndarray): return '%s is %s, not an array' % (path, type(g).__name__)
        a = np.array(w[1])
        if a.shape != g.shape or a.dtype.kind != g.dtype.kind: return '%s has shape %s kind %s instead of %s %s' % (path, g.shape, g.dtype.kind, a.shape, a.dtype.kind)
        ok = (a == g) | ((a != a) & (g != g)) if a.dtype.kind != 'O' else np.array(str(a) == str(g))
        if not np.all(ok): return '%s has other values' % path
        if a.dtype.kind == 'f' and not np.array_equal(np.signbit(a), np.signbit(g)): return '%s has other signs' % path
        return None
    v = w[1]
    if type(v) is not type(g): return '%s is %r instead of %r' % (path, g, v)
    if not same_num(v, g): return '%s is %r instead of %r' % (path, g if len(repr(g)) < 60 else '...', v if len(repr(v)) < 60 else '...')
    if isinstance(v, float) and v == 0 and math.copysign(1, v) != math.copysign(1, g): return '%s lost its sign' % path
    return None


CHECK = C08()
