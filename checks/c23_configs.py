"""C23: configurations follow their base and keep their own differences."""
import copy, pickle
import numpy as np
from sim.core import Check, Violation, HarnessError, where
from sim.instr import Counter

LINES = ('/Core/', 'Config.py', 'Vehicle.py')
EXC = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)


class Node(dict):
    """A data structure: its entries, and the class it has."""
    kind = ''

    def copy(self):
        n = Node((k, v.copy() if isinstance(v, Node) else copy.deepcopy(v)) for k, v in self.items())
        n.kind = self.kind
        return n


def snap(x):
    from SUAVE.Core import Data, DataOrdered
    n = Node()
    n.kind = type(x).__name__
    ordered = isinstance(x, DataOrdered)
    for k in (list(DataOrdered.keys(x)) if ordered else list(dict.keys(x))):
        if k.startswith('_'): continue
        v = object.__getattribute__(x, '__dict__')[k] if ordered else dict.__getitem__(x, k)
        n[k] = snap(v) if isinstance(v, (Data, DataOrdered)) else copy.deepcopy(v)
    return n


def same(a, b):
    if isinstance(a, Node) or isinstance(b, Node): return isinstance(a, Node) and isinstance(b, Node) and not compare(a, b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and repr(a) == repr(b)


def compare(got, want, path=''):
    """The first difference of two data structures, as text."""
    if got.kind != want.kind: return '%s is a %s, not a %s' % (path or 'it', got.kind, want.kind)
    for k in want:
        p = '%s.%s' % (path, k)
        if k not in got: return '%s is missing' % p
        g, w = got[k], want[k]
        if isinstance(g, Node) and isinstance(w, Node):
            d = compare(g, w, p)
            if d: return d
        elif not same(g, w): return '%s is %s, not %s' % (p, show(g), show(w))
    for k in got:
        if k not in want: return '%s.%s was not there' % (path, k)
    return None


def show(v): return 'a ' + v.kind if isinstance(v, Node) else ' '.join(repr(v).split())[:80]


def merge(t, s):
    for k, v in s.items():
        if isinstance(t.get(k), Node) and isinstance(v, Node): merge(t[k], v)
        else: t[k] = v.copy() if isinstance(v, Node) else copy.deepcopy(v)
    return t


def differences(a, b):
    """What a has set differently from b; an entry that only b has counts as None."""
    d = Node(); d.kind = a.kind
    for k in list(a) + [k for k in b if k not in a]:
        x, y = a.get(k), b.get(k)
        if isinstance(x, Node) and isinstance(y, Node):
            s = differences(x, y)
            if s: d[k] = s
        elif isinstance(x, Node) or isinstance(y, Node): d[k] = x
        else:
            try: eq = bool(np.all(x == y))
            except ValueError: eq = False
            if not eq: d[k] = x
    return d.copy()


def flat(n, path=()):
    for k, v in n.items():
        yield path + (k,), v
        if isinstance(v, Node): yield from flat(v, path + (k,))


class C23(Check):
    prop = 'C23'
    n_quick, n_thorough = 2600, 150000
    timeout = 60
    rule = ('seeded histories of edits (new and changed numbers, arrays changed in place, texts, lists, components with ordered segments added or replaced), stored differences, pulls, copies and pickles on a vehicle '
            'and a tree of configurations of it, configurations of configurations among them, one by one or through their container, with interrupts and memory errors at seeded lines of a store or pull; after every '
            'operation every vehicle and configuration is compared entry by entry with a model on plain dictionaries; non-trivial = a pull changed something or was stopped')
    real = ['SUAVE.Core.Diffed_Data', 'SUAVE.Components.Configs.Config', 'SUAVE.Core.Data', 'SUAVE.Core.DataOrdered', 'SUAVE.Core.Container', 'wings, fuselages, segments, control surfaces']
    stub = ['interrupts and memory errors at line boundaries']
    assumptions = ['an entry of the base that the configuration lacks when it stores its differences is None after a pull (upstream behaviour)', 'entries whose name starts with an underscore are internal',
                   'no NaN and no empty arrays; a difference is what == calls different', 'one interrupt at a time']
    expected_probes = ['stored', 'pulled', 'pull_changed', 'kept_difference', 'stopped_pull', 'stopped_store', 'grandchild', 'copied', 'pickled', 'in_place', 'component_added', 'container', 'pulled_unstored', 'twice', 'two_possible_differences', 'set_back']
    state_measure = 'distinct (operation, class, depth, differences stored, way it was stopped, outcome, number of entries changed)'

    def setup(self):
        import warnings; warnings.simplefilter('ignore')
        import SUAVE, SUAVE.Components.Configs

    # ------------------------------------------------------------------------------------------------ generation
    def gen(self, rng, tier, i):
        ops, n = [], 1
        for _ in range(rng.choice([4, 8, 14, 24])):
            r, t = rng.random(), rng.randrange(12)
            if n == 1 or (n < 6 and r < .14): op = dict(op='config', base=rng.randrange(6), cls=rng.choice(['Config', 'Config', 'Config', 'Diffed_Data']), how=rng.choice(['append', 'append', 'alone'])); n += 1
            elif r < .45: op = dict(op='set', at=t, path=rng.randrange(10 ** 6), value=rng.randrange(10 ** 6), what=rng.choice(['number', 'number', 'number', 'array', 'array', 'text', 'list', 'none', 'bool', 'new', 'new', 'nudge', 'as_base', 'as_base']))
            elif r < .53: op = dict(op='in_place', at=t, path=rng.randrange(10 ** 6), value=rng.randrange(10 ** 6))
            elif r < .6: op = dict(op='component', at=t, value=rng.randrange(10 ** 6), name=rng.choice(['canard', 'tail', 'main', 'pod', 'canard']))
            elif r < .74: op = dict(op='store', at=t)
            elif r < .93: op = dict(op='pull', at=t, name=rng.choice(['pull_base', 'pull_base', 'finalize']))
            elif r < .96: op = dict(op='copy', at=t, how=rng.choice(['copy', 'pickle', 'copy']))
            else: op = dict(op='all', name=rng.choice(['pull_base', 'finalize', 'store_diff']))
            if op['op'] in ('store', 'pull') and rng.random() < .25:
                op['stop'] = round(rng.choice([rng.random(), 10 ** rng.uniform(-3.5, 0), 1 - 10 ** rng.uniform(-3, 0)]), 5); op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            if op['op'] == 'pull' and rng.random() < .15: op['twice'] = True
            ops.append(op)
        return dict(ops=ops, vehicle=rng.randrange(10 ** 6))

    def vehicle(self, seed):
        import random, SUAVE
        rng = random.Random(seed)
        v = SUAVE.Vehicle(); v.tag = 'plane'
        v.passengers, v.reference_area = rng.randrange(200), round(rng.uniform(1, 99), 2)
        v.curve = np.array([round(rng.uniform(1, 9), 3) for _ in range(3)])
        for k in range(rng.choice([0, 1, 2])): v.append_component(self.wing(rng, 'wing_%d' % k))
        if rng.random() < .6:
            f = SUAVE.Components.Fuselages.Fuselage(); f.tag = 'fuselage'
            f.heights.maximum = round(rng.uniform(1, 5), 2)
            s = SUAVE.Components.Lofted_Body_Segment.Segment(); s.tag = 'nose'; s.height = round(rng.uniform(.1, 2), 2); f.Segments.append(s)
            v.append_component(f)
        if rng.random() < .3: v.notes = 'a text'
        return v

    def wing(self, rng, tag):
        import SUAVE
        w = rng.choice([SUAVE.Components.Wings.Wing, SUAVE.Components.Wings.Horizontal_Tail])()
        w.tag = tag
        w.spans.projected, w.origin = round(rng.uniform(1, 40), 2), [[round(rng.uniform(0, 9), 2), 0, 0]]
        w.polar = np.array([[round(rng.uniform(1, 9), 2)] * 2])
        for k in range(rng.choice([0, 1, 2])):
            s = SUAVE.Components.Wings.Segment(); s.tag = 'section_%d' % k; s.twist = round(rng.uniform(0, .1), 3)
            w.Segments.append(s)
        return w

    # ------------------------------------------------------------------------------------------------ running
    def run(self, scn, ctx):
        import SUAVE, random
        from SUAVE.Core import Diffed_Data
        v = self.vehicle(scn['vehicle'])
        # one entry per vehicle or configuration: the object, its base, what it holds, and the differences it may have stored
        objs = [dict(o=v, base=None, t=snap(v), d=None, depth=0)]
        group = SUAVE.Components.Configs.Config.Container()
        members, count = [], 0
        for k, op in enumerate(scn['ops']):
            label = 'operation %d (%s)' % (k, op['op'])
            x = objs[op.get('at', 0) % len(objs)]
            touched, changed = [], 0
            if op['op'] == 'config':
                b = objs[op['base'] % len(objs)]
                cls = SUAVE.Components.Configs.Config if op['cls'] == 'Config' else Diffed_Data
                c = cls(b['o'])
                c.tag = 'config_%d' % count; count += 1
                t = merge(snap(cls()), b['t']); t['tag'] = c.tag
                n = dict(o=c, base=b, t=t, d=[Node()], depth=b['depth'] + 1)
                if op['how'] == 'append':
                    group.append(c); members.append(n)
                    n['d'] = [differences(n['t'], b['t'])]
                    ctx.probe('container')
                objs.append(n)
                if n['depth'] > 1: ctx.probe('grandchild')
            elif op['op'] == 'set': self.set(ctx, x, op)
            elif op['op'] == 'in_place':
                places = [p for p, a in flat(x['t']) if isinstance(a, np.ndarray)]
                if places:
                    p = places[op['path'] % len(places)]
                    a = self.at(x['o'], p)
                    a.flat[op['value'] % a.size] = value = round(op['value'] % 977 / 7., 3)
                    m = x['t']
                    for s in p[:-1]: m = m[s]
                    m[p[-1]].flat[op['value'] % a.size] = value
                    ctx.probe('in_place')
            elif op['op'] == 'component':
                wings = x['t'].get('wings')
                if isinstance(wings, Node) and op['name'] not in ('append', 'keys'):
                    w = self.wing(random.Random(op['value']), op['name'])
                    x['o'].wings[op['name']] = w
                    wings[op['name']] = snap(w)
                    ctx.probe('component_added')
            elif op['op'] in ('store', 'pull'):
                if x['base'] is None: continue
                changed = self.one(ctx, x, op, label)
            elif op['op'] == 'copy':
                if x['base'] is None: continue
                new = copy.deepcopy(x['o']) if op['how'] == 'copy' else pickle.loads(pickle.dumps(x['o']))
                ctx.probe('copied' if op['how'] == 'copy' else 'pickled')
                chain, o = [], new
                y = x
                while y is not None:
                    chain.append(dict(y, o=o, t=y['t'].copy(), d=copy.deepcopy(y['d'])))
                    y = y['base']
                    if y is not None: o = o._base
                for a, b in zip(chain, chain[1:] + [None]): a['base'] = b
                objs += chain[::-1]
            elif op['op'] == 'all':
                getattr(group, op['name'])()
                for n in members:
                    if op['name'] == 'store_diff': n['d'] = [differences(n['t'], n['base']['t'])]
                    else: changed += self.pulled(ctx, n, label)
            ctx.log(label, op.get('at'), changed)
            for j, n in enumerate(objs):
                d = compare(snap(n['o']), n['t'])
                if d:
                    who = 'the %s' % n['o'].__class__.__name__.lower() + ' %d' % j
                    raise Violation('wrong-content' if n is x else 'changed', '%s on %d: in %s (depth %d) %s' % (label, objs.index(x), who, n['depth'], d), '%s:%s' % ('wrong-content' if n is x else 'changed', op['op']))
            ctx.state(op['op'], type(x['o']).__name__, x['depth'], x['d'] is not None and len(x['d']) > 1, op.get('exc'), min(changed, 9))
            if changed: ctx.probe('pull_changed')

    def at(self, o, path):
        for p in path: o = o[p]
        return o

    def set(self, ctx, x, op):
        import random
        rng = random.Random(op['value'])
        places = [(p, a) for p, a in flat(x['t']) if not isinstance(a, Node) and p[-1] != 'tag']
        nodes = [()] + [p for p, a in flat(x['t']) if isinstance(a, Node) and 'Ordered' not in a.kind and p[-1] not in ('Segments',)]
        value = dict(number=round(rng.uniform(1, 99), 3), array=np.array([round(rng.uniform(1, 99), 3) for _ in range(rng.choice([1, 2, 3, 3]))]), text='text %d' % rng.randrange(50), list=[round(rng.uniform(1, 99), 3) for _ in range(2)],
                     none=None, bool=rng.random() < .5).get(op['what'], round(rng.uniform(1, 99), 3))
        if op['what'] == 'new': p = nodes[op['path'] % len(nodes)] + ('entry_%d' % rng.randrange(4),)
        else:
            if op['what'] == 'nudge': places = [q for q in places if isinstance(q[1], float) or isinstance(q[1], np.ndarray) and q[1].dtype.kind == 'f'] or places
            p = places[op['path'] % len(places)][0]
        m = x['t']
        for s in p[:-1]: m = m[s]
        if isinstance(m.get(p[-1]), Node): return
        if op['what'] == 'nudge':                                    # a difference in the last digits, in one entry
            a = m.get(p[-1])
            if isinstance(a, np.ndarray) and a.dtype.kind == 'f': value = a.copy(); value.flat[op['value'] % a.size] += 1e-9
            elif isinstance(a, float): value = a * (1 + 1e-12) + 1e-14
        if op['what'] == 'as_base':                                  # back to what the base has
            b = x['base'] and x['base']['t']
            d = [q for q, a in flat(x['d'][0]) if not isinstance(a, Node) and q[-1] != 'tag'] if b else []
            if d: p = d[op['path'] % len(d)]
            for s in p: b = b.get(s) if isinstance(b, Node) else None
            if b is None or isinstance(b, Node): return
            value, m = copy.deepcopy(b), x['t']
            for s in p[:-1]:
                m = m.get(s)
                if not isinstance(m, Node): return
            if isinstance(m.get(p[-1]), Node): return
            ctx.probe('set_back')
        self.at(x['o'], p[:-1])[p[-1]] = value
        m[p[-1]] = copy.deepcopy(value)

    def pulled(self, ctx, x, label):
        """What a completed pull makes of the model; with several possible differences, those that explain what is there."""
        if x['base'] is not None and x['base']['base'] is not None: self.pulled(ctx, x['base'], label)
        old = dict(flat(x['t']))
        base = x['base']['t']
        if len(x['d']) > 1: ctx.probe('two_possible_differences')
        if not x['d'][0]: ctx.probe('pulled_unstored')
        outs = [merge(merge(x['t'].copy(), base), d) for d in x['d']]
        got = snap(x['o'])
        fit = [j for j, t in enumerate(outs) if not compare(got, t)]
        if len(fit) == 0: fit = [0]
        x['t'], x['d'] = outs[fit[0]], [x['d'][j] for j in fit]
        ctx.probe('pulled')
        if any(not isinstance(b, Node) and len(p) > 1 and not same(b, dict(flat(base)).get(p)) for p, b in list(flat(x['d'][0]))[:50]): ctx.probe('kept_difference')
        new = dict(flat(x['t']))
        return sum(1 for p in new if p not in old or not (isinstance(new[p], Node) or same(new[p], old[p])))

    def one(self, ctx, x, op, label):
        call = lambda o: o.store_diff() if op['op'] == 'store' else getattr(o, op['name'])()
        at = None
        if 'stop' in op:                                             # a fraction of the lines it takes
            dry, o = Counter(None, KeyboardInterrupt, LINES), copy.deepcopy(x['o'])
            with dry: call(o)
            at = max(1, int(op['stop'] * dry.n))
        cnt = Counter(at, EXC[op.get('exc', 'MemoryError')], LINES)
        err = None
        try:
            with cnt: call(x['o'])
        except (Violation, HarnessError): raise
        except BaseException as e: err = e
        if cnt.fired: ctx.fault(op['exc'])
        ctx.log(label, 'raised ' + type(err).__name__ if err is not None else 'done', cnt.where)
        if err is not None and not cnt.fired: raise Violation('failed', '%s raised %s: %s (%s)' % (label, type(err).__name__, str(err)[:200], where(err.__traceback__)), 'failed:' + op['op'])
        if err is None and cnt.fired and op['exc'] == 'KeyboardInterrupt': raise Violation('error-swallowed', '%s: an interrupt in %s was swallowed' % (label, cnt.where), 'error-swallowed')
        if op['op'] == 'store':
            new = differences(x['t'], x['base']['t'])
            if err is None: x['d'] = [new]; ctx.probe('stored')
            else: x['d'] = x['d'] + [new]; ctx.probe('stopped_store')
            return 0
        if err is None:
            n = self.pulled(ctx, x, label)
            if op.get('twice'):
                d = compare(snap(x['o']), x['t'])
                if d is None:
                    getattr(x['o'], op['name'])()
                    d = compare(snap(x['o']), x['t'])
                    if d: raise Violation('not-settled', '%s: pulling a second time changes it: %s' % (label, d), 'not-settled')
                    ctx.probe('twice')
            return n
        ctx.probe('stopped_pull')
        y = x                                                        # every entry is as it was, or as the pull leaves it
        while y['base'] is not None:
            allowed = {}
            z = y['base']
            srcs = [y['t'], z['t']] + y['d']
            while z['base'] is not None: srcs += z['d'] + [z['base']['t']]; z = z['base']
            for s in srcs:
                for p, v in flat(s): allowed.setdefault(p, []).append(v)
            got = snap(y['o'])
            for p, v in flat(got):
                if not any(isinstance(v, Node) and isinstance(w, Node) or same(v, w) for w in allowed.get(p, [])):
                    raise Violation('invented', '%s was stopped: %s is %s, which neither the configuration nor its base had there' % (label, '.'.join(p), show(v)), 'invented')
            for p, v in flat(y['t']):
                if p not in dict(flat(got)): 
                    if all(any(isinstance(w, Node) for w in allowed.get(p[:j], [0])) and not all(isinstance(w, Node) for w in allowed.get(p[:j], [])) for j in range(1, len(p))) and len(p) > 1: continue
                    raise Violation('lost', '%s was stopped: %s is gone' % (label, '.'.join(p)), 'lost')
            y['t'] = got
            y = y['base']
        return 1

    def nontrivial(self, scn, snap_):
        return bool(snap_['probes'].get('pull_changed') or snap_['probes'].get('stopped_pull'))


CHECK = C23()
