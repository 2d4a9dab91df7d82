"""C21: containers keep every component they are given, under a unique name."""
import copy, pickle, random, string
from sim.core import Check, Violation, HarnessError, where
from sim.instr import Counter

TABLE = str.maketrans(string.punctuation + string.whitespace + string.ascii_uppercase, '_' * len(string.punctuation + string.whitespace) + string.ascii_lowercase)
KINDS = ['Container', 'Container', 'ContainerOrdered', 'ContainerOrdered', 'wings', 'segments', 'fuselage_segments', 'vehicle', 'vehicle', 'process', 'configs', 'main_wing_segments', 'networks', 'missions']
NAMES = ['wing', 'Wing', 'WING', 'wing1', 'wing2', 'wing 2', 'wing_2', 'main wing', 'main_wing', 'Main-Wing', 'a', 'aa', 'aaa', 'a1', 'a2', 'a3', 'A 1', '1', '11', '', ' ', 'x' * 40, '\u00c9', '\u00e9',
         'keys', 'append', 'values', 'update', 'items', 'pop', 'Copy', 'tag', '_hidden', '_root', '_map', '__class__', '0', 'segment', 'Segment', 'segment2']


class Draws(object):
    """Everything the random module can be asked for, from a small adversarial stream."""
    def __init__(self, seed): self.r, self.n = random.Random(seed), 0

    def randint(self, a, b):
        self.n += 1
        return self.r.choice([a, a, a + 1, b, self.r.randint(a, min(b, a + 3)), self.r.randint(a, b)])

    def __enter__(self):
        self.old = {k: getattr(random, k) for k in ('randint', 'randrange', 'random', 'choice')}
        random.randint = self.randint
        random.randrange = lambda a, b=None, step=1: self.randint(*((0, a - 1) if b is None else (a, b - 1)))
        random.random = lambda: self.r.choice([0.0, 0.5, 1 - 2.0 ** -53])
        random.choice = lambda s: s[self.randint(0, len(s) - 1)]

    def __exit__(self, *a):
        for k, v in self.old.items(): setattr(random, k, v)
        return False


class C21(Check):
    prop = 'C21'
    n_quick, n_thorough = 6000, 300000
    timeout = 40
    rule = ('seeded sequences of appends, extends, removals, deep copies and pickles on plain and ordered containers, on the containers of wings, fuselages, networks, segments, missions, processes and configurations and '
            'through Vehicle.append_component, with component names that collide after normalization or with generated names or with methods, components without usable names, adversarial draws of the random module, '
            'and interrupts or memory errors at seeded lines of an append; after every operation the stored components (identity, name, order, every way of access) are compared with a list model; '
            'non-trivial = names collided or an append failed')
    real = ['SUAVE.Core.Container', 'SUAVE.Core.ContainerOrdered', 'SUAVE.Core.Data', 'SUAVE.Core.DataOrdered', 'SUAVE.Vehicle.append_component', 'component and analysis containers']
    stub = ['random draws (adversarial values)', 'interrupts and memory errors at line boundaries']
    assumptions = ['the mass properties of a vehicle are one record by design (the newest is kept)', 'extending with a mapping updates same-named components by design; only new names without a leading underscore are extended here',
                   'interrupts arrive at line boundaries, one at a time, and not during a removal']
    expected_probes = ['appended', 'renamed', 'refused', 'removed', 'interrupted', 'memory_error', 'bad_value', 'extended', 'extended_mapping', 'copied', 'pickled', 'same_object', 'method_name', 'vehicle', 'long']
    state_measure = 'distinct (container kind, operation, name class, way it failed, number stored, outcome)'

    def setup(self):
        import warnings; warnings.simplefilter('ignore')
        import SUAVE

    def gen(self, rng, tier, i):
        kind = rng.choice(KINDS)
        pool = rng.sample(NAMES, rng.choice([2, 3, 5, 12, len(NAMES)]))
        if rng.random() < .4: base = rng.choice(['a', 'wing', 'b1']); pool = [base, base.upper(), base + '1', base + '2', base + '3', base + '4', base + '11']
        ops = []
        for k in range(rng.choice([3, 6, 10, 20, 40])):
            r = rng.random()
            if r < .72:
                op = dict(op='append', name=rng.choice(pool) if rng.random() < .8 else dict(last=rng.randrange(4), plus=rng.choice(['', '1', '2', '0'])))
                s = rng.random()
                if s < .04: op['bad'] = rng.choice(['none', 'no_tag', 'int_tag', 'none_tag', 'list_tag'])
                elif s < .09: op['again'] = rng.randrange(10)
                elif s < .2: op['interrupt'], op['exc'] = rng.choice([rng.randrange(1, 25), rng.randrange(1, 25), rng.randrange(1, 80)]), rng.choice(['KeyboardInterrupt', 'MemoryError'])
                if kind == 'vehicle': op['type'] = rng.choice(['wing', 'wing', 'main_wing', 'fuselage', 'network', 'nacelle', 'system', 'unknown' if rng.random() < .2 else 'wing'])
            elif r < .82: op = dict(op='extend', names=[rng.choice(pool) for _ in range(rng.randrange(4))], how=rng.choice(['list', 'tuple', 'mapping', 'set' if rng.random() < .2 else 'list']))
            elif r < .93: op = dict(op='remove', at=rng.randrange(30), how=rng.choice(['del', 'delattr', 'pop', 'absent' if rng.random() < .3 else 'delattr']))
            elif r < .97: op = dict(op='copy')
            else: op = dict(op='pickle')
            ops.append(op)
        return dict(kind=kind, ops=ops, draws=rng.getrandbits(30))

    # -------------------------------------------------------------------------------------
    def make(self, kind):
        import SUAVE
        from SUAVE.Core import Container, ContainerOrdered
        veh = None
        if kind == 'Container': c = Container()
        elif kind == 'ContainerOrdered': c = ContainerOrdered()
        elif kind == 'wings': c = SUAVE.Components.Wings.Wing.Container()
        elif kind == 'networks': c = SUAVE.Components.Energy.Networks.Network.Container()
        elif kind == 'segments': c = SUAVE.Components.Wings.Wing().Segments
        elif kind == 'main_wing_segments': import SUAVE.Components.Wings.Main_Wing as m; import sys; c = sys.modules['SUAVE.Components.Wings.Main_Wing'].Segment_Container()
        elif kind == 'fuselage_segments': c = SUAVE.Components.Fuselages.Fuselage().Segments
        elif kind == 'process': c = SUAVE.Analyses.Process()
        elif kind == 'missions': c = SUAVE.Analyses.Mission.Mission.Container()
        elif kind == 'configs': c = SUAVE.Components.Configs.Config.Container()
        elif kind == 'vehicle': veh = SUAVE.Vehicle(); c = None
        return c, veh

    def component(self, kind, op, tag):
        import SUAVE
        from SUAVE.Core import Data, Diffed_Data
        if kind == 'vehicle':
            W = SUAVE.Components
            d = {'wing': W.Wings.Horizontal_Tail, 'main_wing': W.Wings.Main_Wing, 'fuselage': W.Fuselages.Fuselage, 'network': W.Energy.Networks.Turbofan, 'nacelle': W.Nacelles.Nacelle,
                 'system': W.Systems.System, 'unknown': Data}[op.get('type', 'wing')]()
        elif kind == 'configs': d = Diffed_Data()
        elif kind in ('segments', 'main_wing_segments'): d = SUAVE.Components.Wings.Segment()
        else: d = Data()
        d.tag = tag
        return d

    def listing(self, c):
        """Names and components as stored, without the container's own methods where possible."""
        from SUAVE.Core import Data, DataOrdered
        if isinstance(c, DataOrdered):
            ks = list(DataOrdered.keys(c))
            return [(k, object.__getattribute__(c, '__dict__').get(k)) for k in ks]
        return [(k, dict.__getitem__(c, k)) for k in dict.keys(c)]

    def compare(self, c, model, label):
        got = self.listing(c)
        def show(l): return [(k, getattr(v, 'tag', v) if not isinstance(v, dict) else dict.get(v, 'tag', '?')) for k, v in l]
        if [k for k, _ in got] != [k for k, _ in model] or any(a[1] is not b[1] for a, b in zip(got, model)):
            lost = [k for k, v in model if not any(v is w for _, w in got)]
            raise Violation('lost' if lost else 'changed', '%s: the container holds %s; it should hold %s%s' % (label, show(got), show(model), '; lost %s' % lost if lost else ''), 'lost' if lost else 'changed')
        if len({k for k, _ in got}) != len(got): raise Violation('not-unique', '%s: names %s' % (label, [k for k, _ in got]), 'not-unique')
        for what, f in (('len', lambda: len(c) == len(model)), ('keys()', lambda: list(c.keys()) == [k for k, _ in model]), ('values()', lambda: all(a is b[1] for a, b in zip(c.values(), model)) and len(list(c.values())) == len(model)),
                        ('items()', lambda: [k for k, _ in c.items()] == [k for k, _ in model]), ('iteration', lambda: all(a is b[1] for a, b in zip(list(c), model)) and len(list(c)) == len(model)),
                        ('item access', lambda: all(c[k] is v for k, v in model)), ('attribute access', lambda: all(getattr(c, k) is v for k, v in model))):
            try: ok = f()
            except (Violation, HarnessError): raise
            except Exception as e: raise Violation('unusable', '%s: %s of a container holding %s raised %s: %s' % (label, what, [k for k, _ in model], type(e).__name__, e), 'unusable:' + what)
            if not ok: raise Violation('inconsistent', '%s: %s disagrees with the stored components %s' % (label, what, [k for k, _ in model]), 'inconsistent:' + what)

    def run(self, scn, ctx):
        with Draws(scn['draws']): self.go(scn, ctx)

    def roots(self, veh):
        return {n: getattr(veh, n) for n in ('wings', 'fuselages', 'networks', 'nacelles', 'systems', 'landing_gear', 'payload') if dict.__contains__(veh, n)}

    def go(self, scn, ctx):
        kind = scn['kind']
        c, veh = self.make(kind)
        if veh is not None: ctx.probe('vehicle')
        cs = self.roots(veh) if veh is not None else {'': c}
        models = {n: [(k, v) for k, v in self.listing(x)] for n, x in cs.items()}
        where_ = {'wing': 'wings', 'main_wing': 'wings', 'fuselage': 'fuselages', 'network': 'networks', 'nacelle': 'nacelles', 'system': 'systems', 'unknown': None}
        kept = []                                                         # earlier originals that must stay as they were
        for k, op in enumerate(scn['ops']):
            label = 'operation %d (%s)' % (k, op['op'])
            root = where_[op.get('type', 'wing')] if veh is not None else ''
            n0 = {n: list(m) for n, m in models.items()}
            if op['op'] == 'append':
                name = op['name']
                if isinstance(name, dict):
                    m = models[root] if root is not None else []
                    name = (m[-1 - name['last'] % len(m)][0] if m else 'a') + name['plus']
                val = self.component(kind, op, name)
                if op.get('bad'):
                    ctx.probe('bad_value')
                    from SUAVE.Core import Data
                    if op['bad'] == 'none': val = None
                    elif op['bad'] == 'no_tag': val = Data()
                    else: val.tag = dict(int_tag=3, none_tag=None, list_tag=['a'])[op['bad']]
                elif 'again' in op and root is not None and models[root]:
                    val = models[root][op['again'] % len(models[root])][1]
                    ctx.probe('same_object')
                self.append(ctx, kind, c, veh, val, op, models, root, label)
            elif op['op'] == 'extend':
                if veh is not None: continue
                vals = [self.component(kind, {}, n) for n in op['names']]
                how = op['how'] if not (op['how'] == 'set') else 'list'
                if how == 'mapping':
                    from SUAVE.Core import Data
                    d, taken = Data(), {x for x, _ in models['']}
                    for v in vals:
                        key = v.tag.translate(TABLE)
                        if key and not key.startswith('_') and key not in taken and not hasattr(type(c), key) and not dict.__contains__(d, key) and not hasattr(Data, key): dict.__setitem__(d, key, v)
                    arg, new = d, [(a, dict.__getitem__(d, a)) for a in dict.keys(d)]
                    ctx.probe('extended_mapping')
                else: arg, new = (tuple(vals) if how == 'tuple' else vals), None
                err = None
                try: c.extend(arg)
                except (Violation, HarnessError): raise
                except Exception as e: err = e
                ctx.log(label, how, 'raised ' + type(err).__name__ if err is not None else 'done')
                if new is not None:
                    if err is not None: raise Violation('extend-failed', '%s: extending with a mapping of new names raised %s: %s' % (label, type(err).__name__, err), 'extend-failed')
                    models[''] += new
                else:
                    got = self.listing(c)
                    n = len(got) - len(models[''])
                    if err is None and n != len(vals): raise Violation('lost', '%s: %d components given, %d stored' % (label, len(vals), n), 'lost:extend')
                    if err is not None and not isinstance(err, KeyError): raise Violation('extend-failed', '%s raised %s: %s' % (label, type(err).__name__, err), 'extend-failed')
                    if err is not None and 'ordered' not in kind.lower() and kind not in ('segments', 'fuselage_segments', 'process', 'main_wing_segments') and all(v.tag.isascii() for v in vals):
                        raise Violation('extend-failed', '%s raised %s: %s' % (label, type(err).__name__, err), 'extend-failed')
                    models[''] += [(got[len(models['']) + j][0], v) for j, v in enumerate(vals[:max(n, 0)])]
                    ctx.probe('extended')
            elif op['op'] == 'remove':
                t = c if veh is None else cs['wings']
                m = models['' if veh is None else 'wings']
                if op['how'] == 'absent' or not m: key = 'no_such_name'
                else: key = m[op['at'] % len(m)][0]
                err = None
                try:
                    if op['how'] == 'del': del t[key]
                    elif op['how'] == 'pop': t.pop(key)
                    else: delattr(t, key)
                except (Violation, HarnessError): raise
                except Exception as e: err = e
                ctx.log(label, op['how'], 'raised ' + type(err).__name__ if err is not None else 'done')
                if err is None:
                    ctx.probe('removed')
                    if key == 'no_such_name' : raise Violation('removed-nothing', '%s: removing a name that is not there did not raise' % label, 'removed-nothing')
                    m[:] = [x for x in m if x[0] != key]
                elif key != 'no_such_name' and op['how'] == 'delattr': raise Violation('remove-failed', '%s: deleting attribute %r raised %s: %s' % (label, key, type(err).__name__, err), 'remove-failed')
            elif op['op'] in ('copy', 'pickle'):
                whole = veh if veh is not None else c
                if op['op'] == 'copy': new = copy.deepcopy(whole)
                else:
                    if kind != 'ContainerOrdered' and kind != 'Container': continue
                    new = pickle.loads(pickle.dumps(whole))
                ctx.probe('copied' if op['op'] == 'copy' else 'pickled')
                kept.append((cs, {n: list(m) for n, m in models.items()}))
                if veh is not None: veh = new; cs = self.roots(veh)
                else: c = new; cs = {'': c}
                for n, x in cs.items():
                    got = self.listing(x)
                    if [a for a, _ in got] != [a for a, _ in models[n]] or any(v is w for (_, v), (_, w) in zip(got, models[n])) or any(dict.get(v, 'tag') != dict.get(w, 'tag') for (_, v), (_, w) in zip(got, models[n]) if not hasattr(v, '_map')):
                        raise Violation('copy-differs', '%s: the copy of a container holding %s holds %s' % (label, [a for a, _ in models[n]], [a for a, _ in got]), 'copy-differs')
                    models[n] = got
            for n, x in cs.items(): self.compare(x, models[n], '%s, after it%s' % (label, ', in ' + n if n else ''))
            ctx.state(kind, op['op'], op.get('bad'), op.get('interrupt') is not None, min(sum(map(len, models.values())), 12), {n: len(m) for n, m in n0.items()} == {n: len(m) for n, m in models.items()})
        for xs, ms in kept:
            for n, x in xs.items(): self.compare(x, ms[n], 'at the end, in a container that was copied')
        if sum(map(len, models.values())) > 12: ctx.probe('long')

    def append(self, ctx, kind, c, veh, val, op, models, root, label):
        key0 = val.tag if isinstance(val, dict) and dict.__contains__(val, 'tag') else None
        cnt = Counter(op.get('interrupt'), dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)[op.get('exc', 'MemoryError')], ('/Core/', 'SUAVE/Vehicle.py', 'Main_Wing.py', '/Mission.py'))
        err = None
        try:
            with cnt:
                if veh is not None: veh.append_component(val)
                else: c.append(val)
        except (Violation, HarnessError): raise
        except BaseException as e: err = e
        if cnt.fired: ctx.fault(op['exc']); ctx.probe('interrupted' if op['exc'] == 'KeyboardInterrupt' else 'memory_error')
        ctx.log(label, key0, 'raised ' + type(err).__name__ if err is not None else 'stored', cnt.where)
        if isinstance(key0, str) and hasattr(dict, key0.translate(TABLE)): ctx.probe('method_name')
        if err is not None:
            if cnt.fired and cnt.exc is KeyboardInterrupt and type(err) is not cnt.exc: raise Violation('error-swallowed', '%s: %s became %s: %s' % (label, op['exc'], type(err).__name__, err), 'error-swallowed')
            ctx.probe('refused')
            if cnt.fired and root is not None:                            # the failure may come when the component is already stored
                got = self.listing(c if veh is None else self.roots(veh)[root])
                if len(got) == len(models[root]) + 1 and got[-1][1] is val and got[-1][0] == val.tag.translate(TABLE): models[root].append(got[-1])
            if not cnt.fired and not op.get('bad') and root is not None:
                ordered = kind in ('ContainerOrdered', 'segments', 'fuselage_segments', 'process', 'main_wing_segments')
                names = {a for a, _ in models[root]}
                key = key0.translate(TABLE)
                if not ordered and key0.isascii(): raise Violation('append-failed', '%s: appending %r to %s raised %s: %s' % (label, key0, sorted(names), type(err).__name__, err), 'append-failed')
                if ordered and kind != 'main_wing_segments' and key not in names and not hasattr(type(c), key) and not key.startswith('_'):
                    raise Violation('append-failed', '%s: appending %r to %s raised %s: %s' % (label, key0, sorted(names), type(err).__name__, err), 'append-failed')
            return
        if cnt.fired and cnt.exc is KeyboardInterrupt: raise Violation('error-swallowed', '%s: %s in %s was swallowed' % (label, op['exc'], cnt.where), 'error-swallowed')
        if op.get('bad') and not isinstance(key0, str): raise Violation('bad-stored', '%s: a component with the name %r was accepted' % (label, key0), 'bad-stored')
        if root is None: raise Violation('bad-stored', '%s: a component of an unknown type was accepted' % label, 'bad-stored')
        ctx.probe('appended')
        target = c if veh is None else self.roots(veh)[root]
        got = self.listing(target)
        key = got[-1][0] if len(got) == len(models[root]) + 1 else None
        if key is None: key = val.tag.translate(TABLE)                    # the comparison reports what is missing
        if val.tag != key0: ctx.probe('renamed')
        if 'again' not in op and key != val.tag.translate(TABLE): raise Violation('name-differs', '%s: the component named %r is stored as %r' % (label, val.tag, key), 'name-differs')
        models[root].append((key, val))

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or any(snap['probes'].get(k) for k in ('renamed', 'refused'))

    def shrink(self, scn):
        for k, op in enumerate(scn['ops']):
            if len(scn['ops']) > 1: yield dict(scn, ops=scn['ops'][:k] + scn['ops'][k + 1:])
            for key in ('interrupt', 'again', 'bad'):
                if key in op: yield dict(scn, ops=scn['ops'][:k] + [{a: b for a, b in op.items() if a != key}] + scn['ops'][k + 1:])


CHECK = C21()
