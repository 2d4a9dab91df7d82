"""C22: unit conversions return to the normal rules after a context ends."""
import math, sys
from sim.core import Check, Violation, HarnessError, Injected, where
from sim.instr import Counter

C, H, K = 299792458.0, 6.62606957e-34, 1.3806488e-23
L, F, E, T, M, V, S = 'length frequency energy temperature mass volume time'.split()

# Every context's rules as closed forms in base units: (from, to) -> f(value, parameters).
# The dimensions form a tree, so there is one path between any two of them.
MODEL = {
    'spectroscopy': dict(defaults=dict(n=1.0), rules={(L, F): lambda v, n, **k: C / n / v, (F, L): lambda v, n, **k: C / n / v, (F, E): lambda v, **k: H * v, (E, F): lambda v, **k: v / H}),
    'boltzmann': dict(defaults={}, rules={(T, E): lambda v, **k: K * v, (E, T): lambda v, **k: v / K}),
    'fluid': dict(defaults=dict(rho=1000.0), rules={(M, V): lambda v, rho, **k: v / rho, (V, M): lambda v, rho, **k: v * rho}),
    'annihilation': dict(defaults={}, rules={(M, E): lambda v, **k: v * C * C}),
    'halfspeed': dict(defaults=dict(n=1.0), rules={(L, F): lambda v, n, **k: C / 2 / n / v, (F, L): lambda v, n, **k: C / 2 / n / v}),
    'towing': dict(defaults=dict(u=3.0), rules={(L, S): lambda v, u, **k: v / u, (S, L): lambda v, u, **k: v * u}),
}
TEXT = {
    'fluid': ['@context(rho=1000) fluid = fl', '[mass] -> [volume]: value / rho / kilogram * meter ** 3', '[volume] -> [mass]: value * rho * kilogram / meter ** 3'],
    'annihilation': ['@context annihilation', '[mass] -> [energy]: value * speed_of_light ** 2'],
    'halfspeed': ['@context(n=1) halfspeed', '[length] <-> [frequency]: speed_of_light / 2 / n / value'],
}
NAMES = {'spectroscopy': ['spectroscopy', 'sp'], 'boltzmann': ['boltzmann'], 'fluid': ['fluid', 'fl'], 'annihilation': ['annihilation'], 'halfspeed': ['halfspeed'], 'towing': ['towing']}
PARAM = {'spectroscopy': 'n', 'halfspeed': 'n', 'fluid': 'rho', 'towing': 'u'}
UNITS = {L: {'meter': 1.0, 'inch': 0.0254, 'nautical_mile': 1852.0, 'nanometer': 1e-9, 'foot': 0.3048}, F: {'hertz': 1.0, 'terahertz': 1e12, 'kilohertz': 1e3},
         E: {'joule': 1.0, 'eV': 1.60217653e-19, 'kilojoule': 1e3}, T: {'kelvin': 1.0}, M: {'kilogram': 1.0, 'gram': 1e-3, 'pound': 0.45359237},
         V: {'liter': 1e-3, 'meter ** 3': 1.0, 'gallon': 231 * 0.0254 ** 3}, S: {'second': 1.0, 'hour': 3600.0, 'minute': 60.0}}
PROBES = [(500.0, 'nanometer', 'terahertz'), (3.0, 'foot', 'meter'), (2.0, 'eV', 'kelvin'), (2.0, 'pound', 'gallon'), (1.5, 'hour', 'inch'), (90.0, 'minute', 'hour'),
          (4.0, 'liter', 'gallon'), (300.0, 'kelvin', 'joule'), (1.0, 'gram', 'eV'), (7.0, 'meter', 'joule'), (1.0, 'kilojoule', 'kilogram'), (2.0, 'gallon', 'kilogram')]
DIM = {u: d for d, us in UNITS.items() for u in us}


class Stack(object):
    """Active contexts, innermost first: (name, parameters)."""
    def __init__(self): self.frames = []

    def enter(self, names, kwargs):
        if self.frames: kwargs = dict(self.frames[0][1], **kwargs)       # the parameters of the containing context
        for n in names: self.frames.insert(0, (n, dict(MODEL[n]['defaults'], **kwargs)))

    def leave(self, n): del self.frames[:n]

    def convert(self, v, src, dst):
        a, b = DIM[src], DIM[dst]
        edges = {}
        for n, par in self.frames:
            for e, f in MODEL[n]['rules'].items(): edges.setdefault(e, (f, par))
        paths, path = [[a]], None
        while paths:
            p = paths.pop(0)
            if p[-1] == b: path = p; break
            paths += [p + [y] for x, y in edges if x == p[-1] and y not in p]
        if path is None: return None
        v = v * UNITS[a][src]
        for x, y in zip(path[:-1], path[1:]):
            f, par = edges[(x, y)]
            v = f(v, **par)
        return v / UNITS[b][dst]


class BlockError(Exception):
    pass


class C22(Check):
    prop = 'C22'
    n_quick, n_thorough = 4500, 300000
    timeout = 60
    rule = ('seeded programs of nested conversion contexts (built-in and user-defined, by name, alias or object, one or several per block, with parameters) on a registry of their own or on SUAVE.Core.Units; '
            'blocks end normally, with exceptions, with interrupts at seeded lines of a conversion or with failures injected into the registry while a context is entered; after every block and inside it a set of '
            'conversions is compared with a closed-form model of the active contexts; non-trivial = a block ended with an error or two contexts were nested')
    real = ['SUAVE.Plugins.pint (unit, context, quantity, util)', 'SUAVE.Core.Units']
    stub = ['failures and interrupts raised inside the registry']
    assumptions = ['blocks are properly nested in one thread', 'an interrupt does not land in the lines of the context manager itself (no Python context manager is atomic there)',
                   'inside a block SUAVE.Core.Units does not convert between dimensions (its quantities turn into plain numbers); only the state after the block is judged there']
    expected_probes = ['nested', 'several', 'raised', 'interrupted', 'unknown', 'entry_failed', 'converted', 'refused', 'parameter', 'suave_units', 'by_object', 'quantity_contexts', 'same_context_twice', 'enabled_without_block']
    state_measure = 'distinct (active contexts, parameters given, way the block ended, depth, registry kind)'

    def setup(self):
        import warnings; warnings.simplefilter('ignore')
        import logging; logging.getLogger('SUAVE.Plugins.pint').setLevel(logging.CRITICAL)
        import SUAVE.Core, SUAVE.Plugins.pint

    def gen(self, rng, tier, i):
        def conv():
            d = rng.choice(sorted(UNITS)); u = rng.choice(sorted(UNITS[d]))
            d2 = d if rng.random() < .25 else rng.choice(sorted(UNITS))
            op = dict(op='convert', v=rng.choice([1.0, 2.5, round(rng.uniform(1e-3, 1e3), 6)]), src=u, dst=rng.choice(sorted(UNITS[d2])), how=rng.choice(['to', 'to', 'ito', 'convert']))
            if rng.random() < .15: op['interrupt'], op['only'] = int(10 ** rng.uniform(0, 2)), rng.choice(['pint/', 'pint/context.py', 'pint/context.py', 'pint/util.py', 'pint/unit.py', 'pint/quantity.py'])
            return op

        def names():
            out = []
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
                n = rng.choice(sorted(MODEL))
                out.append([n, rng.choice(NAMES[n] + ['object'])])
            return out

        def kw(ns):
            out = {}
            for n, _ in ns:
                if n in PARAM and rng.random() < .45: out[PARAM[n]] = rng.choice([2.0, 1.5, 0.25, 800.0, 3.0])
            return out

        def body(depth):
            out = []
            for _ in range(rng.choice([1, 2, 2, 3] if depth else [2, 3, 5])):
                r = rng.random()
                if r < .45 and depth < 4:
                    ns = names()
                    b = dict(op='block', names=ns, kw=kw(ns), body=body(depth + 1), end=rng.choice(['normal', 'normal', 'normal', 'error', 'interrupt', 'exit', 'system']),
                             catch=rng.random() < .6, look=rng.random() < .5)
                    if rng.random() < .12: b['names'].insert(rng.randrange(len(ns) + 1), ['no_such_context', 'no_such_context'])
                    if rng.random() < .15: b['fail'] = dict(fn=rng.choice(['get_dimensionality', 'from_context', 'insert_contexts', 'add_transformation']), at=rng.randrange(3), exc=rng.choice(['KeyboardInterrupt', 'MemoryError', 'RuntimeError']))
                    out.append(b)
                elif r < .55:
                    ns = names(); c = conv(); c.pop('interrupt', None)
                    if rng.random() < .1: ns.append(['no_such_context', 'no_such_context'])
                    out.append(dict(c, op='quantity', names=ns, kw=kw(ns)))
                elif r < .6 and depth < 3:
                    ns = names()
                    out.append(dict(op='enable', names=ns, kw=kw(ns), body=body(depth + 1)))
                else: out.append(conv())
            return out
        return dict(registry=rng.choice(['own', 'own', 'own', 'own', 'suave']), ops=body(0))

    # ------------------------------------------------------------------------------------
    def run(self, scn, ctx):
        if scn['registry'] == 'suave':
            ctx.probe('suave_units')
            st = ctx.session(self.program, scn)
            if st[0] != 'ok': raise HarnessError('session ended')
        else: self.program(ctx, scn)

    def program(self, ctx, scn):
        from SUAVE.Plugins.pint import UnitRegistry
        from SUAVE.Plugins.pint.context import Context
        if scn['registry'] == 'suave':
            from SUAVE.Core import Units as ureg
        else: ureg = UnitRegistry()
        self.objects = {}
        for n in ('fluid', 'annihilation', 'halfspeed'):
            self.objects[n] = Context.from_lines(TEXT[n], ureg.get_dimensionality if n == 'halfspeed' else None)
            ureg.add_context(self.objects[n])
        tow = Context('towing', (), dict(u=3.0))
        tow.add_transformation('[length]', '[time]', lambda reg, value, u=3.0, **k: reg.Quantity(value.to('meter').magnitude / u, 'second'))
        tow.add_transformation('[time]', '[length]', lambda reg, value, u=3.0, **k: reg.Quantity(value.to('second').magnitude * u, 'meter'))
        ureg.add_context(tow)
        self.objects['towing'] = tow
        for n in ('spectroscopy', 'boltzmann'): self.objects[n] = ureg._contexts[n]
        self.ureg, self.ctx, self.real = ureg, ctx, scn['registry'] == 'own'
        self.stack = Stack()
        self.check('at the start', 0)
        try: self.body(scn['ops'], 'top', 0)
        except (BlockError, KeyboardInterrupt, SystemExit, Injected) as e: ctx.log('program ended with', type(e).__name__)
        self.stack.frames = []
        self.check('at the end', 0)

    def quantity(self, v, u): return self.ureg.Quantity(v, u)

    def one(self, v, src, dst, how='to'):
        from SUAVE.Plugins.pint.unit import DimensionalityError
        try:
            if how == 'convert':
                q = self.quantity(v, src)
                return self.ureg.convert(q.magnitude, q.units, self.quantity(1, dst).units)
            q = self.quantity(v, src)
            if how == 'ito': q.ito(dst); return q.magnitude
            return q.to(dst).magnitude
        except DimensionalityError: return None

    def compare(self, label, v, src, dst, got):
        if T in (DIM[src], DIM[dst]) and self.stack.frames: return       # the Boltzmann constant has no conversion factor in this registry
        want = self.stack.convert(v, src, dst)
        if self.stack.frames and not self.real: return
        self.ctx.probe('refused' if want is None else 'converted')
        if (got is None) != (want is None) or (got is not None and not abs(got - want) <= 1e-9 * abs(want)):
            raise Violation('wrong-conversion', '%s: %r %s to %s gives %s; with contexts %s it is %s' % (
                label, v, src, dst, 'refused' if got is None else '%.12g' % got, [(n, p) for n, p in self.stack.frames] or 'none', 'refused' if want is None else '%.12g' % want),
                'wrong-conversion:%s' % ('outside' if not self.stack.frames else 'inside'))

    def check(self, label, k):
        if self.stack.frames and not self.real: return
        for v, s, d in (PROBES if not self.stack.frames or k % 2 else PROBES[:9]):
            try: got = self.one(v, s, d)
            except (Violation, HarnessError): raise
            except Exception as e:
                if T in (DIM[s], DIM[d]) and self.stack.frames: continue
                raise Violation('conversion-raised', '%s: %r %s to %s raised %s: %s (%s)' % (label, v, s, d, type(e).__name__, e, where(e.__traceback__)), 'conversion-raised')
            self.compare(label, v, s, d, got)
        if not self.stack.frames:
            t = self.quantity(20.0, 'degC').to('kelvin').magnitude
            if abs(t - 293.15) > 1e-9: raise Violation('wrong-conversion', '%s: 20 degC is %r K' % (label, t), 'wrong-conversion:outside')

    def args(self, names): return [self.objects[n] if how == 'object' and n in self.objects else (n if how == 'object' else how) for n, how in names]

    def body(self, ops, label, depth):
        for k, op in enumerate(ops):
            name = '%s.%d' % (label, k)
            {'convert': self.convert, 'quantity': self.quantity_op, 'enable': self.enable, 'block': self.block}[op['op']](op, name, depth)

    def convert(self, op, name, depth):
        cnt = Counter(op.get('interrupt'), KeyboardInterrupt, (op.get('only', 'pint/'),))
        got = err = None
        try:
            with cnt: got = self.one(op['v'], op['src'], op['dst'], op['how'])
        except (Violation, HarnessError): raise
        except BaseException as e: err = e
        self.ctx.log(name, 'convert', None if err is None else type(err).__name__, cnt.where)
        if cnt.fired:
            self.ctx.probe('interrupted'); self.ctx.fault('interrupt_in_conversion')
            if not isinstance(err, KeyboardInterrupt): raise Violation('interrupt-swallowed', '%s: an interrupt in %s was swallowed' % (name, cnt.where), 'interrupt-swallowed')
            self.check('%s after an interrupted conversion' % name, depth)
            if op['v'] == 1.0: raise KeyboardInterrupt()                  # some programs pass it on
            return
        if err is not None:
            if self.stack.frames and (not self.real or T in (DIM[op['src']], DIM[op['dst']])): return
            raise Violation('conversion-raised', '%s: %r %s to %s raised %s: %s' % (name, op['v'], op['src'], op['dst'], type(err).__name__, err), 'conversion-raised')
        self.compare(name, op['v'], op['src'], op['dst'], got)

    def quantity_op(self, op, name, depth):
        from SUAVE.Plugins.pint.unit import DimensionalityError
        self.ctx.probe('quantity_contexts')
        bad = any(n == 'no_such_context' for n, _ in op['names'])
        got = err = None
        try: got = self.quantity(op['v'], op['src']).to(op['dst'], *self.args(op['names']), **op['kw']).magnitude
        except DimensionalityError: pass
        except Exception as e: err = e
        if bad:
            if not isinstance(err, KeyError): raise Violation('unknown-accepted', '%s: an unknown context gave %r' % (name, err or got), 'unknown-accepted')
        elif self.real and T not in (DIM[op['src']], DIM[op['dst']]):
            if err is not None: raise Violation('conversion-raised', '%s raised %s: %s' % (name, type(err).__name__, err), 'conversion-raised')
            self.stack.enter([n for n, _ in op['names']], op['kw'])
            try: self.compare(name, op['v'], op['src'], op['dst'], got)
            finally: self.stack.leave(len(op['names']))
        self.check('%s after converting with contexts' % name, depth)

    def enable(self, op, name, depth):
        """enable_contexts ... disable_contexts(n), as the block does it."""
        self.ctx.probe('enabled_without_block')
        self.ureg.enable_contexts(*self.args(op['names']), **op['kw'])
        self.stack.enter([n for n, _ in op['names']], op['kw'])
        try:
            self.check('%s inside' % name, depth)
            self.body(op['body'], name, depth + 1)
        except (Violation, HarnessError): raise
        finally:
            self.ureg.disable_contexts(len(op['names']))
            self.stack.leave(len(op['names']))
        self.check('%s after disabling' % name, depth)

    def block(self, op, name, depth):
        ctx, names = self.ctx, [n for n, _ in op['names']]
        known = 'no_such_context' not in names
        if depth: ctx.probe('nested')
        if len(names) > 1: ctx.probe('several')
        if len(set(names)) < len(names) or set(names) & set(n for n, _ in self.stack.frames): ctx.probe('same_context_twice')
        if op['kw']: ctx.probe('parameter')
        if any(h == 'object' for _, h in op['names']): ctx.probe('by_object')
        if any(n == 'no_such_context' for n in names): ctx.probe('unknown')
        ctx.state(tuple(self.stack.frames and [f[0] for f in self.stack.frames]), tuple(names), tuple(sorted(op['kw'].items())), op['end'], op.get('fail', {}).get('fn'), self.real)
        inside, err, fail = False, None, Fail(self, op.get('fail'))
        try:
            cm = self.ureg.context(*self.args(op['names']), **op['kw'])
            with fail: cm.__enter__()
            inside = True
            self.stack.enter(names, op['kw'])
            try:
                if op['look']: self.check('%s inside' % name, depth)
                self.body(op['body'], name, depth + 1)
                if op['end'] == 'error': raise BlockError(name)
                if op['end'] == 'interrupt': raise KeyboardInterrupt()
                if op['end'] == 'exit': raise SystemExit()
                if op['end'] == 'system': raise Injected(name)
            except (Violation, HarnessError): raise
            except BaseException as e:
                if not cm.__exit__(type(e), e, e.__traceback__): raise
                raise Violation('error-swallowed', '%s: the block swallowed %s' % (name, type(e).__name__), 'error-swallowed')
            else: cm.__exit__(None, None, None)
        except (Violation, HarnessError): raise
        except BaseException as e: err = e
        if inside: self.stack.leave(len(names))
        ctx.log(name, names, 'ended with', type(err).__name__ if err is not None else 'normally')
        if not known and not isinstance(err, KeyError) and not fail.fired: raise Violation('unknown-accepted', '%s: an unknown context was %s' % (name, 'accepted' if err is None else 'answered with ' + type(err).__name__), 'unknown-accepted')
        if err is not None:
            ctx.probe('raised')
            if fail.fired: ctx.probe('entry_failed')
            if not isinstance(err, (BlockError, KeyboardInterrupt, SystemExit, Injected)) and known and not fail.fired:
                raise Violation('block-raised', '%s: the block raised %s: %s (%s)' % (name, type(err).__name__, err, where(err.__traceback__)), 'block-raised')
            if fail.fired and inside and not isinstance(err, (BlockError, KeyboardInterrupt, SystemExit, Injected)):
                raise Violation('error-swallowed', '%s: entering swallowed %s' % (name, op['fail']), 'error-swallowed')
        elif fail.fired: raise Violation('error-swallowed', '%s: entering swallowed %s' % (name, op['fail']), 'error-swallowed')
        self.check('%s after the block %s' % (name, 'ended with %s' % type(err).__name__ if err is not None else 'ended'), depth)
        if err is not None and inside and not op['catch']: raise err

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or any(snap['probes'].get(k) for k in ('nested', 'raised', 'several'))

    def shrink(self, scn):
        def variants(ops):
            for k, op in enumerate(ops):
                if len(ops) > 1: yield ops[:k] + ops[k + 1:]
                for b in ([op.get('body')] if op.get('body') else []):
                    yield ops[:k] + b + ops[k + 1:]
                    for v in variants(b): yield ops[:k] + [dict(op, body=v)] + ops[k + 1:]
                for q in range(len(op.get('names', []))):
                    if len(op['names']) > 1: yield ops[:k] + [dict(op, names=op['names'][:q] + op['names'][q + 1:])] + ops[k + 1:]
                for key in ('interrupt', 'fail'):
                    if op.get(key): yield ops[:k] + [{a: b for a, b in op.items() if a != key}] + ops[k + 1:]
                if op.get('kw'): yield ops[:k] + [dict(op, kw={})] + ops[k + 1:]
                if op.get('end', 'normal') != 'normal': yield ops[:k] + [dict(op, end='normal')] + ops[k + 1:]
        for v in variants(scn['ops']): yield dict(scn, ops=v)


class Fail(object):
    """One call of a registry function fails."""
    def __init__(self, check, spec): self.check, self.spec, self.n, self.fired = check, spec, 0, False

    def __enter__(self):
        if not self.spec: return
        from SUAVE.Plugins.pint.context import Context, ContextChain
        fn = self.spec['fn']
        self.owner = self.check.ureg if fn == 'get_dimensionality' else ContextChain if fn == 'insert_contexts' else Context
        if not hasattr(self.owner, fn): self.spec = None; return
        own = self.owner.__dict__.get(fn)
        self.own, self.orig = own, getattr(self.owner, fn)

        def call(*a, **k):
            n, self.n = self.n, self.n + 1
            if n == self.spec['at'] and not self.fired:
                self.fired = True
                self.check.ctx.fault('%s_in_%s' % (self.spec['exc'], fn))
                raise dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, RuntimeError=RuntimeError)[self.spec['exc']]('injected')
            return self.orig(*a, **k)
        if fn == 'get_dimensionality': self.owner.__dict__[fn] = call
        elif fn == 'from_context': setattr(self.owner, fn, staticmethod(call))
        else: setattr(self.owner, fn, call)

    def __exit__(self, *a):
        if not self.spec: return False
        fn = self.spec['fn']
        if self.own is None and fn == 'get_dimensionality': self.owner.__dict__.pop(fn, None)
        else: setattr(self.owner, fn, self.own)
        return False


CHECK = C22()
