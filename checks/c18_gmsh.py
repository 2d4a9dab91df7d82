"""C18: a leftover mesh is never mistaken for a new one; the mesher's script describes the current surfaces."""
import os, sys, re
from sim.core import Check, Violation, HarnessError, where
from sim.fs import SimFS, gen_fault
from sim.instr import Counter
from sim import env


class Gmsh(env.Program):
    def __init__(self, ctx, plan):
        self.ctx, self.plan, self.runs, self.failed, self.fs, self.leftover, self.number = ctx, {int(k): v for k, v in plan.items()}, 0, 0, None, False, None
        self.f = {}

    def fail(self, k): self.ctx.fault(k); self.failed += 1

    def check_start(self, argv, cwd=None):
        if os.path.basename(argv[0]) != 'gmsh': raise HarnessError('unexpected program %r' % argv)
        self.f = self.plan.get(self.runs) or {}
        self.runs += 1
        self.leftover = os.path.exists(argv[argv.index('-o') + 1])
        if self.f.get('kind') == 'nostart':
            self.fail('gmsh_cannot_start')
            raise FileNotFoundError(2, 'No such file or directory', 'gmsh')

    def execute(self, argv, stdin, out, err):
        if self.fs is not None: self.fs.quiet += 1
        try:
            kind, rc = self.f.get('kind'), self.f.get('rc', 1)
            if kind == 'interrupt': self.fail('interrupt_while_gmsh_runs'); raise KeyboardInterrupt()
            if kind == 'dead': self.fail('gmsh_died'); return rc
            if kind == 'silent': self.fail('gmsh_wrote_nothing'); return 0
            try:
                with open(argv[1]) as h: geo = h.read()
            except OSError: return 1
            if 'Volume(' not in geo: self.ctx.log('no volume in the script'); return 1
            text = 'NDIME= 3\n%% made by request %s from\n%s' % (self.number, geo)
            if kind == 'partial':
                self.fail('gmsh_died_writing'); text = text[:60]
            with open(argv[argv.index('-o') + 1], 'w') as h: h.write(text)
            return rc if kind == 'partial' else 0
        finally:
            if self.fs is not None: self.fs.quiet -= 1


def parse(text):
    """The script as sets: surfaces of each physical group, and the surfaces bounding the volume."""
    groups = {m.group(1): sorted(int(x) for x in m.group(2).split(',')) if m.group(2).strip() else [] for m in re.finditer(r'Physical Surface\("(\w+)"\)\s*=\s*\{([^}]*)\};', text)}
    loops = {int(m.group(1)): [int(x) for x in m.group(2).split(',')] for m in re.finditer(r'Surface Loop\((\d+)\)\s*=\s*\{([^}]*)\};', text)}
    vol = [[int(x) for x in m.group(1).split(',')] for m in re.finditer(r'Volume\(\d+\)\s*=\s*\{([^}]*)\};', text)]
    bound = sorted(s for v in vol for l in v for s in loops.get(l, [None]))
    return groups, bound, re.findall(r'Merge\s+"([^"]*)";', text), len(vol)


class C18(Check):
    prop = 'C18'
    n_quick, n_thorough = 6000, 200000
    timeout = 60
    rule = ('seeded histories of surface lists, script requests and mesh requests for one to three vehicles over several sessions in one folder that already holds meshes, with mesher '
            'failures (not started, killed, exit codes, nothing or half written), disk faults on lists, scripts and the removal of meshes, interrupts and crashes; '
            'non-trivial = a fault fired or a leftover was present')
    real = ['SUAVE.Input_Output.GMSH.mesh_geo_file', 'SUAVE.Input_Output.GMSH.write_geo_file', 'real files']
    stub = ['the Gmsh program (writes the request number and its script into the mesh)', 'the surface list OpenVSP writes', 'subprocess', 'failures of file operations']
    assumptions = ['the surface list is complete when the script is requested (OpenVSP writes it)']
    expected_probes = ['meshed', 'scripted', 'leftover', 'raised', 'crashed', 'mesher_failed', 'not_removable', 'list_changed']
    state_measure = 'distinct (operation, leftover, failure origin, mesher outcome, outcome, mesh afterwards, position)'

    def setup(self):
        import SUAVE
        from SUAVE.Input_Output import GMSH

    def gen(self, rng, tier, i):
        tags = rng.sample(['wing', 'cruise', 'wing2', 'b.c', 'a b', 'base'], rng.choice([1, 1, 2, 3]))
        sessions = []
        for n in range(rng.choice([1, 2, 2, 3])):
            ops, plan, runs = [], {}, 0
            for _ in range(rng.choice([2, 3, 4, 6])):
                r, t = rng.random(), rng.choice(tags)
                if r < .2: op = dict(op='list', tag=t, surfaces=self.surfaces(rng))
                elif r < .45: op = dict(op='script', tag=t)
                else:
                    op = dict(op='mesh', tag=t)
                    if rng.random() < .4: plan[runs] = dict(kind=rng.choice(['nostart', 'dead', 'silent', 'partial', 'interrupt']), rc=rng.choice([1, 2, -9, -11, 127]))
                    runs += 1
                if rng.random() < .08: op['interrupt'] = int(10 ** rng.uniform(0, 1.9))
                ops.append(op)
            faults = []
            if rng.random() < .4:
                f = gen_fault(rng, kinds=['ENOSPC', 'EIO', 'EACCES', 'EPERM', 'KeyboardInterrupt', 'crash', 'short'], max_at=3)
                f['op'] = rng.choice(['remove', 'remove|unlink', 'write', 'close', 'open-w', 'open-r', 'read', 'write|close|remove'])
                if f['kind'] == 'short': f['op'] = 'write'
                faults.append(f)
            sessions.append(dict(ops=ops, plan={str(k): v for k, v in plan.items()}, faults=faults))
        return dict(ops=sessions, lists={t: self.surfaces(rng) for t in tags}, leftover=[t for t in tags if rng.random() < .6])

    def surfaces(self, rng):
        n = rng.choice([1, 1, 2, 3, 7, 40, 400, 2000] if rng.random() < .3 else [1, 2, 3])
        names = ['FarField'] + (['SymPlane'] if rng.random() < .5 else []) + ['Wing_%d' % k for k in range(n)]
        rng.shuffle(names)
        return names

    def run(self, scn, ctx):
        work = os.path.join(ctx.root, 'work')
        os.mkdir(work)
        lists = os.path.join(ctx.root, 'lists')
        self.lists = dict(scn['lists'])
        for t, l in self.lists.items(): self.put(os.path.join(work, t), l)
        for t in scn['leftover']:
            with open(os.path.join(work, t + '.su2'), 'w') as f: f.write('an old mesh\n')
            with open(os.path.join(work, t + '.geo'), 'w') as f: f.write('Merge "old.stl";\nVolume(2) = {1};\n')
        for k, s in enumerate(scn['ops']):
            st = ctx.session(self.proc, scn, s, work, k)
            if st[0] == 'crash':
                ctx.probe('crashed')
                for op in s['ops']:                       # the surface lists are inputs: put down what the session had planned
                    if op['op'] == 'list': self.lists[op['tag']] = op['surfaces']
                for t, l in self.lists.items(): self.put(os.path.join(work, t), l)
            else: self.lists = st[1]

    @staticmethod
    def put(base, names):
        with open(base + '.key', 'w') as f:
            f.write('%d surfaces\n' % len(names))
            for k, n in enumerate(names): f.write('%d %s\n' % (k + 1, n))

    def proc(self, ctx, scn, s, work, number):
        from SUAVE.Input_Output.GMSH import write_geo_file, mesh_geo_file
        os.chdir(work)
        stub = Gmsh(ctx, s['plan'])
        fs = stub.fs = SimFS(ctx, work, s['faults'], armed=False)
        with env.Programs(ctx, stub), fs:
            for k, op in enumerate(s['ops']):
                t = op['tag']
                if op['op'] == 'list':
                    self.put(t, op['surfaces']); self.lists[t] = op['surfaces']; ctx.probe('list_changed'); continue
                name = 'session %d, operation %d (%s %s)' % (number, k, op['op'], t)
                cnt = Counter(op.get('interrupt'), KeyboardInterrupt, ('Input_Output/GMSH/',))
                r0, f0, n0 = fs.nraised, stub.failed, stub.runs
                stub.number = '%d.%d' % (number, k)
                stub.leftover = False
                before = os.path.exists(t + '.su2')
                if before and op['op'] == 'mesh': ctx.probe('leftover')
                err = None
                fs.armed = True
                try:
                    with cnt: (write_geo_file if op['op'] == 'script' else mesh_geo_file)(t)
                except (Violation, HarnessError): raise
                except BaseException as e: err = e
                fs.armed = False
                cause, failed, ran = fs.nraised != r0 or cnt.fired, stub.failed != f0, stub.runs != n0
                after = os.path.exists(t + '.su2')
                ctx.log(name, 'raised ' + type(err).__name__ if err is not None else 'returned', after)
                ctx.state(op['op'], before, fs.nraised != r0, cnt.fired, failed, ran, err is None, after, k)
                if err is not None:
                    ctx.probe('raised')
                    if not cause and not failed:
                        raise Violation('spurious-error', '%s raised %s: %s although nothing failed (%s)' % (name, type(err).__name__, err, where(err.__traceback__)), 'spurious-error:' + where(err.__traceback__))
                if op['op'] == 'script':
                    if err is not None: continue
                    ctx.probe('scripted')
                    with open(t + '.geo') as f: text = f.read()
                    got = parse(text)
                    l = self.lists[t]
                    num = lambda p: sorted(i + 1 for i, n in enumerate(l) if p(n))
                    want = dict(VEHICLE=num(lambda n: n.startswith('Wing')), FARFIELD=num(lambda n: n == 'FarField'))
                    if 'SymPlane' in l: want['SYMPLANE'] = num(lambda n: n == 'SymPlane')
                    if got != (want, list(range(1, len(l) + 1)), [t + '.stl'], 1):
                        raise Violation('wrong-script', '%s: the script for surfaces %s describes %s' % (name, str(l)[:200], str(got)[:300]), 'wrong-script')
                    continue
                if failed: ctx.probe('mesher_failed')
                if before and not ran and fs.nraised != r0: ctx.probe('not_removable')
                if ran and stub.leftover:
                    raise Violation('leftover-mesh', '%s started the mesher although the old mesh is still there' % name, 'leftover-at-start')
                if after:
                    with open(t + '.su2') as f: text = f.read()
                    mine = ('made by request %s from' % stub.number) in text
                    if not mine and (ran or err is None or not cause):
                        raise Violation('leftover-mesh', '%s %s and a mesh of an earlier request is there under that name' % (name, 'returned' if err is None else 'raised ' + type(err).__name__), 'leftover-mesh')
                    if mine: ctx.probe('meshed')
                elif err is None and ran and not failed and os.path.exists(t + '.geo'):
                    with open(t + '.geo') as f: text = f.read()
                    if 'Volume(' in text: raise Violation('no-mesh', '%s returned, the mesher succeeded but no mesh exists' % name, 'no-mesh')
        return self.lists

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or bool(snap['probes'].get('leftover'))

    def shrink(self, scn):
        for k, s in enumerate(scn['ops']):
            def put(**kw): return dict(scn, ops=scn['ops'][:k] + [dict(s, **kw)] + scn['ops'][k + 1:])
            for j in range(len(s['ops'])):
                if len(s['ops']) > 1: yield put(ops=s['ops'][:j] + s['ops'][j + 1:])
                if s['ops'][j].get('interrupt'): yield put(ops=s['ops'][:j] + [{a: b for a, b in s['ops'][j].items() if a != 'interrupt'}] + s['ops'][j + 1:])
            for j in range(len(s['faults'])): yield put(faults=s['faults'][:j] + s['faults'][j + 1:])
            for p in list(s['plan']): yield put(plan={x: y for x, y in s['plan'].items() if x != p})
        for t in scn['leftover']: yield dict(scn, leftover=[x for x in scn['leftover'] if x != t])


CHECK = C18()
