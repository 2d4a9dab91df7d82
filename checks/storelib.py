"""Shared driver for 'a save replaces the file or leaves it alone' properties (C08, C09)."""
import os, sys
from sim.core import Check, Violation, HarnessError, CURRENT
from sim.fs import SimFS, gen_fault
from sim.instr import Counter

INJ = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


class StoreCheck(Check):
    """Subclasses: gen_doc(rng) -> spec, save(spec, path), load(path) -> obj, compare(spec, obj) -> None|text,
    storable(spec) -> bool."""
    names = ['results.res', 'sub/other.res']
    only = None
    timeout = 120

    def gen_ops(self, rng, tier, i):
        ops = []
        nf = rng.choice([1, 1, 2])
        p_fault = rng.choice([0.3, 0.6, 0.8])
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            name = rng.randrange(nf)
            if r < 0.72:
                op = dict(op='save', name=name, doc=self.gen_doc(rng), how=rng.choice(['abs', 'rel', 'rel']))
                if rng.random() < p_fault:
                    q = rng.random()
                    if q < 0.72:
                        op['faults'] = [gen_fault(rng, max_at=5)]
                        if rng.random() < .2: op['faults'].append(gen_fault(rng, max_at=5))
                    else:
                        op['line'] = round(rng.random(), 4)
                        op['kind'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'crash', 'crash'])
                ops.append(op)
            elif r < 0.86:
                ops.append(dict(op='truncate', name=name, frac=round(rng.random(), 5), tail=rng.choice([0, 0, 1, 2, 3])))
            else:
                ops.append(dict(op='load', name=name, fault=gen_fault(rng, kinds=['EIO', 'EACCES', 'EMFILE', 'KeyboardInterrupt'],
                                                                        ops=['read', 'open-r'], max_at=2)))
        return ops

    # ------------------------------------------------------------ pieces run inside sessions
    def _save(self, sub, path, spec, faults, at, kind, where):
        """One process: build, save under faults. Returns ('returned', open files) or ('raised', type, open files)."""
        data = self.build(spec)
        fs = SimFS(sub, sub.root, faults)
        with fs:
            try:
                if at is not None:
                    exc = sub.crash if kind == 'crash' else INJ[kind]

                    def boom():
                        sub.fault('line:' + kind)
                        if kind == 'crash': sub.crash()
                        raise INJ[kind]('injected')
                    with Counter(at=at, exc=boom, only=self.only):
                        self.save(data, path)
                else:
                    self.save(data, path)
                res = 'returned'
            except Exception as e:
                res = 'raised ' + type(e).__name__
            except KeyboardInterrupt:
                res = 'raised KeyboardInterrupt'
            left = fs.open_files()
        return res, left, fs.nops

    def _dry(self, sub, path, spec):
        data = self.build(spec)
        c = Counter(only=self.only)
        try:
            with c: self.save(data, path)
        except Exception:
            pass
        return c.n

    def _load(self, sub, path, expect, faults):
        """Load in a clean process and compare with each expected document. Returns (status, which)."""
        fs = SimFS(sub, sub.root, faults)
        with fs:
            try:
                obj = self.load(path)
                status = 'ok'
            except Exception as e:
                obj, status = None, 'raised ' + type(e).__name__
            except KeyboardInterrupt:
                obj, status = None, 'raised KeyboardInterrupt'
            left = fs.open_files()
        msgs = []
        if status == 'ok':
            for k, spec in enumerate(expect):
                m = self.compare(spec, obj)
                if m is None: return status, k, '', left
                msgs.append(m)
        return status, None, ' / '.join(msgs), left

    # ------------------------------------------------------------ the run
    def run(self, scn, ctx):
        root = ctx.root
        os.makedirs(os.path.join(root, 'sub'))
        model = {}                                 # name index -> list of acceptable specs, or 'absent', 'broken'
        for k, op in enumerate(scn['ops']):
            name = op['name']
            rel = self.names[name]
            full = os.path.join(root, rel)
            cur = model.get(name, 'absent')
            if op['op'] == 'save':
                path = full if op['how'] == 'abs' else rel
                at = None
                if 'line' in op:
                    st = ctx.session(self._dry, os.path.join(root, 'dry.res'), op['doc'])
                    n = st[1]
                    at = 1 + int(op['line'] * max(n - 1, 0))
                st = ctx.session(self._save, path, op['doc'], op.get('faults') or [], at, op.get('kind'), k)
                status = 'crash' if st[0] == 'crash' else st[1][0]
                ctx.log(k, 'save', rel, status)
                ctx.state('save', status, [(f['kind'], f.get('op')) for f in op.get('faults') or []], op.get('kind'), type(cur).__name__)
                # an interrupt between two lines can fall on the exit of a with block, which no code can guard;
                # interrupts inside file operations are checked
                if st[0] == 'ok' and self.check_open and st[1][1] and 'line' not in op:
                    raise Violation('file-left-open', 'op %d: save of %s %s and left %s open' % (k, rel, status, st[1][1]))
                new = [op['doc']] if self.storable(op['doc']) else []
                if status == 'returned':
                    if not new:
                        raise Violation('unsupported-data-saved', 'op %d: saving %s reported success' % (k, self.why_not(op['doc'])))
                    accept = new
                elif cur == 'absent':
                    if not op.get('faults') and at is None and new:
                        raise Violation('spurious-error', 'op %d: a save without any fault %s' % (k, status))
                    accept = new + ['absent']
                elif cur == 'broken':
                    accept = new + ['broken']
                else:
                    if not op.get('faults') and at is None and new:
                        raise Violation('spurious-error', 'op %d: a save without any fault %s' % (k, status))
                    accept = new + list(cur)
                docs = [a for a in accept if not isinstance(a, str)]
                st = ctx.session(self._load, full, docs, [])
                got, which, msg, left = st[1]
                ctx.log(k, 'load', got, which)
                if got == 'ok':
                    if which is None:
                        if cur == 'absent' and status != 'returned' or not docs:
                            raise Violation('partial-data-loaded', 'op %d: after a save that ended with %s, %s loads as something else: %s' % (k, status, rel, msg))
                        raise Violation('wrong-data', 'op %d: after a save that ended with %s, %s loads as neither the new nor the previous data: %s' % (k, status, rel, msg))
                    model[name] = [docs[which]]
                else:
                    if status == 'returned':
                        raise Violation('acknowledged-save-unreadable', 'op %d: the save returned but loading %s %s' % (k, rel, got))
                    if 'absent' in accept:
                        model[name] = 'absent' if not os.path.exists(full) else 'broken'
                    elif 'broken' in accept:
                        model[name] = 'broken'
                    else:
                        raise Violation('previous-destroyed', 'op %d: the save ended with %s and the previous %s is no longer readable (%s)' % (k, status, rel, got))
                    ctx.probe('nothing_saved_yet')
                if status.startswith('raised') or status == 'crash':
                    ctx.probe('failed_save_checked')
            elif op['op'] == 'truncate':
                if isinstance(cur, str): continue
                with open(full, 'rb') as f: raw = f.read()
                body = len(raw.rstrip())                # cutting only trailing white space loses no data
                if op['tail'] and op['tail'] < body: cut = body - op['tail']
                else: cut = min(int(op['frac'] * body), body - 1)
                p2 = os.path.join(root, 'cut.res')
                with open(p2, 'wb') as f: f.write(raw[:cut])
                ctx.fault('truncate')
                st = ctx.session(self._load, p2, cur, [])
                got, which, msg, left = st[1]
                ctx.log(k, 'load truncated', cut, 'of', len(raw), got)
                if got == 'ok':
                    raise Violation('truncated-accepted', 'op %d: %s cut at byte %d of %d loads without an error' % (k, rel, cut, len(raw)))
                if self.check_open and left:
                    raise Violation('file-left-open', 'op %d: load of a truncated %s %s and left %s open' % (k, rel, got, left))
            elif op['op'] == 'load':
                if isinstance(cur, str): continue
                st = ctx.session(self._load, full, cur, [op['fault']])
                got, which, msg, left = st[1]
                ctx.log(k, 'faulty load', got, which)
                if got == 'ok' and which is None:
                    raise Violation('partial-data-loaded', 'op %d: loading %s with a disk fault gave wrong data: %s' % (k, rel, msg))
                if self.check_open and left:
                    raise Violation('file-left-open', 'op %d: load of %s %s and left %s open' % (k, rel, got, left))

    def shrink(self, scn):
        for k, op in enumerate(scn['ops']):
            def put(o): return dict(scn, ops=scn['ops'][:k] + [o] + scn['ops'][k + 1:])
            if op['op'] == 'save':
                if op.get('faults'):
                    for j in range(len(op['faults'])):
                        fs = op['faults'][:j] + op['faults'][j + 1:]
                        yield put(dict(op, faults=fs))
                    for j, f in enumerate(op['faults']):
                        if f.get('times', 1) not in (1,): yield put(dict(op, faults=op['faults'][:j] + [dict(f, times=1)] + op['faults'][j + 1:]))
                if 'line' in op:
                    yield put({a: b for a, b in op.items() if a not in ('line', 'kind')})
                for d in self.shrink_doc(op['doc']):
                    yield put(dict(op, doc=d))
                if op['how'] != 'abs': yield put(dict(op, how='abs'))
                if op['name'] != 0:
                    yield dict(scn, ops=[dict(o, name=0) for o in scn['ops']])

    def shrink_doc(self, d):
        return []

    def why_not(self, spec):
        return 'data that cannot be stored'
