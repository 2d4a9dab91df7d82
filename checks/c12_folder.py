"""C12: working-folder redirection."""
import os, sys, copy
from sim.core import Check, Violation, HarnessError
from sim.fs import SimFS, gen_fault

NAMES = ['a.txt', 'b.dat', 'c.big', 'd.out']


class Boom(Exception):
    pass


EXC = {'Boom': Boom, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'MemoryError': MemoryError}


class Model(object):
    """An executable reference model of folders with files and links."""
    def __init__(self, tree):
        self.t = dict(tree)                   # absolute path -> ('f', text) | ('l', absolute target)

    def real(self, p):
        n = 0
        while p in self.t and self.t[p][0] == 'l' and n < 9:
            p = self.t[p][1]; n += 1
        return p

    def exists(self, p):
        p = self.real(p)
        return p in self.t and self.t[p][0] == 'f'

    def read(self, p):
        return self.t[self.real(p)][1]

    def write(self, p, text):
        self.t[self.real(p)] = ('f', text)

    def link(self, src, dst):
        src = self.real(src)
        if src == dst: return
        self.t[dst] = ('l', src)


class Abort(Exception):
    pass


class C12(Check):
    prop = 'C12'
    n_quick, n_thorough = 4500, 200000
    rule = ('seeded programs of (nested) folder redirections with pull, link and push lists in both overwrite modes, whose blocks create and '
            'change files, raise or are interrupted, with disk faults and crashes at any file operation; files and folder are compared with a '
            'reference model; non-trivial = a fault fired or a block raised')
    real = ['SUAVE.Core.redirect.folder', 'SUAVE.Core.redirect.make_link', 'shutil', 'real files']
    stub = ['failures of the file operations (fault injection)']
    assumptions = ['a list does not hold two files of the same name', 'the block leaves the working folder only when it returns there before its end or pushes nothing']
    expected_probes = ['block_raised', 'enter_raised', 'exit_raised', 'nested', 'crash_checked', 'no_overwrite_kept', 'push_missing', 'pull_missing', 'linked']
    state_measure = 'distinct (list shapes, overwrite mode, how the block ended, fault fired)'

    def setup(self):
        import SUAVE.Core.redirect

    def gen_block(self, rng, depth):
        pull = rng.sample(NAMES, rng.choice([0, 0, 1, 2]))
        link = [n for n in rng.sample(NAMES, rng.choice([0, 0, 0, 1])) if n not in pull]
        body = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            r = rng.random()
            if r < .55: body.append(['write', rng.choice(NAMES), 'body%d' % rng.randrange(1000) + 'z' * rng.choice([0, 0, 9000])])
            elif r < .65: body.append(['chdir', rng.choice(['..', '.', 'sub'])])
            elif r < .80 and depth < 2: body.append(['block', self.gen_block(rng, depth + 1)])
            elif r < .9: body.append(['raise', rng.choice(sorted(EXC))])
        push = rng.sample(NAMES, rng.choice([0, 1, 1, 2]))
        if body and any(b[0] == 'chdir' for b in body): push = []
        return dict(folder=rng.choice(['work', 'work', 'new', 'x/y', '.', 'abs:work', '../side']), pull=pull, link=link, force=rng.random() < .7, body=body,
                    push=push, late=rng.random() < .3, form=rng.choice(['name', 'name', 'abs', 'str']))

    def gen(self, rng, tier, i):
        tree = {}
        for d in ('', 'work/', 'x/y/', '../side/'):
            for n in NAMES:
                if rng.random() < (.75 if d == '' else .3): tree[d + n] = 'old:%s%s' % (d, n) + '.' * rng.choice([0, 0, 5000])
        ops = [self.gen_block(rng, 0) for _ in range(rng.choice([1, 1, 2, 3]))]
        faults = []
        if rng.random() < .6:
            kinds = ['ENOSPC', 'EIO', 'EACCES', 'EROFS', 'crash', 'crash', 'KeyboardInterrupt']
            ops_ = ['rename', 'remove|unlink', 'open-w', 'write', 'mkdir', 'symlink', 'close', 'rename|remove|unlink|open-w|write|close|mkdir|symlink|chmod', 'open-r', 'chmod|utime']
            for _ in range(rng.choice([1, 1, 1, 2])):
                f = gen_fault(rng, kinds=kinds, ops=ops_, max_at=5)
                if f['kind'] in ('EIO', 'EACCES', 'EROFS', 'crash', 'KeyboardInterrupt'): f['op'] = rng.choice(ops_)
                faults.append(f)
        return dict(ops=ops, faults=faults, tree=tree)

    # -------------------------------------------------------------------------------- run
    def run(self, scn, ctx):
        base = os.path.join(ctx.root, 'base')
        for d in ('base/work', 'base/x/y', 'side'): os.makedirs(os.path.join(ctx.root, d))
        tree = {}
        for n, t in scn['tree'].items():
            p = os.path.normpath(os.path.join(base, n))
            with open(p, 'w') as f: f.write(t)
            tree[p] = ('f', t)
        notes = os.path.join(ctx.root, 'notes')
        st = ctx.session(self.proc, scn, base, tree, notes)
        if st[0] == 'crash':
            ctx.probe('crash_checked')
            ctx.log('crashed')
            m = Model(tree)
            legit = {}
            for p, v in tree.items(): legit.setdefault(os.path.basename(p), {})[p] = {v[1]}
            with open(notes) as f:
                for line in f:
                    p, t = line.rstrip('\n').split('\t')
                    legit.setdefault(os.path.basename(p), {}).setdefault(p, set()).add(t)
            self.survive(ctx.root, legit, 'after a crash')

    def survive(self, root, legit, when):
        """Every file name that existed still exists somewhere with one of its complete contents."""
        have = {}
        for d, _, fs in os.walk(root):
            for n in fs:
                p = os.path.join(d, n)
                if os.path.isfile(p):
                    with open(p) as f: have.setdefault(n, []).append((p, f.read()))
        for n in sorted(legit):
            good = set().union(*legit[n].values())
            if not any(t in good for _, t in have.get(n, [])):
                raise Violation('file-lost', '%s: no complete copy of %s is left (found %s)' % (
                    when, n, [(p[len(root):], t[:20], len(t)) for p, t in have.get(n, [])]))

    def proc(self, ctx, scn, base, tree, notes):
        os.chdir(base)
        self.ctx = ctx
        self.model = Model(tree)
        self.exact = True                       # the model still describes the disk exactly
        self.notes = open(notes, 'w', buffering=1)
        self.legit = {}
        for p, v in tree.items(): self.legit.setdefault(os.path.basename(p), {})[p] = {v[1]}
        self.fs = SimFS(ctx, ctx.root, scn['faults'])
        with self.fs:
            self.fs.armed = False
            for k, b in enumerate(scn['ops']):
                res = self.block(b, '%d' % k)
                if os.getcwd() != base: raise Violation('folder-not-restored', 'block %d ended with %s in %s' % (k, res, os.getcwd()))
                self.survive(ctx.root, {n: v for n, v in self.legit.items()}, 'after block %d, which ended with %s' % (k, res))
                if self.exact: self.compare('after block %d, which ended with %s' % (k, res))
        return True

    def compare(self, when):
        root = self.ctx.root
        have = {}
        for d, _, fs in os.walk(root):
            for n in fs:
                p = os.path.join(d, n)
                if os.path.basename(p) in ('notes',): continue
                if os.path.islink(p): have[p] = ('l', os.path.realpath(p))
                else:
                    with open(p) as f: have[p] = ('f', f.read())
        want = {p: (('l', self.model.real(p)) if v[0] == 'l' else v) for p, v in self.model.t.items()}
        for p in sorted(set(have) | set(want)):
            if have.get(p) != want.get(p):
                sh = lambda v: None if v is None else (v[0], v[1].replace(root, '')[:24])
                raise Violation('wrong-files', '%s: %s is %s, expected %s' % (when, p[len(root):], sh(have.get(p)), sh(want.get(p))))

    def nraised(self):
        return self.fs.nraised

    def block(self, b, path):
        from SUAVE.Core.redirect import folder
        ctx, m = self.ctx, self.model
        start = os.getcwd()
        fold = b['folder']
        if fold.startswith('abs:'): fold = os.path.join(start, fold[4:])
        target = os.path.normpath(os.path.join(start, fold))
        if path.count('.'): ctx.probe('nested')
        conv = (lambda n: os.path.join(start, n)) if b['form'] == 'abs' else (lambda n: n)
        pull, link = [conv(n) for n in b['pull']], [conv(n) for n in b['link']]
        if b['form'] == 'str':
            if len(pull) == 1: pull = pull[0]
            if len(link) == 1: link = link[0]
        r0 = self.nraised()
        want_exc, inner, entered = None, None, False
        snap = copy.deepcopy(m.t)

        def enter_model():
            if target == start: return
            for n in b['pull']:
                src, dst = os.path.join(start, n), os.path.join(target, n)
                if src == dst: continue
                if m.exists(dst):
                    if not b['force']: ctx.probe('no_overwrite_kept'); continue
                if not m.exists(src): ctx.probe('pull_missing'); raise Abort('pull of a missing file')
                if m.real(src) == m.real(dst) and dst in m.t and m.t[dst][0] == 'l': pass
                m.t.pop(dst, None)
                m.t[dst] = ('f', m.read(src))
            for n in b['link']:
                src, dst = os.path.join(start, n), os.path.join(target, n)
                if src == dst: continue
                if m.exists(dst):
                    if not b['force']: ctx.probe('no_overwrite_kept'); continue
                if not m.exists(src): ctx.probe('pull_missing'); raise Abort('link to a missing file')
                if m.real(src) == dst: raise Abort('link to itself')
                m.t.pop(dst, None)
                m.link(src, dst); ctx.probe('linked')

        def exit_model():
            if target == start: return
            for n in b['push']:
                src, dst = os.path.join(target, n), os.path.join(start, n)
                if src == dst: continue
                if src in m.t and m.t[src][0] == 'l':
                    s = m.real(src)
                    if s == dst: continue
                    if m.exists(dst):
                        if not b['force']: ctx.probe('no_overwrite_kept'); continue
                        m.t.pop(dst)
                    m.link(s, dst); continue
                if m.exists(dst) and not b['force']: ctx.probe('no_overwrite_kept'); continue
                if src not in m.t: ctx.probe('push_missing'); raise Abort('push of a missing file')
                if m.real(dst) == src: raise Abort('push onto its own link')
                m.t[dst] = m.t.pop(src)
        try:
            try: enter_model()
            except Abort as e:
                want_exc = e
                if 'itself' in str(e): return 'skipped'
            enter_state = copy.deepcopy(m.t)
            self.fs.armed = True
            try:
                with folder(fold, pull, link, b['force']) as push:
                    entered = True
                    self.fs.armed = False
                    if want_exc is not None:
                        raise Violation('missing-file-ignored', 'block %s started although %s' % (path, want_exc))
                    if os.getcwd() != target: raise Violation('wrong-folder', 'block %s runs in %s instead of %s' % (path, os.getcwd(), target))
                    if self.exact and self.nraised() == r0: self.compare('inside block %s' % path)
                    elif self.nraised() != r0: self.exact = False
                    if not b['late']: push.extend(conv_push(b['push'], target, b['form']))
                    for n, st in enumerate(b['body']):
                        try:
                            if st[0] == 'write':
                                p = os.path.join(os.getcwd(), st[1])
                                rp = os.path.realpath(p)
                                self.notes.write('%s\t%s\n' % (rp, st[2]))
                                with open(p, 'w') as f: f.write(st[2])
                                self.legit.setdefault(os.path.basename(rp), {}).setdefault(rp, set()).add(st[2])
                                m.write(p, st[2])
                            elif st[0] == 'chdir':
                                if target == start: continue
                                d = os.path.join(os.getcwd(), st[1])
                                os.makedirs(d, exist_ok=True); os.chdir(d)
                            elif st[0] == 'raise':
                                raise EXC[st[1]]('body')
                            else:
                                here = os.getcwd()
                                res = self.block(st[1], path + '.%d' % n)
                                if os.getcwd() != here: raise Violation('folder-not-restored', 'block %s.%d ended with %s in %s' % (path, n, res, os.getcwd()))
                                if res not in ('normal', 'skipped'): raise EXC.get(res, OSError)('body')
                        except Violation: raise
                        except BaseException as e:
                            inner = e; raise
                        finally:
                            if st[0] != 'block': pass
                    if b['late']: push.extend(conv_push(b['push'], target, b['form']))
                    self.fs.armed = True
                res = 'normal'
            except Violation: raise
            except BaseException as e:
                res = type(e).__name__ if not isinstance(e, OSError) else 'OSError'
                exc = e
            self.fs.armed = False
            fired = self.nraised() != r0
            if entered:
                if target == start: pass
                try:
                    if not (b['late'] and inner is not None): exit_model()
                except Abort as e:
                    want_exc = e
            ctx.state(bool(b['pull']), bool(b['link']), bool(b['push']), b['force'], res, entered, fired, inner is not None, target == start)
            ctx.log('block', path, b['folder'], res, 'entered' if entered else '')
            if fired: self.exact = False
            if res == 'normal':
                if inner is not None: raise Violation('exception-swallowed', 'block %s ended normally although its body raised %s' % (path, type(inner).__name__))
                if want_exc is not None and self.exact: raise Violation('missing-file-ignored', 'block %s ended normally: %s' % (path, want_exc))
            else:
                if inner is None and not fired and want_exc is None and self.exact:
                    raise Violation('spurious-error', 'block %s raised %s: %s without any fault' % (path, res, exc))
                if inner is not None: ctx.probe('block_raised')
                elif entered: ctx.probe('exit_raised')
                else: ctx.probe('enter_raised')
                if inner is not None and not fired and want_exc is None and self.exact and res not in (type(inner).__name__, 'OSError'):
                    raise Violation('exception-replaced', 'block %s raised %s although its body raised %s' % (path, res, type(inner).__name__))
                if isinstance(want_exc, Abort) and 'own link' in str(want_exc): self.exact = False
            return res
        finally:
            self.fs.armed = False

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or bool(snap['probes'].get('block_raised'))

    def shrink(self, scn):
        for j in range(len(scn['faults'])):
            yield dict(scn, faults=scn['faults'][:j] + scn['faults'][j + 1:])

        def smaller(b):
            for k in ('pull', 'link', 'push', 'body'):
                for j in range(len(b[k])):
                    yield dict(b, **{k: b[k][:j] + b[k][j + 1:]})
            for j in range(len(b['body'])):
                if b['body'][j][0] == 'block':
                    for s in smaller(b['body'][j][1]):
                        yield dict(b, body=b['body'][:j] + [['block', s]] + b['body'][j + 1:])
        for k, b in enumerate(scn['ops']):
            for s in smaller(b):
                yield dict(scn, ops=scn['ops'][:k] + [s] + scn['ops'][k + 1:])
        for n in list(scn['tree']):
            yield dict(scn, tree={a: t for a, t in scn['tree'].items() if a != n})


def conv_push(names, target, form):
    return [os.path.join(target, n) for n in names] if form == 'abs' else list(names)


CHECK = C12()
