"""C11: console redirection."""
import os, sys, io
from sim.core import Check, Violation, HarnessError
from sim.fs import SimFS, gen_fault

FILES = ['log.txt', 'err.txt', 'sub/deep.log']


class Base(io.StringIO):
    pass


class Picky(io.StringIO):
    """A stream supplied by the caller whose flush can fail."""
    def __init__(self, ctx, bad):
        io.StringIO.__init__(self); self.bad = bad; self.ctx = ctx

    def flush(self):
        if self.bad:
            self.bad -= 1
            self.ctx.fault('stream_flush_error')
            raise OSError(5, 'flush failed')


class Boom(Exception):
    pass


EXC = {'Boom': Boom, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'MemoryError': MemoryError, 'GeneratorExit': GeneratorExit}


class C11(Check):
    prop = 'C11'
    n_quick, n_thorough = 8000, 250000
    rule = ('seeded programs of nested redirection blocks over log files and caller streams that print, raise, are interrupted or swap the '
            'streams, while disk faults hit opening, writing, flushing and closing; non-trivial = a fault fired or a block raised')
    real = ['SUAVE.Core.redirect.output', 'real files']
    stub = ['the disk below raw file writes (fault injection)', 'the console (two in-memory streams)']
    assumptions = ['standard output and standard error of one block do not go to the same file', 'the interrupt arrives inside the block']
    expected_probes = ['block_raised', 'exit_raised', 'enter_raised', 'nested', 'same_log_nested', 'swapped_inside']
    state_measure = 'distinct (nesting, targets, way the block ended, fault fired)'

    def setup(self):
        import SUAVE.Core.redirect

    def gen_block(self, rng, depth):
        out = rng.choice(['none', 'f0', 'f0', 's', 'picky'] + (['f2', 'f2'] if self.side else []))
        err = rng.choice(['none', 'f1', 's', 'picky'] + (['f2', 'f2'] if not self.side else []))
        body = []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            r = rng.random()
            if r < .55: body.append(['print', rng.choice(['out', 'out', 'err']), rng.choice(['a', 'line', 'x' * 200, 'y' * 9000, u'\u00e9', '']) + str(rng.randrange(1000))])
            elif r < .62: body.append(['flush', rng.choice(['out', 'err'])])
            elif r < .70: body.append(['swap', rng.choice(['out', 'err', 'both'])])
            elif r < .90 and depth < 3: body.append(['block', self.gen_block(rng, depth + 1)])
            else: body.append(['raise', rng.choice(sorted(EXC))])
        return dict(out=out, err=err, body=body, bad=rng.choice([0, 0, 1, 2]))

    def gen(self, rng, tier, i):
        self.side = rng.random() < .5           # a file serves one of the two streams
        ops = [self.gen_block(rng, 0) for _ in range(rng.choice([1, 2, 3]))]
        faults = []
        if rng.random() < .65:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append(gen_fault(rng, kinds=['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'short', 'KeyboardInterrupt'], ops=['write', 'open-w', 'close', 'write|open-w|close'], max_at=6))
                if faults[-1]['kind'] == 'KeyboardInterrupt': faults[-1]['op'] = 'write'
        return dict(ops=ops, faults=faults, pre=[rng.choice([None, 'old\n', 'torn']) for _ in FILES])

    def run(self, scn, ctx):
        st = ctx.session(self.body, scn)
        if st[0] != 'ok': raise HarnessError('session ended with %s' % (st,))

    def body(self, ctx, scn):
        os.makedirs('sub')
        content = {}
        for f, p in zip(FILES, scn['pre']):
            if p is not None:
                with open(f, 'w') as h: h.write(p)
            content[f] = p or ''
        self.ctx, self.content = ctx, content
        self.uncertain = set()
        base_out, base_err = Base(), Base()
        base_out.text, base_err.text = [], []
        real = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = base_out, base_err
        self.fs = SimFS(ctx, ctx.root, scn['faults'])
        self.disk = 0
        try:
            with self.fs:
                sinks = [('base', base_out), ('base', base_err)]
                for k, blk in enumerate(scn['ops']):
                    res = self.block(blk, sinks, '%d' % k)
                    if sys.stdout is not base_out or sys.stderr is not base_err:
                        raise Violation('streams-not-restored', 'after top-level block %d' % k)
                left = self.fs.open_files()
        finally:
            sys.stdout, sys.stderr = real
        if left: raise Violation('log-left-open', 'open after the last block: %s' % left)
        for f in FILES:
            have = ''
            if os.path.exists(f):
                with open(f, encoding='utf-8', errors='replace', newline='') as h: have = h.read()
            pre = scn['pre'][FILES.index(f)] or ''
            if not have.startswith(pre):
                raise Violation('log-overwritten', '%s no longer starts with what it held before' % f)
            if f not in self.uncertain and have != content[f]:
                raise Violation('log-content', '%s holds %r, the blocks printed %r' % (f, have[:120], content[f][:120]))
        for name, s, want in (('stdout', base_out, ''.join(base_out.text)), ('stderr', base_err, ''.join(base_err.text))):
            if s.getvalue() != want:
                raise Violation('console-content', 'console %s got %r instead of %r' % (name, s.getvalue()[:120], want[:120]))
        return True

    def fired(self):
        return self.fs.nraised + self.ctx.faults.get('stream_flush_error', 0)

    def emit(self, sink, text):
        kind, obj = sink
        if kind == 'file': self.content[obj] += text
        elif kind in ('stream', 'base'): obj.text.append(text)

    def block(self, blk, sinks, path):
        """Run one block; returns 'normal' or the exception class name. Raises only Violation."""
        from SUAVE.Core.redirect import output
        ctx = self.ctx
        before = (sys.stdout, sys.stderr)
        open_before = self.fs.open_files()
        streams = []
        args = []
        new = list(sinks)
        for j, t in enumerate((blk['out'], blk['err'])):
            if t == 'none': args.append(None)
            elif t[0] == 'f':
                f = FILES[int(t[1])]
                if new[j] == ('file', f): ctx.probe('same_log_nested')
                args.append(f); new[j] = ('file', f)
            else:
                s = Picky(ctx, blk['bad'] if t == 'picky' else 0); s.text = []
                streams.append(s); args.append(s); new[j] = ('stream', s)
        fired0 = self.fired()
        inner = None            # what the body raised
        entered = False
        if path.count('.'): ctx.probe('nested')
        try:
            with output(*args):
                entered = True
                for n, st in enumerate(blk['body']):
                    try:
                        if st[0] == 'print':
                            k = 0 if st[1] == 'out' else 1
                            stream = sys.stdout if k == 0 else sys.stderr
                            text = st[2] + '\n'
                            swapped = getattr(stream, 'is_swap', False)
                            if not swapped: self.emit(new[k], text)
                            print(st[2], file=stream)
                        elif st[0] == 'flush':
                            (sys.stdout if st[1] == 'out' else sys.stderr).flush()
                        elif st[0] == 'swap':
                            s = io.StringIO(); s.is_swap = True
                            ctx.probe('swapped_inside')
                            sys.stdout.flush(); sys.stderr.flush()
                            if st[1] != 'err': sys.stdout = s
                            if st[1] != 'out': sys.stderr = s
                        elif st[0] == 'raise':
                            raise EXC[st[1]]('body')
                        else:
                            cur = (sys.stdout, sys.stderr)
                            sub = [new[j] if not getattr(cur[j], 'is_swap', False) else ('swap', None) for j in range(2)]
                            res = self.block(st[1], sub, path + '.%d' % n)
                            if (sys.stdout, sys.stderr) != cur:
                                raise Violation('streams-not-restored', 'after block %s.%d, which ended with %s' % (path, n, res))
                            if res != 'normal': raise EXC.get(res, OSError)('body')
                    except Violation: raise
                    except BaseException as e:
                        inner = e
                        raise
            res = 'normal'
        except Violation: raise
        except BaseException as e:
            res = type(e).__name__
            if inner is None and self.fired() == fired0:
                raise Violation('spurious-error', 'block %s raised %s: %s without any fault' % (path, res, e))
            if inner is not None and e is inner: ctx.probe('block_raised')
            elif entered: ctx.probe('exit_raised')
            else: ctx.probe('enter_raised')
            if isinstance(e, OSError): res = 'OSError'
        if inner is not None and res == 'normal':
            raise Violation('exception-swallowed', 'block %s ended normally although its body raised %s' % (path, type(inner).__name__))
        if inner is not None and res != type(inner).__name__ and self.fired() == fired0:
            raise Violation('exception-replaced', 'block %s raised %s although its body raised %s' % (path, res, type(inner).__name__))
        if sys.stdout is not before[0] or sys.stderr is not before[1]:
            raise Violation('streams-not-restored', 'block %s (targets %s %s) ended with %s' % (path, blk['out'], blk['err'], res))
        left = self.fs.open_files()
        if left != open_before:
            raise Violation('log-left-open', 'block %s (targets %s %s) ended with %s and left open %s' % (path, blk['out'], blk['err'], res, left))
        ctx.state(path.count('.'), blk['out'][0], blk['err'][0], res, entered, self.fired() > fired0)
        ctx.log('block', path, blk['out'], blk['err'], res, 'entered' if entered else '')
        lost = self.fired() > fired0 and res != 'normal'
        if lost:
            for s in new:
                if s[0] == 'file': self.uncertain.add(s[1])
        for s in streams:
            if s.closed: raise Violation('callers-stream-closed', 'block %s closed the stream it was given' % path)
            if not lost and s.getvalue() != ''.join(s.text):
                raise Violation('stream-content', 'block %s: the stream got %r instead of %r' % (path, s.getvalue()[:100], ''.join(s.text)[:100]))
        return res

    def nontrivial(self, scn, snap):
        return bool(snap['faults']) or bool(snap['probes'].get('block_raised'))

    def shrink(self, scn):
        for j in range(len(scn['faults'])):
            yield dict(scn, faults=scn['faults'][:j] + scn['faults'][j + 1:])

        def smaller(b):
            for j in range(len(b['body'])):
                yield dict(b, body=b['body'][:j] + b['body'][j + 1:])
                if b['body'][j][0] == 'block':
                    for s in smaller(b['body'][j][1]):
                        yield dict(b, body=b['body'][:j] + [['block', s]] + b['body'][j + 1:])
            for k in ('out', 'err'):
                if b[k] != 'none': yield dict(b, **{k: 'none'})
        for k, b in enumerate(scn['ops']):
            for s in smaller(b):
                yield dict(scn, ops=scn['ops'][:k] + [s] + scn['ops'][k + 1:])


CHECK = C11()
