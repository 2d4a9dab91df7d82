"""A stand-in for the AVL program and an independent statement of what it must be asked and must have answered.

The stub reads the command deck, the geometry file and the run-case file SUAVE wrote, computes every
coefficient as a fixed function of what it read, and writes AVL's four result files in AVL's own layout.
The oracle computes the same function of what the user asked for."""
import os, re, math, zlib
import numpy as np
from sim.env import Program

DEG = math.pi / 180.0


# ------------------------------------------------------------------------------ the coefficient function
def weight(name, feat):
    h = zlib.crc32(('%s/%s' % (name, feat)).encode()) & 0xffffffff
    return (0.2 + 0.8 * (h / 4294967295.0)) * (1 if h & 1 else -1)


SCALE = dict(alpha=.1, mach=1.0, beta=.1, pb=3.0, qc=3.0, sref=.002, cref=.05, bref=.01, xref=.02, yref=.05, zref=.05)
BIG = {'Cmw': 6.0, 'Cmq': 20.0, 'CLq': 5.0}        # coefficients that are large for real aircraft


def coef(name, F):
    v = weight(name, 'base')
    for k, x in F.items():
        s = SCALE.get(k)
        if s is None:
            s = .004 if k.startswith('area') else (.001 if k.startswith('twist') else (.02 if k.startswith('d:') else .005))
        v += weight(name, k) * s * x
    return v * BIG.get(name, 1.0)


TIES = dict(Cl=1.25, Cm=-2.5, Cn=3.75)             # what a trimmed surface settles at, by the moment it balances


def alpha_for(cl, F):
    """The angle of attack with this lift coefficient (coef is linear in it)."""
    a = coef('CLtot', dict(F, alpha=0.0)); b = coef('CLtot', dict(F, alpha=1.0))
    return (cl - a) / (b - a)


# ------------------------------------------------------------------------------ the stub program
class AVLStub(Program):
    """plan: {run number (0-based, counting starts): failure}."""
    def __init__(self, ctx, plan, notes=None):
        self.ctx, self.plan = ctx, {int(k): v for k, v in plan.items()}
        self.runs = 0
        self.fs = None
        self.strict = 0
        self.current = None
        self.executed = 0
        self.failed = 0

    def check_start(self, argv, cwd=None):
        f = self.current = self.plan.get(self.runs)
        self.runs += 1
        if f and f['kind'] == 'nostart':
            self.ctx.fault('avl_cannot_start'); self.failed += 1; self.strict += 1
            raise FileNotFoundError(2, 'No such file or directory', argv[0])
        if f and f['kind'] == 'noexec':
            self.ctx.fault('avl_cannot_start'); self.failed += 1; self.strict += 1
            raise PermissionError(13, 'Permission denied', argv[0])

    def broken_pipe(self, argv):
        f = self.current
        if f and f['kind'] == 'pipe':
            if f.get('n', 0) <= 0:
                if not f.get('done'): self.ctx.fault('avl_died_reading'); self.failed += 1; self.strict += 1; f['done'] = True
                return True
            f['n'] -= 1
        return False

    def execute(self, argv, stdin, out, err):
        """AVL's own file accesses do not meet the faults planned for SUAVE's (a full disk is a result cut short)."""
        if self.fs is not None: self.fs.quiet += 1
        try: return self.execute_(argv, stdin, out, err)
        finally:
            if self.fs is not None: self.fs.quiet -= 1

    def execute_(self, argv, stdin, out, err):
        f = self.current or {}
        kind = f.get('kind')
        if kind == 'pipe' and f.get('done'): return f.get('rc', 1)
        if kind == 'silent':                        # dies before it writes anything
            self.ctx.fault('avl_died'); self.failed += 1; self.strict += 1
            return f['rc']
        self.limit = None
        if kind in ('cut', 'missing', 'cutzero'):
            self.limit = f['file']                  # the n-th result file of this run is the bad one
        self.written = 0
        self.dead = False
        self.bad = f
        if kind == 'interrupt':                     # control-C reaches the caller while AVL runs
            self.ctx.fault('interrupt_while_avl_runs'); self.failed += 1; self.strict += 1
            raise KeyboardInterrupt()
        self.geom = parse_geometry(argv[1])
        rc = self.session(stdin)
        out.append(' AVL\n')
        self.executed += 1
        if kind == 'rc' and rc == 0:
            self.ctx.fault('avl_exit_code'); self.failed += 1; self.strict += 1
            return f['rc']
        return rc

    def session(self, text):
        lines = iter(text.split('\n'))
        self.cases, ctl, cur, mode, computed = {}, {}, None, 'top', None
        for raw in lines:
            w = raw.split()
            if self.dead: return -9 if self.bad['kind'] == 'cut' else 0
            if mode == 'top':
                if not w: continue
                c = w[0].upper()
                if c == 'MASS':
                    if not os.path.exists(w[1]): return 2
                    open(w[1]).close()
                elif c == 'MSET': next(lines)
                elif c == 'PLOP':
                    for l in lines:
                        if not l.strip(): break
                elif c == 'CASE': self.cases = parse_cases(w[1])
                elif c == 'OPER': mode = 'oper'
                elif c == 'QUIT': return 0
                continue
            if not w:
                mode = 'top'; continue
            c = w[0].upper()
            if c.isdigit():
                cur = dict(self.cases[int(c)]); cur['controls'] = {}; cur['ties'] = dict(cur['ties']); computed = None
            elif c == 'C1':
                for l in lines:
                    if not l.strip(): break
                    if l.strip().upper() == 'A': cur['alpha'] = float(next(lines)); cur['cl'] = None
                    if l.strip().upper() == 'C': cur['cl'] = float(next(lines))
            elif c in ('R', 'Y', 'B'):
                next(lines); cur[dict(R='pb', Y='qc', B='beta')[c]] = float(next(lines))
            elif re.match(r'D\d+$', c):
                t = next(lines).strip().upper(); v = float(next(lines))
                if t == c: cur['controls'][int(c[1:])] = v
            elif c == 'X':
                computed = self.features(cur)
            elif c in ('ST', 'FN', 'FS', 'SB'):
                name = next(lines).strip()
                if os.path.exists(name):
                    a = next(lines).strip().upper()[:1]
                    if a != 'O': continue
                if computed is None: continue
                self.write(name, dict(ST=write_st, FN=write_fn, FS=write_fs, SB=write_sb)[c](self.geom, cur, computed))
        return 2                                    # end of input without QUIT

    def features(self, cur):
        F = dict(self.geom['F'])
        F.update(alpha=cur['alpha'], beta=cur['beta'], mach=cur['mach'], pb=cur['pb'], qc=cur['qc'])
        for k, n in enumerate(self.geom['controls']):
            F['d:' + n] = cur['controls'][k + 1] if k + 1 in cur['controls'] else TIES.get(cur['ties'].get(n), 0.0)
        if cur['cl'] is not None: F['alpha'] = alpha_for(cur['cl'], F)
        return F

    def write(self, name, text):
        k = self.written
        self.written += 1
        if self.limit is not None and k == self.limit:
            self.limit = None
            self.failed += 1
            if self.bad['kind'] == 'missing':
                self.strict += 1
                self.ctx.fault('avl_result_missing'); return
            cut = int(len(text.rstrip('\n')) * self.bad['frac'])
            if self.bad.get('tail'): cut = len(text.rstrip()) - self.bad['tail']
            self.ctx.fault('avl_result_cut')
            text = text[:max(0, cut)]
            if self.bad.get('line'): text = text[:text.rfind('\n') + 1]           # at the end of a line
            if self.bad['kind'] == 'cut': self.dead = True; self.strict += 1      # killed while writing; 'cutzero' ends normally
        with open(name, 'w') as f: f.write(text)


# ------------------------------------------------------------------------------ reading what SUAVE wrote
def parse_geometry(path):
    with open(path) as f: ls = f.read().split('\n')
    body = [l for l in ls if not l.startswith('#')]
    it = [l for l in body if l.strip()]
    g = dict(name=it[0].strip())
    s = it[3].split(); x = it[4].split()
    F = dict(sref=float(s[0]), cref=float(s[1]), bref=float(s[2]), xref=float(x[0]), yref=float(x[1]), zref=float(x[2]))
    surfs, controls, cur, k, cs = [], [], None, 5, {}
    while k < len(it):
        w = it[k].split()[0]
        if w == 'SURFACE':
            cur = dict(name=it[k + 1].strip(), n=it[k + 2].split(), dup=False, secs=[]); surfs.append(cur); k += 3
        elif w == 'YDUPLICATE': cur['dup'] = True; k += 2
        elif w == 'SECTION':
            cur['secs'].append([float(v) for v in it[k + 1].split()[:5]]); k += 2
        elif w == 'CONTROL':
            n = it[k + 1].split()[0]
            if n not in controls: controls.append(n)
            w5 = it[k + 1].split()
            cs.setdefault(n, []).append((cur['secs'][-1], float(w5[1]), float(w5[2]), float(w5[-1])))
            k += 2
        elif w in ('AFILE', 'NACA'): k += 2
        else: raise ValueError('AVL cannot read ' + it[k])
    for n in controls:
        first, last = cs[n][0], cs[n][-1]
        F['hinge:' + n], F['dup:' + n] = first[2], first[3]
        F['from:' + n] = first[0][1] + first[0][2]
        F['to:' + n] = last[0][1] + last[0][2]
    for c in surfs:
        if len(c['n']) < 4:                     # a body
            F['len:' + c['name']] = max(q[3] for q in c['secs'])
            F['wid:' + c['name']] = c['secs'][-1][1] - c['secs'][0][1] + c['secs'][-1][2] - c['secs'][0][2]
            F['x:' + c['name']] = min(q[0] for q in c['secs'])
            continue
        a, t = moments(c['secs'])
        tip = c['secs'][-1]
        F['area:' + c['name']] = a; F['twist:' + c['name']] = t
        F['x:' + c['name']], F['y:' + c['name']], F['z:' + c['name']] = tip[:3]
        F['dup:' + c['name']] = 10.0 * c['dup']
    # a real AVL file lists a surface and its duplicate
    g.update(F=F, surfs=surfs, controls=controls)
    return g


def moments(secs):
    """Integrals of chord and of chord times incidence along the sections (exact for linear lofting)."""
    a = t = 0.0
    for p, q in zip(secs[:-1], secs[1:]):
        h = math.hypot(q[1] - p[1], q[2] - p[2])
        a += h * (p[3] + q[3]) / 2
        t += h / 6 * (2 * p[3] * p[4] + 2 * q[3] * q[4] + p[3] * q[4] + q[3] * p[4])
    return a, t


def parse_cases(path):
    out, cur = {}, None
    with open(path) as f:
        for l in f:
            m = re.match(r'\s*Run case\s+(\d+):', l)
            if m: cur = out[int(m.group(1))] = dict(alpha=0.0, beta=0.0, mach=0.0, pb=0.0, qc=0.0, cl=None, ties={}); continue
            m = re.match(r'\s*(\S+)\s*->\s*(\S+)\s*=\s*(\S+)', l)
            if m and cur is not None:
                k = dict([('alpha', 'alpha'), ('beta', 'beta'), ('pb/2V', 'pb'), ('qc/2V', 'qc')]).get(m.group(1))
                if k and m.group(1) == m.group(2): cur[k] = float(m.group(3))
                elif k == 'alpha' and m.group(2) == 'CL': cur['cl'] = float(m.group(3))
                continue
            m = re.match(r'\s*(\S+)\s*->\s*(C[lmn]) \s*(roll mom|pitchmom|yaw  mom)\s*=', l)
            if m and cur is not None: cur['ties'][m.group(1)] = m.group(2); continue
            m = re.match(r'\s*Mach\s*=\s*(\S+)', l)
            if m and cur is not None: cur['mach'] = float(m.group(1))
    return out


# ------------------------------------------------------------------------------ AVL's result files
def surfaces(g):
    out = []
    for s in g['surfs']:
        out.append((s['name'], s))
        if s['dup']: out.append((s['name'] + ' (YDUP)', s))
    return out


def g12(x):
    s = '%.5g' % abs(x)
    x = abs(x), x < 0
    v = x[0]
    d = 5 - (len(str(int(v))) if v >= 1 else 0)
    s = '%.*f' % (max(0, d), v)
    return ('%8s' % (('-' if x[1] else '') + s)) + '    '


def fl(x, w, d):
    s = '%*.*f' % (w, d, x)
    return s if len(s) <= w else '*' * w


ST_ROWS = [(" z' force CL |", 'CL'), (" y  force CY |", 'CY'), (" x' mom.  Cl'|", 'Cl'), (" y  mom.  Cm |", 'Cm'), (" z' mom.  Cn'|", 'Cn')]
SB_ROWS = [(" x force CX  |", 'CX'), (" y force CY  |", 'CY'), (" z force CZ  |", 'CZ'), (" x mom.  Cl  |", 'Cl'), (" y mom.  Cm  |", 'Cm'), (" z mom.  Cn  |", 'Cn')]
BAR = ' ---------------------------------------------------------------\n'


def head(g, c, F):
    o = [BAR, ' Vortex Lattice Output -- Total Forces\n', '\n', ' Configuration: %-60s\n' % g['name'][:60],
         '     # Surfaces =%4d\n' % len(surfaces(g)), '     # Strips   = 170\n', '     # Vortices =1700\n', '\n',
         '  Sref =%s   Cref =%s   Bref =%s\n' % (g12(F['sref']), g12(F['cref']), g12(F['bref'])),
         '  Xref =%s   Yref =%s   Zref =%s\n' % (g12(F['xref']), g12(F['yref']), g12(F['zref'])), '\n',
         ' Standard axis orientation,  X fwd, Z down         \n', '\n', ' Run case: x                                       \n', '\n']
    f5 = lambda x: fl(x, 10, 5)
    o += ["  Alpha =%s     pb/2V =%s     p'b/2V =%s\n" % (f5(F['alpha']), f5(F['pb']), f5(F['pb'])),
          '  Beta  =%s     qc/2V =%s\n' % (f5(F['beta']), f5(F['qc'])),
          "  Mach  =%s     rb/2V =%s     r'b/2V =%s\n" % (fl(F['mach'], 10, 3), f5(0), f5(0)), '\n']
    v = {k: coef(k, F) for k in ('CXtot', 'CYtot', 'CZtot', 'Cltot', 'Cmtot', 'Cntot', 'CLtot', 'CDtot', 'CDvis', 'CDind', 'CLff', 'CDff', 'CYff', 'e')}
    o += ["  CXtot =%s     Cltot =%s     Cl'tot =%s\n" % (f5(v['CXtot']), f5(v['Cltot']), f5(v['Cltot'])),
          '  CYtot =%s     Cmtot =%s\n' % (f5(v['CYtot']), f5(v['Cmtot'])),
          "  CZtot =%s     Cntot =%s     Cn'tot =%s\n" % (f5(v['CZtot']), f5(v['Cntot']), f5(v['Cntot'])), '\n',
          '  CLtot =%s\n' % f5(v['CLtot']), '  CDtot =%s\n' % f5(v['CDtot']), '  CDvis =%s     CDind =%s\n' % (f5(v['CDvis']), f5(v['CDind'])),
          '  CLff  =%s     CDff  =%s    | Trefftz\n' % (f5(v['CLff']), f5(v['CDff'])),
          '  CYff  =%s         e =%s    | Plane  \n' % (f5(v['CYff']), fl(v['e'], 10, 4)), ' \n']
    for n in g['controls']:
        o.append('   %-16s=%s\n' % (n, f5(F['d:' + n])))
    o += [' \n', BAR, '\n']
    return o


def deriv_row(label, names, F):
    return label + ''.join('%s =%s' % (('%7s' % n) if len(n) < 8 else n, fl(coef(n, F), 11, 6)) for n in names) + '\n'


def ctrl_block(g, rows, F):
    n = len(g['controls'])
    if not n: return []
    o = ['              ' + ''.join('    %-12s d%-2d' % (c[:12], k + 1) + ' ' for k, c in enumerate(g['controls'])) + '\n',
         '              ' + '    ----------------' * n + '\n']
    for lab, c in rows:
        o.append(lab + ''.join('%7s =%s' % ('%sd%d' % (c, k + 1), fl(coef('%s/%s' % (c, x), F), 11, 6)) for k, x in enumerate(g['controls'])) + '\n')
    return o


def write_st(g, c, F):
    o = head(g, c, F)
    o += [' Stability-axis derivatives...\n', '\n', '                             alpha                beta\n', '                  ----------------    ----------------\n']
    for lab, k in ST_ROWS: o.append(deriv_row(lab, [k + 'a', k + 'b'], F))
    o += ['\n', "                     roll rate  p'      pitch rate  q'        yaw rate  r'\n", '                  ----------------    ----------------    ----------------\n']
    for lab, k in ST_ROWS: o.append(deriv_row(lab, ['s' + k + 'p', 's' + k + 'q', 's' + k + 'r'], F))
    o.append('\n')
    if g['controls']:
        o += ctrl_block(g, ST_ROWS + [(' Trefftz drag|', 'CDff'), (' span eff.   |', 'e')], F)
        o += [' \n', ' \n', '\n']
    o += [' Neutral point  Xnp =%s\n' % fl(coef('Xnp', F) + 10, 11, 6), '\n', ' Clb Cnr / Clr Cnb  =%s    (  > 1 if spirally stable )\n' % fl(coef('spiral', F), 11, 6)]
    return ''.join(o)


def write_sb(g, c, F):
    o = head(g, c, F)
    o += [' Geometry-axis derivatives...\n', '\n', '                    axial   vel. u     sideslip vel. v      normal  vel. w\n', '                  ----------------    ----------------    ----------------\n']
    for lab, k in SB_ROWS: o.append(deriv_row(lab, [k + 'u', k + 'v', k + 'w'], F))
    o += ['\n', '                      roll rate  p       pitch rate  q         yaw rate  r\n', '                  ----------------    ----------------    ----------------\n']
    for lab, k in SB_ROWS: o.append(deriv_row(lab, [k + 'p', k + 'q', k + 'r'], F))
    o.append('\n')
    if g['controls']: o += ctrl_block(g, SB_ROWS, F)
    o += [' \n', ' \n']
    return ''.join(o)


def write_fn(g, c, F):
    ss = surfaces(g)
    o = [BAR, ' Surface Forces (referred to Sref,Cref,Bref about Xref,Yref,Zref)\n', ' Standard axis orientation,  X fwd, Z down         \n', '\n',
         '     Sref =%8.1f       Cref =%10.4f   Bref =%10.4f\n' % (F['sref'], F['cref'], F['bref']),
         '     Xref =%11.4f   Yref =%10.4f   Zref =%10.4f\n' % (F['xref'], F['yref'], F['zref']), '\n',
         ' n      Area      CL      CD      Cm      CY      Cn      Cl     CDi     CDv\n']
    for k, (n, s) in enumerate(ss):
        o.append('%2d%10.3f' % (k + 1, F.get('area:' + s['name'], 9.9)) + ''.join(fl(coef('r%s/%s' % (q, n), F), 8, 4) for q in ('CL', 'CD', 'Cm', 'CY', 'Cn', 'Cl', 'CDi', 'CDv')) + '   %s\n' % n)
    o += ['\n', ' Surface Forces (referred to Ssurf, Cave about root LE on hinge axis)\n', '\n', '   n     Ssurf      Cave       cl       cd      cdv    cm_LE\n']
    for k, (n, s) in enumerate(ss):
        o.append('%4d%11.3f%10.3f' % (k + 1, F.get('area:' + s['name'], 9.9), 3.7) + ''.join(fl(coef('%s/%s' % (q, n), F), 9, 4) for q in ('wcl', 'wcd', 'wcdv', 'wcm')) + '  %s\n' % n)
    o.append(BAR)
    return ''.join(o)


def write_fs(g, c, F):
    ss = surfaces(g)
    o = [BAR, ' Surface and Strip Forces by surface\n', '\n', '  Forces referred to Sref, Cref, Bref about Xref, Yref, Zref\n', ' Standard axis orientation,  X fwd, Z down         \n', '\n']
    for k, (n, s) in enumerate(ss):
        ns = int(s['n'][2]) if len(s['n']) > 2 else 10
        o += ['  Surface #%2d     %-40s\n' % (k + 1, n), '     # Chordwise = 10   # Spanwise = %2d     First strip =  1\n' % ns,
              '     Surface area =%12.6f       Ave. chord =%12.6f\n' % (F.get('area:' + s['name'], 9.9), 3.7)]
        o += ['     CLsurf  =   0.01217     Clsurf  =   0.00182\n', '     CYsurf  =  -0.00013     Cmsurf  =   0.00135\n', '     CDsurf  =   0.00037     Cnsurf  =  -0.00014\n',
              '     CDisurf =   0.00037     CDvsurf =   0.00000\n', '\n', '  Forces referred to Ssurf, Cave about hinge axis thru LE\n', '     CLsurf  =   0.02372     CDsurf  =   0.00072\n',
              '     Deflect =\n', '\n', ' Strip Forces referred to Strip Area, Chord\n',
              '    j      Yle    Chord     Area     c cl      ai      cl_norm  cl       cd       cdv    cm_c/4    cm_LE  C.P.x/c\n']
        for j in range(ns):
            vals = [strip(q, n, j, F) for q in ('Yle', 'Chord', 'Area', 'ccl', 'ai', 'cln', 'cl', 'cd', 'cdv', 'cm4', 'cmLE')]
            o.append('%6d' % (j + 1) + ''.join(fl(v, 9, 4) for v in vals) + '    0.309\n')
        o.append('\n')
    o.append(BAR)
    return ''.join(o)


def strip(q, n, j, F):
    v = coef('%s/%s' % (q, n), F) * (9.0 if q == 'Yle' else 1.0) + .0137 * j
    return -abs(v) if q == 'Yle' and n.endswith('(YDUP)') else v


# ------------------------------------------------------------------------------ what the user asked for
def expected_features(v, cond, trim=False):
    """v: the vehicle's description; cond: dict(alpha, mach, beta, pb, qc) in degrees, cl or None."""
    F = dict(sref=v['wings'][0]['area'], cref=v['wings'][0]['mac'], bref=v['wings'][0]['span'], xref=v['cg'][0], yref=v['cg'][1], zref=v['cg'][2])
    for w in v['wings']:
        secs = wing_sections(w)
        a, t = moments(secs)
        n = w['tag']
        F['area:' + n] = a; F['twist:' + n] = t
        F['x:' + n], F['y:' + n], F['z:' + n] = secs[-1][:3]
        F['dup:' + n] = 10.0 * w['symmetric']
        for c in w['cs']:
            tie = dict(aileron='Cl', elevator='Cm', rudder='Cn').get(c['kind'])
            F['d:' + c['tag']] = TIES.get(tie, 0.0) if trim else c['deflection']
            F['hinge:' + c['tag']] = -c['chord'] if c['kind'] == 'slat' else 1 - c['chord']
            F['dup:' + c['tag']] = -1.0 if c['kind'] == 'aileron' else 1.0
            F['from:' + c['tag']] = sum(point(w, secs, c['start']))
            F['to:' + c['tag']] = sum(point(w, secs, c['end']))
    for b in v['bodies']:
        for s, k in (('_horizontal', 'width'), ('_vertical', 'height')):
            F['len:' + b['tag'] + s] = b['length']
            F['wid:' + b['tag'] + s] = b[k]
            F['x:' + b['tag'] + s] = b['origin'][0]
    F.update({k: x for k, x in cond.items() if k != 'cl'})
    if cond.get('cl') is not None: F['alpha'] = alpha_for(cond['cl'], F)
    return F


def point(w, secs, f):
    """Spanwise position (y, z) at a fraction of the semispan, along the leading edge."""
    k = 2 if w['vertical'] else 1
    pos = [(q[k] - secs[0][k]) / (secs[-1][k] - secs[0][k]) for q in secs]
    return [float(np.interp(f, pos, [q[j] for q in secs])) for j in (1, 2)]


def wing_sections(w):
    """Leading edge points, chord and incidence at root, segment breaks and tip."""
    semi = w['span'] * (.5 if w['symmetric'] else 1.0)
    x, y, z = w['origin']
    if not w['segments']:
        s = w['sweep'] * DEG; d = w['dihedral'] * DEG
        a = [x, y, z, w['root'], w['twist'][0]]
        if w['vertical']: b = [x + semi * math.tan(s), y + semi * math.tan(d), z + semi]
        else: b = [x + semi * math.tan(s), y + semi, z + semi * math.tan(d)]
        return [a, b + [w['root'] * w['taper'], w['twist'][1]]]
    out = []
    for k, g in enumerate(w['segments']):
        out.append([x, y, z, w['root'] * g['chord'], g['twist']])
        if k + 1 < len(w['segments']):
            span = semi * (w['segments'][k + 1]['pos'] - g['pos'])
            d = g['dihedral'] * DEG
            x += span / math.cos(d) * math.tan(g['sweep'] * DEG)
            if w['vertical']: z += span; y += span * math.tan(d)
            else: y += span; z += span * math.tan(d)
    return out


# ------------------------------------------------------------------------------ building vehicles
KINDS = dict(main_wing=['aileron', 'flap', 'slat'], tail=['elevator', 'elevator', 'flap'], fin=['rudder'])


def gen_wing(rng, tag, kind):
    r = lambda a, b, d=2: round(rng.uniform(a, b), d)
    vert = kind == 'fin'
    w = dict(tag=tag, symmetric=not vert, vertical=vert, span=r(6, 34) if kind == 'main_wing' else r(3, 9), area=r(20, 130), mac=r(1, 6, 3),
             root=r(1.5, 7), taper=r(.2, 1.0), twist=[r(-2, 4), r(-4, 2)], sweep=r(0, 35), dihedral=0.0 if vert else r(0, 8),
             origin=[r(2, 25), 0.0 if rng.random() < .7 else r(.1, 2), r(-1, 3)], segments=[], cs=[])
    if rng.random() < .5:
        n = rng.choice([2, 3, 4])
        pos = [0.0] + sorted(rng.sample([.1, .25, .3, .5, .6, .75], n - 2)) + [1.0]
        c = 1.0
        for k in range(n):
            w['segments'].append(dict(pos=pos[k], chord=round(c, 3), twist=r(-3, 4), sweep=r(0, 35), dihedral=0.0 if vert else r(0, 8)))
            c *= rng.uniform(.5, .95)
    if rng.random() < .7:
        kinds = rng.sample(KINDS[kind], rng.choice([1, 1, len(KINDS[kind])]))
        cuts = sorted(rng.sample([.08, .15, .2, .3, .4, .5, .55, .65, .8, .9, .95], 2 * len(kinds)))
        if rng.random() < .3 and w['segments']: cuts[0] = w['segments'][1]['pos'] if 0 < w['segments'][1]['pos'] < cuts[1] else cuts[0]
        for k, q in enumerate(kinds):
            w['cs'].append(dict(kind=q, tag=(dict(aileron='ail', flap='flap', slat='slat', elevator='elev', rudder='rud')[q] + '%d%s' % (k, tag[:1])),
                                start=cuts[2 * k], end=cuts[2 * k + 1], chord=rng.choice([.1, .2, .25, .3, .4]), deflection=rng.choice([0.0, r(-15, 15), r(-15, 15)])))
    return w


def gen_vehicle(rng, tag):
    v = dict(tag=tag, cg=[round(rng.uniform(1, 18), 3), 0.0 if rng.random() < .7 else .25, round(rng.uniform(-1, 1), 3)], mass=rng.choice(['mass', 'max_takeoff']), wings=[], bodies=[])
    v['wings'].append(gen_wing(rng, 'main_wing', 'main_wing'))
    if rng.random() < .7: v['wings'].append(gen_wing(rng, 'tail', 'tail'))
    if rng.random() < .5: v['wings'].append(gen_wing(rng, 'fin', 'fin'))
    for k in range(rng.choice([0, 0, 1, 2])):
        v['bodies'].append(dict(tag='body%d' % k, length=round(rng.uniform(5, 40), 2), width=round(rng.uniform(1, 5), 2), height=round(rng.uniform(1, 5), 2),
                                origin=[round(rng.uniform(0, 3), 2), 0.0, round(rng.uniform(-1, 1), 2)]))
    return v


def build_vehicle(v):
    import SUAVE
    veh = SUAVE.Vehicle()
    veh.tag = v['tag']
    veh.mass_properties.mass = 5000.0 if v['mass'] == 'mass' else 0.0
    veh.mass_properties.max_takeoff = 5000.0 if v['mass'] != 'mass' else 0.0
    veh.mass_properties.center_of_gravity = [list(v['cg'])]
    veh.mass_properties.moments_of_inertia.tensor = np.zeros((3, 3))
    veh.reference_area = v['wings'][0]['area']
    W = SUAVE.Components.Wings
    CS = W.Control_Surfaces
    for d in v['wings']:
        w = dict(main_wing=W.Main_Wing, tail=W.Horizontal_Tail, fin=W.Vertical_Tail)[d['tag']]()
        w.tag = d['tag']
        w.symmetric, w.vertical = d['symmetric'], d['vertical']
        w.spans.projected, w.areas.reference, w.chords.mean_aerodynamic = d['span'], d['area'], d['mac']
        w.chords.root, w.chords.tip, w.taper = d['root'], d['root'] * d['taper'], d['taper']
        w.twists.root, w.twists.tip = d['twist'][0] * DEG, d['twist'][1] * DEG
        w.sweeps.leading_edge = d['sweep'] * DEG
        w.dihedral = d['dihedral'] * DEG
        w.origin = [list(d['origin'])]
        for k, g in enumerate(d['segments']):
            s = W.Segment()
            s.tag = 'seg%d' % k
            s.percent_span_location, s.root_chord_percent, s.twist = g['pos'], g['chord'], g['twist'] * DEG
            s.sweeps.leading_edge, s.dihedral_outboard = g['sweep'] * DEG, g['dihedral'] * DEG
            w.append_segment(s)
        for c in d['cs']:
            q = dict(aileron=CS.Aileron, flap=CS.Flap, slat=CS.Slat, elevator=CS.Elevator, rudder=CS.Rudder)[c['kind']]()
            q.tag, q.span_fraction_start, q.span_fraction_end, q.chord_fraction = c['tag'], c['start'], c['end'], c['chord']
            q.deflection = c['deflection'] * DEG
            w.append_control_surface(q)
        veh.append_component(w)
    for b in v['bodies']:
        f = SUAVE.Components.Fuselages.Fuselage()
        f.tag = b['tag']
        f.lengths.total, f.lengths.nose, f.lengths.tail = b['length'], b['length'] * .1, b['length'] * .2
        f.width, f.heights.maximum = b['width'], b['height']
        f.fineness.nose, f.fineness.tail = 1.5, 2.2
        f.origin = [list(b['origin'])]
        veh.append_component(f)
    cfg = SUAVE.Components.Configs.Config(veh)
    cfg.tag = v['tag'] + '_cfg'
    return cfg


# ------------------------------------------------------------------------------ what a result must hold
def expected_results(v, cond, trim, nsw):
    """{path: (value, precision)} for one condition."""
    F = expected_features(v, cond, trim)
    o = {}
    def put(path, name, d, off=0.0): o[path] = (coef(name, F) + off, .6 * 10.0 ** -d, sens(name, F))
    for p, k in (('S_ref', 'sref'), ('c_ref', 'cref'), ('b_ref', 'bref'), ('X_ref', 'xref'), ('Y_ref', 'yref'), ('Z_ref', 'zref')):
        o[p] = (F[k], 2e-4 * max(1.0, abs(F[k])), 0.0)
    o['aerodynamics.AoA'] = (F['alpha'], 1e-5, 2e-4)
    for k in ('CX', 'CY', 'CZ'): put('aerodynamics.' + k, k + 'tot', 5)
    for k, n in (('Cl', 'roll'), ('Cm', 'pitch'), ('Cn', 'yaw')):
        put('aerodynamics.%stot' % k, k + 'tot', 5); put('aerodynamics.%s_moment_coefficient' % n, k + 'tot', 5)
    put('aerodynamics.lift_coefficient', 'CLtot', 5)
    put('aerodynamics.drag_breakdown.induced.total', 'CDind', 5)
    put('aerodynamics.drag_breakdown.induced.efficiency_factor', 'e', 4)
    put('aerodynamics.oswald_efficiency', 'e', 4)
    st = 'stability.static.'
    for k in ('CL', 'CY', 'Cl', 'Cm', 'Cn'):
        put(st + k + '_alpha', k + 'a', 6); put(st + k + '_beta', k + 'b', 6)
    for r in 'pqr': put(st + 'CL_' + r, 'sCL' + r, 6)
    for k in ('CX', 'CY', 'CZ', 'Cl', 'Cm', 'Cn'):
        for r in 'uvwpqr': put(st + k + '_' + r, k + r, 6)
    put(st + 'neutral_point', 'Xnp', 6, 10.0)
    put(st + 'spiral_criteria', 'spiral', 6)
    names = []
    for w in v['wings']: names += [w['tag']] + ([w['tag'] + ' (YDUP)'] if w['symmetric'] else [])
    for i, n in enumerate(names):
        o['aerodynamics.wing_areas[%d]' % i] = (F['area:' + n.split(' ')[0]], .6e-3 + 1e-3, 0.0)
        put('aerodynamics.wing_CLs[%d]' % i, 'wcl/' + n, 4)
        put('aerodynamics.wing_CDs[%d]' % i, 'wcd/' + n, 4)
        for j in range(nsw):
            for p, q in (('wing_local_spans', 'Yle'), ('wing_section_chords', 'Chord'), ('wing_section_cls', 'cl'), ('wing_section_induced_angle', 'ai'), ('wing_section_cds', 'cd')):
                o['aerodynamics.%s[%d,%d]' % (p, i, j)] = (strip(q, n, j, F), .6e-4, 10 * sens('%s/%s' % (q, n), F))
    cs = {}
    for w in v['wings']:
        for c in w['cs']:
            t = c['tag']
            cs[t] = {k: (coef('%s/%s' % (k, t), F), .6e-6, sens('%s/%s' % (k, t), F)) for k in ('CL', 'CY', 'Cl', 'Cm', 'Cn', 'CDff', 'e')}
            cs[t]['deflection'] = (F['d:' + t], 2e-5, 0.0)
    return o, cs


def sens(name, F):
    """How far inputs written with four decimals may move a coefficient."""
    return 2e-5 * BIG.get(name, 1.0)


def fetch(res, path, i):
    import re
    m = re.match(r'(.*)\[([\d,]+)\]$', path)
    idx = ()
    if m: path, idx = m.group(1), tuple(int(x) for x in m.group(2).split(','))
    o = res
    for k in path.split('.'): o = o[k]
    o = np.asarray(o)[i]
    return float(o[idx] if idx else np.ravel(o)[0])


def wrong(res, i, tag, v, cond, trim, nsw):
    """The first result of case i that is not what the request should have given, or None."""
    want, cs = expected_results(v, cond, trim, nsw)
    for p, (x, tol, s) in want.items():
        got = fetch(res, p, i)
        if not abs(got - x) <= tol + s: return '%s is %.8g, AVL computes %.8g for it' % (p, got, x)
    have = res.stability.static.control_surfaces_cases[tag].control_surfaces
    for t in cs:
        got = [q for q in have.values() if q.tag == t]
        if len(got) != 1: return 'control surface %s has %d results' % (t, len(got))
        for k, (x, tol, s) in cs[t].items():
            y = float(got[0][k])
            if not abs(y - x) <= tol + s: return 'control surface %s: %s is %.8g, AVL computes %.8g for it' % (t, k, y, x)
    return None
