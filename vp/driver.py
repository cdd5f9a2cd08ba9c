#!/usr/bin/env python3
"""Deductive-verification driver.

  driver.py <PROPERTY> [quick|thorough]     run the check of one property
  driver.py --unit <PROPERTY> [unit...]     run single units, verbose (development)
  driver.py --baseline                      rewrite vp/baseline.json from the current tree

Every run copies the current working tree of /repo into a scratch directory, places the
contracts of /verif/specs/<PROPERTY>/*.c on it (contracts on prototypes, loop contracts
inserted on the loop header of the copy, no token of the code removed or changed), and
lets goto-instrument --dfcc / cbmc discharge every obligation, function by function.
See DESIGN.md for the decision policy.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import csrc  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
BASELINE = os.path.join(VERIF, 'vp', 'baseline.json')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
TREES = ['src', 'filters/filterlib/c', 'tools', 'utils']
JOBS = int(os.environ.get('VP_JOBS', '8'))

CHECKS = ['--no-standard-checks', '--pointer-check', '--bounds-check',
          '--div-by-zero-check', '--signed-overflow-check', '--pointer-primitive-check',
          '--malloc-may-fail', '--malloc-fail-null']


class Unit:
    def __init__(self, prop, path, name, opts, filehdr):
        self.prop, self.path, self.name = prop, path, name
        self.id = prop + '/' + name
        self.harness = opts.pop('harness', 'h_' + name)
        self.enforce = opts.pop('enforce', None)
        self.replace = [x for x in opts.pop('replace', '').split(',') if x]
        self.loops = 'loops' in opts
        opts.pop('loops', None)
        self.unwind = opts.pop('unwind', None)
        self.unwindset = opts.pop('unwindset', None)
        self.bounded = opts.pop('bounded', None)          # text of the bound, or None
        self.timeout = int(opts.pop('timeout', '150'))
        self.defs = [x for x in opts.pop('defs', '').split(',') if x]
        self.obj = opts.pop('obj', '10')
        self.solver = opts.pop('solver', None)
        self.nochecks = [x for x in opts.pop('nocheck', '').split(',') if x]
        self.checks = [x for x in opts.pop('check', '').split(',') if x]
        self.fbunwind = opts.pop('fbunwind', None)       # fallback: unwinding bound
        self.fbdefs = [x for x in opts.pop('fbdefs', '').split(',') if x]
        self.tier = opts.pop('tier', 'quick')
        self.about = [x for x in opts.pop('about', '').split(',') if x]
        self.plain = 'plain' in opts
        opts.pop('plain', None)
        self.targets = filehdr['targets']
        self.inc = filehdr['inc']
        self.filedefs = filehdr['defs']
        self.loopann = filehdr['loops']
        self.condann = filehdr['conds']
        self.assumes = filehdr['assumes']
        if opts:
            raise SystemExit('%s: unknown unit options %s' % (path, sorted(opts)))


def parse_spec(prop, path):
    hdr = {'targets': [], 'inc': [], 'defs': [], 'loops': [], 'conds': [], 'cuts': [], 'assumes': []}
    raw = []
    for ln in open(path):
        s = ln.strip()
        if s.startswith('//@+'):
            raw[-1] += ' ' + s[4:].strip()
        elif s.startswith('//@'):
            raw.append(s[3:].strip())
    units = []
    for r in raw:
        k, _, rest = r.partition(' ')
        rest = rest.strip()
        if k == 'target':
            hdr['targets'] += rest.split()
        elif k == 'inc':
            hdr['inc'] += rest.split()
        elif k == 'defs':
            hdr['defs'] += rest.split()
        elif k == 'loop':
            f, n, ann = rest.split(None, 2)
            hdr['loops'].append((f, int(n), ann))
        elif k == 'cond':
            f, n, ann = rest.split(None, 2)
            hdr['conds'].append((f, int(n), ann))
        elif k == 'cut':
            # ghost loop cut evaluated before the loop condition
            f, n, ann = rest.split(None, 2)
            hdr['conds'].append((f, int(n), '@first ' + ann))
            hdr['cuts'].append((f, int(n)))
        elif k == 'assume':
            hdr['assumes'].append(rest)
        elif k == 'unit':
            units.append(rest)
        else:
            raise SystemExit('%s: bad directive %s' % (path, r))
    res = []
    for u in units:
        # name key=val key="val with spaces" flag
        toks = re.findall(r'(?:[^\s"]|"[^"]*")+', u)
        opts = {}
        for t in toks[1:]:
            a, _, b = t.partition('=')
            opts[a] = b.strip('"') if b else ''
        res.append(Unit(prop, path, toks[0], opts, hdr))
    return res


def load_units(prop):
    us = []
    for p in sorted(glob.glob(os.path.join(SPECS, prop, '*.c'))):
        if os.path.basename(p).startswith('native'):
            continue
        us += parse_spec(prop, p)
    return us


# ---------------------------------------------------------------- scratch tree

def make_tree(work):
    t = os.path.join(work, 'repo')
    for d in TREES:
        src = os.path.join(REPO, d)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(t, d), symlinks=True,
                            ignore=shutil.ignore_patterns('.nfs*', '*.o', '*.a', '_build'))
    s = os.path.join(t, 'src')
    # the two generated headers (what src/configure.sh makes of them on this system)
    shutil.copy(os.path.join(s, 'config.h.d', 'config.h.debian'), os.path.join(s, 'config.h'))
    d = open(os.path.join(s, 'defaults.h.in')).read()
    d = d.replace('%MYCONFDIR%', '/usr/local/etc/nbsp').replace('%MYLIBEXECDIR%', '/usr/local/libexec/nbsp')
    open(os.path.join(s, 'defaults.h'), 'w').write(d)
    return t


def run(cmd, timeout, cwd=None, out=None):
    """(rc, output) ; rc None on timeout"""
    mem = 12 * 1024 * 1024
    sh = ['bash', '-c', 'ulimit -v %d; ulimit -c 0; exec "$@"' % mem, 'x'] + cmd
    if any('fsanitize' in c for c in cmd) or cmd[0].endswith('native'):
        sh = cmd
    p = subprocess.Popen(sh, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd,
                         start_new_session=True, errors='replace')
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, _ = p.communicate()
        return None, o


RES = re.compile(r'^\[([^\]]*)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = 'error'     # ok | fail | undecided
        self.reason = ''
        self.obl = 0
        self.ok = 0
        self.failed = []
        self.probes = 0
        self.wall = 0.0
        self.cmd = ''
        self.headers = {}
        self.nobody = []
        self.gb = None
        self.cbmcflags = []
        self.annotated = True
        self.trace = ''


def build_unit(u, tree, wdir, annotate=True, unwind=None, extradefs=()):
    """compile + instrument.  returns (gb, headers, nobody, cmds) or raises csrc.PlaceError /
    RuntimeError."""
    os.makedirs(wdir, exist_ok=True)
    headers = {}
    defs = ['-DVP_CBMC', '-DHAS_CLOCK_GETTIME', '-D_GNU_SOURCE'] + ['-D' + d for d in u.filedefs + u.defs + list(extradefs)]
    incs = ['-I' + os.path.join(VERIF, 'vp')]
    for n, t in enumerate(u.targets):
        src = os.path.join(tree, t)
        if not os.path.exists(src):
            raise RuntimeError('source file %s is gone' % t)
        text = open(src, errors='replace').read()
        anns = []
        conds = []
        if annotate and u.loops:
            fns = csrc.functions(csrc.mask(text))
            anns = [a for a in u.loopann if a[0] in fns]
            missing = [a[0] for a in u.loopann if a[0] not in fns]
            if len(u.targets) == 1 and missing:
                raise csrc.PlaceError('function %s not found' % missing[0])
            conds = [a for a in u.condann if a[0] in fns]
        new, h = csrc.annotate(text, anns, conds)
        headers.update({'%s:%d' % k: v for k, v in h.items()})
        out = os.path.join(os.path.dirname(src), 'vp_%s_%s' % (u.name + ('' if annotate else '_na'), os.path.basename(src)))
        open(out, 'w').write(new)
        defs.append('-DVP_TARGET%s="%s"' % (str(n + 1) if n else '', out))
        incs += ['-iquote', os.path.dirname(src)]
    for i in u.inc + ['src']:
        incs += ['-iquote', os.path.join(tree, i)]
    a, b = os.path.join(wdir, 'a.gb'), os.path.join(wdir, 'b.gb')
    c1 = ['goto-cc', '-o', a, '--function', u.harness] + defs + incs + [u.path]
    rc, o = run(c1, 120)
    if rc != 0:
        raise RuntimeError('goto-cc: ' + o[-1500:])
    cmds = [' '.join(c1)]
    if u.plain:
        return a, headers, [], cmds
    c2 = ['goto-instrument', '--dfcc', u.harness, '--malloc-may-fail', '--malloc-fail-null']
    if u.enforce:
        c2 += ['--enforce-contract', u.enforce]
    for r in u.replace:
        c2 += ['--replace-call-with-contract', r]
    if u.loops and annotate and u.loopann:
        c2 += ['--apply-loop-contracts']
    c2 += [a, b]
    rc, o = run(c2, 200)
    if rc != 0:
        raise RuntimeError('goto-instrument: ' + o[-1500:])
    cmds.append(' '.join(c2))
    return b, headers, [], cmds


def cbmc_flags(u, unwind=None, bounded=False):
    f = [c for c in CHECKS if c.lstrip('-') not in u.nochecks] + ['--' + c for c in u.checks]
    f += ['--object-bits', u.obj]
    uw = unwind or u.unwind
    if uw:
        f += ['--unwind', str(uw)]
        f += ['--no-unwinding-assertions'] if bounded else ['--unwinding-assertions']
    if u.unwindset and not unwind:
        f += ['--unwindset', u.unwindset, '--unwinding-assertions']
    if u.solver:
        f += ['--' + x for x in u.solver.split(',') if x != 'default']
    else:
        f += ['--arrays-uf-always']
    return f


def parse_results(o):
    res = []
    fn = ''
    for ln in o.splitlines():
        m = RES.match(ln)
        if m:
            res.append((m.group(1), fn, int(m.group(2) or 0), m.group(3), m.group(4)))
        else:
            m = re.match(r'^\S.* function (\S+)$', ln)
            if m:
                fn = m.group(1)
    return res


def nobody_list(o):
    return sorted(set(re.findall(r'no body for (?:function|callee) (\S+)', o)))


def run_unit(u, tree, work, annotate=True, unwind=None, bounded=False, extradefs=(), timeout=None):
    r = Result(u)
    t0 = time.time()
    wdir = os.path.join(work, 'u_%s%s' % (u.name, '' if annotate else '_na'))
    r.annotated = annotate
    try:
        gb, r.headers, _, cmds = build_unit(u, tree, wdir, annotate, unwind, extradefs)
    except csrc.PlaceError as e:
        r.status, r.reason = 'undecided', 'annotation not placed: %s' % e
        r.wall = time.time() - t0
        return r
    except RuntimeError as e:
        r.status, r.reason = 'undecided', str(e)
        r.wall = time.time() - t0
        return r
    r.gb = gb
    r.cbmcflags = cbmc_flags(u, unwind, bounded or bool(u.bounded and u.unwind))
    c3 = ['cbmc', gb] + (['--function', u.harness] if u.plain else []) + r.cbmcflags
    r.cmd = ' && '.join(cmds + [' '.join(c3)])
    rc, o = run(c3, timeout or u.timeout)
    if rc is None and not u.solver and not bounded:
        # second back end
        c3 = [x for x in c3 if x != '--arrays-uf-always'] + ['--z3']
        rc, o = run(c3, timeout or u.timeout)
        r.cmd = ' && '.join(cmds + [' '.join(c3)])
    confirmed = {}
    if rc == 10 and '--arrays-uf-always' in c3:
        # the array abstraction may fail an obligation that holds: put exactly the failed ones to
        # the full encoding
        pids = [x[0] for x in parse_results(o) if x[4] == 'FAILURE' and
                not re.search('vp_reach|vp_cover|overflow on signed shl', x[3])]
        if 0 < len(pids) <= 60:
            c4 = [x for x in c3 if x != '--arrays-uf-always']
            for q in pids:
                c4 += ['--property', q]
            rc4, o4 = run(c4, timeout or u.timeout)
            if rc4 in (0, 10):
                confirmed = {x[0]: x[4] for x in parse_results(o4)}
                r.cbmcflags = [x for x in r.cbmcflags if x != '--arrays-uf-always']
                if rc4 == 0:
                    r.cmd += ' ; %s obligations: cbmc without --arrays-uf-always' % len(pids)
    r.backend = 'z3' if '--z3' in c3 else 'cvc5' if '--cvc5' in c3 else 'MiniSat2'
    r.wall = time.time() - t0
    r.nobody = nobody_list(o)
    if rc is None:
        r.status, r.reason = 'undecided', 'solver time-out (%ds)' % (timeout or u.timeout)
        return r
    if rc not in (0, 10):
        r.status, r.reason = 'undecided', 'cbmc rc=%s: %s' % (rc, o[-800:])
        return r
    res = parse_results(o)
    reach_ok = True
    nreach = 0
    unw = []
    for pid, fn, line, desc, st in res:
        st = confirmed.get(pid, st)
        if 'vp_reach' in desc or 'vp_cover' in desc:
            nreach += 1
            if st != 'FAILURE':
                reach_ok = False
                r.reason += 'vacuous: probe "%s" unreachable; ' % desc
            continue
        if 'overflow on signed shl' in desc:
            continue      # gcc defines << into the sign bit; not an obligation here
        r.obl += 1
        if st == 'SUCCESS':
            r.ok += 1
        elif st == 'FAILURE':
            if '.unwind.' in pid or 'unwinding assertion' in desc or 'recursion' in pid:
                unw.append((pid, fn, line, desc))
            elif 'undefined function should be unreachable' in desc or 'no-body' in pid:
                unw.append((pid, fn, line, desc))
            else:
                r.failed.append((pid, fn, line, desc))
        else:
            unw.append((pid, fn, line, desc + ' ' + st))
    r.probes = nreach
    if r.failed:
        r.status = 'fail'
        r.unw = unw
    elif unw:
        r.status, r.reason = 'undecided', 'not decided: %s' % unw[:3]
    elif r.obl == 0:
        r.status, r.reason = 'undecided', 'no obligations generated'
    elif nreach == 0 or not reach_ok:
        r.status, r.reason = 'undecided', r.reason or 'no reachability probe'
    else:
        r.status = 'ok'
    return r


def get_trace(r, timeout=120):
    """counterexample of the first failed obligation"""
    if not r.failed or not r.gb:
        return ''
    pid = r.failed[0][0]
    c = ['cbmc', r.gb] + (['--function', r.unit.harness] if r.unit.plain else []) + r.cbmcflags + \
        ['--property', pid, '--trace', '--compact-trace']
    rc, o = run(c, timeout)
    if rc is None:
        return 'trace: time-out'
    i = o.find('Trace for')
    o = o[i:] if i >= 0 else o[-4000:]
    keep = [ln for ln in o.splitlines() if not re.search(r'__CPROVER_contracts|__dfcc|__write_set|__check_', ln)]
    return '\n'.join(keep[-120:])


# ---------------------------------------------------------------- native replay

def parse_native(path):
    h = {'srcs': [], 'flags': [], 'inc': []}
    for ln in open(path):
        if ln.startswith('//@ native '):
            for t in ln[11:].split():
                k, _, v = t.partition('=')
                if k == 'srcs':
                    h['srcs'] += v.split(',')
                elif k == 'flags':
                    h['flags'].append(v)
                elif k == 'inc':
                    h['inc'] += v.split(',')
    return h


def native_files(prop):
    return sorted(glob.glob(os.path.join(SPECS, prop, 'native*.c')))


def native_build(prop, path, tree, work):
    h = parse_native(path)
    name = os.path.splitext(os.path.basename(path))[0]
    exe = os.path.join(work, name + '.native')
    cmd = ['gcc', '-g', '-O1', '-fno-omit-frame-pointer', '-w', '-fsanitize=address,undefined',
           '-fno-sanitize=shift,alignment', '-fno-sanitize-recover=all', '-D_GNU_SOURCE', '-DHAS_CLOCK_GETTIME',
           '-DVP_TREE="%s"' % tree,
           '-I' + os.path.join(VERIF, 'vp'), '-iquote', tree]
    for i in h['inc'] + ['src']:
        cmd += ['-iquote', os.path.join(tree, i)]
    cmd += ['-o', exe, path] + [os.path.join(tree, s) for s in h['srcs']] + h['flags'] + ['-lm', '-lpthread']
    rc, o = run(cmd, 120)
    if rc != 0:
        return None, o[-1500:]
    return exe, ' '.join(cmd)


NENV = {'ASAN_OPTIONS': 'detect_leaks=1:handle_abort=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77',
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1:exitcode=77'}


def native_one(prop, path, tree, work, seed, secs):
    base = os.path.basename(path)
    exe, o = native_build(prop, path, tree, work)
    if exe is None:
        return None, '%s does not compile: %s' % (base, o[-600:])
    sc = os.path.join(work, 'scratch_' + base)
    os.makedirs(sc, exist_ok=True)
    cmd = ['env'] + ['%s=%s' % kv for kv in NENV.items()] + ['VP_SCRATCH=' + sc, exe, str(seed), str(secs)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=sc,
                         start_new_session=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=secs + 90)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, '%s: search time-out' % base
    if rc == 0:
        return None, '%s: %s' % (base, out.strip().splitlines()[-1] if out.strip() else 'no output')
    m = re.findall(r'^VPCASE (.*)$', out, re.M)
    if not m:
        return None, '%s: rc=%s without a case: %s' % (base, rc, out[-400:])
    return {'native': base, 'case': m[-1], 'output': out[-6000:], 'build': o}, '%s: failing case' % base


def native_search(prop, tree, work, seed, secs):
    """search for a concrete failing input.  Returns (hit dict or None, notes)."""
    files = native_files(prop)
    if not files:
        return None, []
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(lambda f: native_one(prop, f, tree, work, seed, secs), files))
    hit = next((h for h, _ in rs if h), None)
    return hit, [n for _, n in rs]


# ---------------------------------------------------------------- policy

def load_known():
    res = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('finding:'):
                # finding: property=<id> unit=<unit> obligation=<regex> | text
                m = re.match(r'finding: property=(\S+) unit=(\S+) obligation=(.*?) \| (.*)$', ln)
                if m:
                    res.append(m.groups())
    return res


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return check_in(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(prop, tier, seed, work, t0):
    tree = make_tree(work)
    base = {}
    if os.path.exists(BASELINE):
        base = json.load(open(BASELINE))
    units = [u for u in load_units(prop) if tier == 'thorough' or u.tier == 'quick']
    known = [k for k in load_known() if k[0] == prop]
    budget = 820
    with ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(lambda u: run_unit(u, tree, work, timeout=u.timeout if tier == 'quick' else u.timeout * 2), units))
    knownhits = []
    for r in results:
        if r.status != 'fail':
            continue
        left = []
        for f in r.failed:
            for k in known:
                if k[1] == r.unit.name and re.search(k[2], '%s %s %s' % (f[0], f[1], f[3])):
                    knownhits.append(k[3])
                    break
            else:
                left.append(f)
        r.failed = left
        if not left:
            r.status = 'known'
    for k in sorted(set(knownhits)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))

    degraded = []
    violation = None
    bad = [r for r in results if r.status in ('fail', 'undecided')]
    nat_notes = []
    # concrete execution of the real functions against the same specifications: finds the failing
    # input of a failed obligation, and is the (bounded) stand-in for code no unit covers
    if tier == 'quick':
        nsecs = 60 if bad else 12
    else:
        nsecs = 240 if bad else 120
    hit, nat_notes = native_search(prop, tree, work, seed, nsecs)
    if bad or hit:
        if hit:
            violation = ('input', hit, bad)
        else:
            alarms = []
            fallback = []
            for r in bad:
                b = base.get(r.unit.id, {})
                same = (r.headers == b.get('headers', r.headers)) and not set(r.nobody) - set(b.get('nobody', []))
                if r.status == 'fail' and same and not getattr(r, 'unw', []):
                    alarms.append(r)
                elif r.status == 'fail' and not r.unit.loops and not set(r.nobody) - set(b.get('nobody', [])) \
                        and not [x for x in getattr(r, 'unw', []) if not ('.unwind.' in x[0] or 'unwinding assertion' in x[3])]:
                    alarms.append(r)
                else:
                    fallback.append(r)
            if alarms:
                violation = ('proof', None, alarms)
            elif fallback:
                # the proof could not be redone on the changed text: bounded check of the
                # same contracts without loop annotations
                def fb(r):
                    u = r.unit
                    if not u.fbunwind:
                        return None
                    return run_unit(u, tree, work, annotate=False, unwind=u.fbunwind, bounded=True,
                                    extradefs=u.fbdefs, timeout=150)
                if time.time() - t0 < 560:
                    with ThreadPoolExecutor(JOBS) as ex:
                        fbs = list(ex.map(fb, fallback))
                else:
                    fbs = [None] * len(fallback)
                for r, f in zip(fallback, fbs):
                    b = base.get(r.unit.id, {})
                    if f is not None and f.status == 'fail' and not set(f.nobody) - set(b.get('nobody', []) + b.get('fbnobody', [])):
                        violation = ('proof', None, [f]) if violation is None else ('proof', None, violation[2] + [f])
                    degraded.append({'unit': r.unit.name, 'why': r.reason[:600] or 'obligation failed on changed loop text: %s' % (r.failed[:2],),
                                     'fallback': 'none' if f is None else '%s (bounded, unwind %s)' % (f.status, r.unit.fbunwind)})
    rc = 0
    replay = None
    if violation:
        rc = 1
        kind, hit, rs = violation
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, prop + '.json')
        rep = {'property': prop, 'seed': seed, 'kind': kind, 'failed_obligations': [], 'native': None}
        for r in rs:
            for f in r.failed[:20]:
                rep['failed_obligations'].append({'unit': r.unit.name, 'target': r.unit.targets, 'function': f[1],
                                                  'obligation': f[0], 'line': f[2], 'text': f[3],
                                                  'annotated': r.annotated})
            if r.status == 'undecided':
                rep['failed_obligations'].append({'unit': r.unit.name, 'undecided': r.reason})
        for r in rs[:2]:
            if r.failed:
                rep.setdefault('verifier_trace', {})[r.unit.name] = get_trace(r)
        if hit:
            rep['native'] = hit
            rep['reproduce'] = 'python3 %s/vp/driver.py --replay %s' % (VERIF, replay)
        else:
            rep['native_notes'] = nat_notes
        json.dump(rep, open(replay, 'w'), indent=1)
        for r in rs[:4]:
            for f in r.failed[:3]:
                print('obligation failed: unit=%s function=%s [%s] line %d %s' % (r.unit.name, f[1], f[0], f[2], f[3]))
        if hit:
            print('failing input: %s' % hit['case'])
            print('VIOLATION property=%s replay=%s' % (prop, replay))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    write_evidence(prop, tier, seed, results, degraded, nat_notes, rc, time.time() - t0, knownhits)
    for d in degraded:
        print('DEGRADED unit=%s: %s; fallback: %s' % (d['unit'], d['why'][:300], d['fallback']))
    tot = sum(r.obl for r in results)
    print('%s: %d units, %d/%d obligations discharged, %.1fs, exit %d' % (
        prop, len(results), sum(r.ok for r in results), tot, time.time() - t0, rc))
    return rc


def all_enforced():
    res = set()
    for d in sorted(os.listdir(SPECS)):
        if os.path.isdir(os.path.join(SPECS, d)):
            for u in load_units(d):
                if u.enforce:
                    res.add(u.enforce.split('/')[0])
    return res


def write_evidence(prop, tier, seed, results, degraded, nat_notes, rc, wall, knownhits):
    enforced = all_enforced()
    trusted = []
    assumptions = []
    for r in results:
        for g in r.unit.replace:
            g0 = g.split('/')[0]
            if g0 not in enforced and g0 not in trusted:
                trusted.append(g0)
        for n in r.nobody:
            if not n.startswith('nondet') and n not in trusted:
                trusted.append(n)
        for a in r.unit.assumes:
            if a not in assumptions:
                assumptions.append(a)
    proved = [r for r in results if r.status == 'ok' and not r.unit.bounded]
    bnd = [r for r in results if r.unit.bounded]
    cov = {
        'obligations': sum(r.obl for r in results if not r.unit.bounded),
        'discharged': sum(r.ok for r in results if not r.unit.bounded),
        'checker_cmd': next((r.cmd for r in results if r.cmd), ''),
        'trusted_base': ['CBMC 6.11.0 (goto-cc front end, dfcc instrumentation, SAT back end)'] +
                        ['assumed contract or body: %s' % t for t in trusted],
        'backend': 'cbmc 6.11.0; ' + ', '.join(sorted({getattr(r, 'backend', '') for r in results} - {''})),
        'functions_under_contract': sorted({r.unit.enforce.split('/')[0] for r in proved if r.unit.enforce} | {a for r in proved for a in r.unit.about}),
        'lemma_units': sorted(r.unit.name for r in proved if not r.unit.enforce and not r.unit.about),
        'units': [{'unit': r.unit.name, 'target': r.unit.targets, 'enforce': r.unit.enforce, 'replace': r.unit.replace,
                   'backend': getattr(r, 'backend', ''), 'loop_contracts': r.unit.loops, 'unwind': r.unit.unwind,
                   'status': r.status, 'obligations': r.obl, 'discharged': r.ok, 'vacuity_probes': r.probes,
                   'wall_s': round(r.wall, 2), 'bounded': r.unit.bounded} for r in results],
        'bounded_units': [{'unit': r.unit.name, 'bound': r.unit.bounded, 'obligations': r.obl, 'discharged': r.ok} for r in bnd],
        'solver_wall_s': round(sum(r.wall for r in results), 2),
        'degraded': degraded,
        'concrete_search': nat_notes,
        'known_findings': sorted(set(knownhits)),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': assumptions + ['machine arithmetic is bit-precise; pthread, libc and system calls without a stub return any value',
                                        'concurrent interleavings are not explored: each contract is about one call'],
          'wall_s': round(wall, 2), 'violations': 1 if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


def dev_units(prop, names, na=False):
    work = tempfile.mkdtemp(prefix='vpdev_')
    try:
        tree = make_tree(work)
        us = [u for u in load_units(prop) if not names or any(re.fullmatch(n, u.name) for n in names)]
        with ThreadPoolExecutor(JOBS) as ex:
            if na:
                rs = list(ex.map(lambda u: run_unit(u, tree, work, annotate=False, unwind=u.fbunwind, bounded=True, extradefs=u.fbdefs), us))
            else:
                rs = list(ex.map(lambda u: run_unit(u, tree, work), us))
        for r in rs:
            print('%-34s %-10s %4d/%-4d probes=%d %.1fs %s' % (r.unit.name, r.status, r.ok, r.obl, r.probes, r.wall, r.reason[-1500:]))
            for f in r.failed[:12]:
                print('    FAIL', f)
            if r.failed and os.environ.get('TRACE'):
                print(get_trace(r))
            if r.nobody:
                print('    no body:', r.nobody)
    finally:
        if os.environ.get('KEEP'):
            print(work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def dev_native(prop, secs):
    work = tempfile.mkdtemp(prefix='vpdev_')
    try:
        tree = make_tree(work)
        t0 = time.time()
        hit, notes = native_search(prop, tree, work, int(os.environ.get('VERIF_SEED', '1')), secs)
        print('%.1fs' % (time.time() - t0), notes)
        if hit:
            print(hit['case'])
            print(hit['output'])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def baseline():
    work = tempfile.mkdtemp(prefix='vpbase_')
    res = {}
    try:
        tree = make_tree(work)
        us = []
        props = [d for d in sorted(os.listdir(SPECS)) if os.path.isdir(os.path.join(SPECS, d))]
        only = sys.argv[2:]
        if only and os.path.exists(BASELINE):
            res = json.load(open(BASELINE))
        for d in props:
            if only and d not in only:
                continue
            us += load_units(d)
        for k in [k for k in res if k.split('/')[0] in only or k.split('/')[0] not in props]:
            del res[k]

        def one(u):
            w = os.path.join(work, u.prop)
            os.makedirs(w, exist_ok=True)
            # own tree per property: the annotated copies are named by unit
            r = run_unit(u, trees[u.prop], w)
            f = None
            if u.fbunwind:
                f = run_unit(u, trees[u.prop], w, annotate=False, unwind=u.fbunwind, bounded=True, extradefs=u.fbdefs, timeout=150)
            return r, f
        trees = {}
        for p in {u.prop for u in us}:
            w = os.path.join(work, 't_' + p)
            trees[p] = make_tree(w)
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, us))
        for r, f in rs:
            res[r.unit.id] = {'headers': r.headers, 'nobody': r.nobody, 'obligations': r.obl, 'status': r.status}
            if f is not None:
                res[r.unit.id]['fbnobody'] = f.nobody
                res[r.unit.id]['fbstatus'] = f.status
            print('%-40s %s %d/%d %.1fs   fb: %s %s' % (r.unit.id, r.status, r.ok, r.obl, r.wall, f and f.status, (f and '%.0fs' % f.wall)), r.reason[-300:], (f and f.failed[:3]) or '')
        json.dump(res, open(BASELINE, 'w'), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rep = json.load(open(path))
    prop = rep['property']
    if not rep.get('native'):
        print(json.dumps(rep, indent=1))
        return 1
    work = tempfile.mkdtemp(prefix='vpreplay_')
    try:
        tree = make_tree(work)
        exe, o = native_build(prop, os.path.join(SPECS, prop, rep['native']['native']), tree, work)
        if exe is None:
            print(o)
            return 2
        fn, idx = rep['native']['case'].split()[:2]
        rc, out = run(['env'] + ['%s=%s' % kv for kv in NENV.items()] + ['VP_SCRATCH=' + work, exe, str(rep['seed']), '0', fn, idx], 120)
        print(out)
        return 1 if rc else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == '--unit':
        return dev_units(a[1], a[2:])
    if a[0] == '--fb':
        return dev_units(a[1], a[2:], na=True)
    if a[0] == '--native':
        return dev_native(a[1], int(a[2]) if len(a) > 2 else 10)
    if a[0] == '--baseline':
        return baseline()
    if a[0] == '--replay':
        return sys.exit(replay(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(check(a[0], tier))


if __name__ == '__main__':
    main()
