#!/usr/bin/env python3
"""Driver for the solver-based checks.

usage: vf.py <property-id> [--tier quick|thorough] [--part NAME] [--keep] [-v]

Every part of a check is one harness (harness/*.c) linked with the real sources
of /repo, translated by goto-cc and decided by CBMC (symbolic execution of the
sources + SAT).  The encoding is rebuilt from /repo's working tree on each run.

exit 0  every assertion of every part holds for all values within the bounds
exit 1  VIOLATION: a counterexample was found and reproduced against the real
        code compiled with gcc/clang
exit 2  no answer (build error, solver limit, counterexample that does not
        reproduce, vacuous harness)
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, os.path.join(VERIF, 'lib'))

NCPU = os.cpu_count() or 4
MEM_GB = 7

LOG = False


def log(*a):
    if LOG:
        print('#', *a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


# --------------------------------------------------------------------------
# Parts
# --------------------------------------------------------------------------

IPT = [
    'pt_asid', 'pt_block_cache', 'pt_block_decoder', 'pt_config', 'pt_cpu',
    'pt_encoder', 'pt_error', 'pt_event_decoder', 'pt_event_queue', 'pt_ild',
    'pt_image', 'pt_image_section_cache', 'pt_insn', 'pt_insn_decoder',
    'pt_last_ip', 'pt_msec_cache', 'pt_packet', 'pt_packet_decoder',
    'pt_query_decoder', 'pt_retstack', 'pt_section', 'pt_section_file',
    'posix/pt_section_posix', 'pt_sync', 'pt_time',
    'pt_tnt_cache', 'pt_version',
]


class Part:
    """One harness.

    file      harness/<file>.c
    defs      {macro: value} for the harness (and, with fdefs, for sources)
    ipt       list of libipt/src/<name>.c to link (default: all in IPT minus
              'without')
    extra     further sources, relative to the repository
    fdefs     {source path or libipt name: {macro: value}} per-file macros
    unwind    default loop bound;  loops: {function regex: bound}
    mem       check pointers, array bounds, shifts, signed overflow, ...
    """

    def __init__(self, name, file, defs=None, ipt=None, without=(), extra=(),
                 fdefs=None, unwind=4, loops=None, mem=True, timeout=200,
                 tiers=('quick', 'thorough'), maxunwind=130, nobody=(),
                 flags=(), threads=False, what='', bounds='', stubs=(),
                 incs=(), alloc_fails=False, optional=False, sat=None,
                 weight=1, wreplay=True, fs=None, libs=(), nochecks=(),
                 thorough=None, native_defs=None, smt=False, flat=()):
        self.name = name
        self.file = file
        self.defs = dict(defs or {})
        self.ipt = list(IPT if ipt is None else ipt)
        self.ipt = [s for s in self.ipt if s not in without]
        self.extra = list(extra)
        self.fdefs = dict(fdefs or {})
        self.unwind = unwind
        self.loops = dict(loops or {})
        self.mem = mem
        self.timeout = timeout
        self.tiers = tiers
        self.maxunwind = maxunwind
        self.nobody = set(nobody)
        self.flags = list(flags)
        self.threads = threads
        self.what = what
        self.bounds = bounds
        self.stubs = list(stubs)
        self.incs = list(incs)
        self.alloc_fails = alloc_fails
        self.optional = optional
        self.sat = sat
        self.weight = weight
        self.wreplay = wreplay
        self.fs = fs
        self.libs = list(libs)
        # decide with z3 (traces still come from the SAT solver)
        self.smt = smt
        # structs of intel-pt.h whose unions the encoding lays out side by side
        # (code that reads another member than was written would differ)
        self.flat = tuple(flat)
        self.nochecks = set(nochecks)
        # overrides for the thorough tier
        self.thorough = dict(thorough or {})
        self.native_defs = dict(native_defs or {})

    def at(self, tier):
        if tier != 'thorough' or not self.thorough:
            return self
        import copy
        p = copy.deepcopy(self)
        for k, v in self.thorough.items():
            if k == 'defs':
                p.defs.update(v)
            elif k == 'loops':
                p.loops.update(v)
            else:
                setattr(p, k, v)
        return p

    def sources(self):
        out = [os.path.join(REPO, 'libipt/src', s + '.c') for s in self.ipt]
        for e in self.extra:
            if e.startswith('@'):
                out.append(os.path.join(HARNESS, e[1:]))
            else:
                out.append(os.path.join(REPO, e))
        return out


# --------------------------------------------------------------------------
# Building
# --------------------------------------------------------------------------

def run(cmd, timeout=None, cwd=None, env=None, mem=None):
    def lim():
        os.setsid()
        if mem:
            b = int(mem * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env, preexec_fn=lim)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, b'', b''
    return p.returncode, out, err


class Builder:
    def __init__(self, work):
        self.work = work
        self.inc = os.path.join(work, 'inc')
        os.makedirs(self.inc)
        self.cache = {}
        self.lock = threading.Lock()
        self.version()

    def version(self):
        txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        self.ver = {}
        for k in ('MAJOR', 'MINOR', 'PATCH'):
            m = re.search(r'set\(PT_VERSION_%s\s+(\d+)\s*\)' % k, txt)
            if not m:
                raise NoAnswer('no PT_VERSION_%s in CMakeLists.txt' % k)
            self.ver[k] = m.group(1)
        for src, dst in (('libipt/include/intel-pt.h.in', 'intel-pt.h'),
                         ('sideband/include/libipt-sb.h.in', 'libipt-sb.h')):
            t = open(os.path.join(REPO, src)).read()
            for k, v in self.ver.items():
                t = t.replace('${PT_VERSION_%s}' % k, v)
            with open(os.path.join(self.inc, dst), 'w') as f:
                f.write(t)

    def flat(self, part):
        d = os.path.join(self.work, 'inc-' + '-'.join(part.flat))
        with self.lock:
            if os.path.isdir(d):
                return d
            t = open(os.path.join(self.inc, 'intel-pt.h')).read()
            for s in part.flat:
                t, n = re.subn(
                    r'(\nstruct %s \{.*?\n\}[^\n]*;)' % s,
                    lambda m: re.sub(r'\bunion\b(?=\s*\{)', 'struct',
                                     m.group(1)),
                    t, count=1, flags=re.S)
                if n != 1:
                    raise NoAnswer('no struct %s in intel-pt.h' % s)
            os.makedirs(d + '.tmp')
            with open(os.path.join(d + '.tmp', 'intel-pt.h'), 'w') as f:
                f.write(t)
            os.rename(d + '.tmp', d)
        return d

    def flags(self, part, harness, cc=''):
        f = ['-I' + HARNESS]
        if part.flat and cc == 'goto-cc':
            f.append('-I' + self.flat(part))
        for i in part.incs:
            f.append('-I' + os.path.join(HARNESS, i[1:]) if i.startswith('@')
                     else '-I' + os.path.join(REPO, i))
        f += ['-I' + self.inc]
        f += ['-I' + os.path.join(REPO, d) for d in (
            'libipt/internal/include', 'libipt/internal/include/posix',
            'include', 'include/posix', 'sideband/internal/include',
            'pevent/include', 'pttc/include')]
        f += ['-DPT_VERSION_%s=%s' % (k, v) for k, v in self.ver.items()]
        f += ['-DPT_VERSION_BUILD=0', '-DPT_VERSION_EXT=""', '-D_GNU_SOURCE',
              '-DFEATURE_ELF=1', '-DFEATURE_PEVENT=1']
        if part.threads:
            f.append('-DFEATURE_THREADS')
        return f

    def fdefs(self, part, src):
        out = []
        base = os.path.basename(src)[:-2]
        for key, d in part.fdefs.items():
            if key == base or src.endswith(key) or key == '*':
                out += ['-D%s=%s' % kv for kv in sorted(d.items())]
        return out

    def obj(self, part, src, cc, ccflags):
        harness = src.startswith(HARNESS)
        fl = self.flags(part, harness, cc) + self.fdefs(part, src)
        if harness:
            fl += ['-D%s=%s' % kv for kv in sorted(part.defs.items())]
            if cc != 'goto-cc':
                fl += ['-D%s=%s' % kv for kv in
                       sorted(part.native_defs.items())]
        key = (cc, tuple(ccflags), src, tuple(fl))
        with self.lock:
            if key in self.cache:
                ev, slot = self.cache[key]
                mine = False
            else:
                ev, slot = threading.Event(), {}
                self.cache[key] = (ev, slot)
                mine = True
                slot['n'] = len(self.cache)
        if not mine:
            ev.wait()
        else:
            out = os.path.join(self.work, '%s-%d.o' % (
                os.path.basename(src)[:-2], slot['n']))
            rc, so, se = run([cc] + list(ccflags) + fl +
                             ['-c', src, '-o', out], timeout=120)
            slot['rc'] = rc
            slot['out'] = out
            slot['err'] = (so + se).decode(errors='replace')
            ev.set()
        if slot.get('rc') != 0:
            raise NoAnswer('%s %s failed: %s' % (cc, src, slot['err'][-1500:]))
        return slot['out']

    def link(self, part, cc, ccflags, out):
        srcs = [os.path.join(HARNESS, part.file + '.c')] + part.sources()
        with cf.ThreadPoolExecutor(4) as ex:
            objs = list(ex.map(
                lambda s: self.obj(part, s, cc, ccflags), srcs))
        cmd = [cc] + list(ccflags) + objs + ['-o', out]
        if cc == 'goto-cc':
            cmd += ['--function', 'harness']
        else:
            cmd += ['-lm', '-lpthread', '-Wl,--unresolved-symbols=ignore-all']
        rc, so, se = run(cmd, timeout=120)
        if rc != 0:
            raise NoAnswer('link failed: ' +
                           (so + se).decode(errors='replace')[-1500:])
        return out


# --------------------------------------------------------------------------
# CBMC
# --------------------------------------------------------------------------

BASE = ['--drop-unused-functions', '--json-ui', '--verbosity', '8']
MEMCHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check',
             '--div-by-zero-check', '--signed-overflow-check',
             '--undefined-shift-check', '--unwinding-assertions']
FUNCHECKS = ['--no-standard-checks', '--bounds-check', '--div-by-zero-check',
             '--undefined-shift-check', '--unwinding-assertions']
# Forming (not dereferencing) an out-of-bounds pointer is not judged: the code
# bounds-checks with 'end < begin + size' throughout and no sanitizer confirms.
SKIP = re.compile(r'\.(pointer_arithmetic)\.\d+$')


def parse(out):
    try:
        return json.loads(out)
    except ValueError:
        # Truncated or with trailing garbage.
        return None


def parse_text(out):
    txt = out.decode(errors='replace')
    if '** Results:' not in txt:
        return None
    head, tail = txt.split('** Results:', 1)
    data = [{'messageType': 'STATUS-MESSAGE', 'messageText': l}
            for l in head.splitlines()]
    res = []
    for l in tail.splitlines():
        g = re.match(r'\[(\S+)\] (?:file \S+ )?(?:line \d+ )?(.*): '
                     r'(SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
        if g:
            if g.group(3) in ('UNKNOWN', 'ERROR'):
                return None
            res.append({'property': g.group(1), 'description': g.group(2),
                        'status': g.group(3)})
    data.append({'result': res})
    return data


class Result:
    pass


def cbmc(part, gb, unwindset, props=None, trace=False, timeout=200):
    cmd = ['cbmc', gb, '--function', 'harness'] + BASE
    cmd += MEMCHECKS if part.mem else FUNCHECKS
    cmd += [] if part.alloc_fails else ['--no-malloc-may-fail']
    cmd += ['--unwind', str(part.unwind)]
    if unwindset:
        cmd += ['--unwindset',
                ','.join('%s:%d' % kv for kv in sorted(unwindset.items()))]
    cmd += ['--sat-solver', part.sat] if part.sat else []
    cmd += ['--max-field-sensitivity-array-size', str(part.fs)] \
        if part.fs else []
    cmd += part.flags
    if not trace:
        cmd += ['--slice-formula']
    for p in props or ():
        cmd += ['--property', p]
    if trace:
        cmd += ['--trace']
    smt = part.smt and not trace
    if smt:
        # (CBMC 6.11 cannot print JSON traces of SMT models)
        cmd = [c for c in cmd if c != '--json-ui'] + ['--z3']
    t0 = time.time()
    rc, out, err = run(cmd, timeout=timeout, mem=MEM_GB)
    r = Result()
    r.wall = time.time() - t0
    r.cmd = cmd
    r.rc = rc
    r.data = None
    if rc is None:
        r.status = 'timeout'
        return r
    r.data = parse_text(out) if smt else parse(out)
    if r.data is None or rc not in (0, 10):
        r.status = 'error'
        r.err = (out[-800:] + err[-800:]).decode(errors='replace')
        return r
    r.status = 'done'
    r.results = []
    r.msgs = []
    for e in r.data:
        if 'messageText' in e:
            r.msgs.append((e.get('messageType'), e['messageText']))
        if 'result' in e:
            r.results += e['result']
    r.steps = r.vars = r.clauses = r.vccs = 0
    r.solver = 0.0
    r.queries = 0
    for ty, m in r.msgs:
        g = re.search(r'size of program expression: (\d+) steps', m)
        if g:
            r.steps = int(g.group(1))
        g = re.search(r'(\d+) variables, (\d+) clauses', m)
        if g:
            r.vars, r.clauses = int(g.group(1)), int(g.group(2))
        g = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
        if g:
            r.vccs = int(g.group(2))
        g = re.search(r'Runtime Solver: ([\d.e+-]+)s', m)
        if g:
            r.solver += float(g.group(1))
            r.queries += 1
    return r


def properties(part, gb):
    cmd = ['cbmc', gb, '--function', 'harness', '--drop-unused-functions',
           '--json-ui', '--show-properties']
    cmd += MEMCHECKS if part.mem else FUNCHECKS
    rc, out, err = run(cmd, timeout=120)
    data = parse(out)
    if data is None:
        raise NoAnswer('show-properties: ' + (out + err).decode()[-800:])
    for e in data:
        if 'properties' in e:
            return e['properties']
    return []


def loops(part, gb):
    cmd = ['cbmc', gb, '--function', 'harness', '--drop-unused-functions',
           '--json-ui', '--show-loops']
    rc, out, err = run(cmd, timeout=120)
    data = parse(out)
    res = []
    for e in data or []:
        if 'loops' in e:
            res += [l['name'] for l in e['loops']]
    return res


def funcs(part, gb):
    cmd = ['cbmc', gb, '--function', 'harness', '--drop-unused-functions',
           '--json-ui', '--show-goto-functions']
    rc, out, err = run(cmd, timeout=120)
    return out


def inputs_of(trace):
    vals = []
    for s in trace:
        if s.get('stepType') == 'input' and s.get('inputID') == 'vf':
            v = s['values'][0]
            vals.append(int(v['binary'], 2))
    return vals


# --------------------------------------------------------------------------
# Replay
# --------------------------------------------------------------------------

NATIVE = {
    'asan': ('gcc', ['-g', '-O1', '-DVF_REPLAY', '-U_FORTIFY_SOURCE', '-fsanitize=address,undefined',
                     '-fno-sanitize=alignment,pointer-overflow',
                     '-fno-sanitize-recover=undefined', '-w']),
    'plain': ('gcc', ['-g', '-O2', '-DVF_REPLAY', '-U_FORTIFY_SOURCE', '-w']),
    'pattern': ('gcc', ['-g', '-O1', '-DVF_REPLAY', '-U_FORTIFY_SOURCE', '-w',
                        '-ftrivial-auto-var-init=pattern']),
    'msan': ('clang', ['-g', '-O1', '-DVF_REPLAY', '-U_FORTIFY_SOURCE', '-fsanitize=memory', '-w']),
}


def replay(b, part, vals, tag, modes=('asan', 'plain', 'pattern', 'msan')):
    """returns (verdict, text): fail | hang | ok | assume | builderror"""
    inp = os.path.join(b.work, tag + '.in')
    with open(inp, 'w') as f:
        f.write('\n'.join('%x' % v for v in vals) + '\n')
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'exitcode=43:detect_leaks=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=43:print_stacktrace=1'
    env['MSAN_OPTIONS'] = 'exitcode=43:allocator_may_return_null=1'
    last = ('ok', '')
    for m in modes:
        cc, fl = NATIVE[m]
        exe = os.path.join(b.work, '%s-%s.exe' % (part.name, m))
        with b.lock:
            have = os.path.exists(exe)
        if not have:
            try:
                b.link(part, cc, fl, exe + '.tmp%d' % threading.get_ident())
                os.rename(exe + '.tmp%d' % threading.get_ident(), exe)
            except NoAnswer as e:
                return 'builderror', str(e)
        rc, out, err = run([exe, inp], timeout=20, env=env, cwd=b.work)
        txt = (out + err).decode(errors='replace')
        if rc is None:
            return 'hang', 'mode %s: no end within 20 s\n' % m
        if rc == 77:
            last = ('assume', txt)
            continue
        if rc == 0:
            last = ('ok', txt)
            continue
        return 'fail', 'mode %s: exit %d\n%s' % (m, rc, txt)
    return last


# --------------------------------------------------------------------------
# Deciding a part
# --------------------------------------------------------------------------

def decide(b, part, prop, tier, deadline):
    t0 = time.time()
    res = {'part': part.name, 'what': part.what, 'bounds': part.bounds,
           'stubs': part.stubs, 'obligations': 0, 'discharged': 0,
           'queries': 0, 'solver_s': 0.0, 'witnesses': 0, 'validated': 0,
           'steps': 0, 'vars': 0, 'violations': [], 'samples': []}
    gb = os.path.join(b.work, part.name + '.gb')
    b.link(part, 'goto-cc', [], gb)

    props = properties(part, gb)
    keep = [p['name'] for p in props if not SKIP.search(p['name'])]
    kinds = {p['name']: p for p in props}
    sel = None if len(keep) == len(props) else keep
    ids = loops(part, gb)
    uset = {}
    for l in ids:
        fn = l.rsplit('.', 1)[0]
        for rx, n in part.loops.items():
            if re.fullmatch(rx, fn):
                uset[l] = n
    for attempt in range(12):
        left = min(part.timeout, deadline - time.time())
        if left < 5:
            raise NoAnswer('%s: out of time' % part.name)
        # (unwinding assertions are checked whatever --property selects)
        r = cbmc(part, gb, uset, sel, timeout=left)
        if r.status == 'timeout':
            raise NoAnswer('%s: solver limit of %d s' % (part.name, left))
        if r.status == 'error':
            raise NoAnswer('%s: cbmc: %s' % (part.name, r.err[-800:]))
        nob = set()
        for ty, m in r.msgs:
            g = re.search(r"no body for (?:function|callee) '?([\w:$]+)'?", m)
            if g:
                nob.add(g.group(1))
        nob = {n for n in nob if not n.startswith('nondet_')} - part.nobody
        if nob:
            raise NoAnswer('%s: no body for %s' % (part.name, sorted(nob)))
        res['queries'] += r.queries
        res['solver_s'] += r.solver
        res['steps'] = r.steps
        res['vars'] = r.vars
        bad = [x for x in r.results if x['status'] == 'FAILURE'
               and not SKIP.search(x['property'])]
        unw = [x['property'] for x in bad
               if re.search(r'\.unwind\.\d+$|\.recursion$', x['property'])]
        grow = False
        for u in unw:
            l = re.sub(r'\.unwind\.(\d+)$', r'.\1', u)
            cur = uset.get(l, part.unwind)
            if u.endswith('.recursion'):
                continue
            if cur < part.maxunwind:
                uset[l] = min(part.maxunwind, cur * 2 + 1)
                log(part.name, 'unwind', l, uset[l])
                grow = True
        if not grow:
            break
    else:
        raise NoAnswer('%s: unwinding does not converge' % part.name)

    wit = [x for x in r.results
           if x.get('description', '').startswith('WITNESS')]
    dead = [x for x in wit if x['status'] == 'SUCCESS']
    bad = [x for x in bad if not x.get('description', '').startswith('WITNESS')]
    obl = [x for x in r.results
           if not x.get('description', '').startswith('WITNESS')
           and not SKIP.search(x['property'])]
    res['obligations'] = len(obl)
    res['discharged'] = sum(1 for x in obl if x['status'] == 'SUCCESS')
    res['functions'] = sorted({x['property'].split('.')[0] for x in r.results})
    res['unwind'] = dict({'default': part.unwind}, **uset)
    res['witnesses'] = len(wit)
    log(part.name, 'obligations', len(obl), 'bad', len(bad), 'witnesses',
        len(wit), 'dead', len(dead), 'steps', r.steps, 'vars', r.vars,
        'wall %.1f' % r.wall, 'solver %.1f' % r.solver)

    unreproduced = []
    # harness assertions first: they say what is wrong
    bad.sort(key=lambda x: (not x.get('description', '').startswith('VF:'),
                            x['property']))
    for x in bad[:6]:
        left = min(part.timeout * 2, deadline - time.time())
        if left < 5:
            raise NoAnswer('%s: out of time' % part.name)
        pick = x['property'] if x['property'] in kinds else keep[0]
        t = cbmc(part, gb, uset, [pick], trace=True, timeout=left)
        if t.status != 'done':
            unreproduced.append((x, 'no trace'))
            continue
        res['queries'] += t.queries
        res['solver_s'] += t.solver
        fail = [y for y in t.results if y.get('trace')
                and y['property'] == x['property']]
        if not fail:
            unreproduced.append((x, 'no trace'))
            continue
        vals = inputs_of(fail[0]['trace'])
        tag = '%s-%s' % (part.name, re.sub(r'\W+', '_', x['property']))
        verdict, txt = replay(b, part, vals, tag)
        log(part.name, x['property'], x.get('description'), verdict,
            txt[-300:])
        if verdict in ('fail', 'hang'):
            path = save_replay(b, part, prop, x, vals, txt, r.cmd)
            res['violations'].append({
                'assertion': x['property'],
                'description': x.get('description', ''),
                'inputs': ['%x' % v for v in vals][:200],
                'replay': path, 'outcome': txt[:600]})
            break
        unreproduced.append((x, verdict + ': ' + txt[-300:]))
    res['unreproduced'] = [(x['property'], x.get('description'), why)
                           for x, why in unreproduced]
    if not res['violations']:
        if dead:
            raise NoAnswer('%s: vacuous: witness not reachable: %s' % (
                part.name, [x['description'] for x in dead]))
        if unreproduced:
            raise NoAnswer('%s: counterexample does not reproduce: %s' % (
                part.name, res['unreproduced']))

    # Validate the encoding: run the solver's witness traces natively.
    if wit and not res['violations'] and part.wreplay and \
            (r.wall < 12 or tier == 'thorough'):
        for x in wit[:1 if tier == 'quick' else 6]:
            left = min(part.timeout, deadline - time.time() - 10)
            if left < 10:
                break
            t = cbmc(part, gb, uset, [x['property']], trace=True, timeout=left)
            if t.status != 'done':
                continue
            res['queries'] += t.queries
            res['solver_s'] += t.solver
            fail = [y for y in t.results if y.get('trace')]
            if not fail:
                continue
            vals = inputs_of(fail[0]['trace'])
            name = x['description'].split(': ', 1)[1]
            verdict, txt = replay(b, part, vals, part.name + '-wit', ('asan',))
            if verdict == 'ok' and ('VF-WITNESS ' + name) in txt:
                res['validated'] += 1
                if len(res['samples']) < 2:
                    res['samples'].append({
                        'witness': name,
                        'inputs': ' '.join('%x' % v for v in vals[:64])})
            else:
                raise NoAnswer('%s: witness %s does not replay: %s %s' % (
                    part.name, name, verdict, txt[-600:]))
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def save_replay(b, part, prop, x, vals, txt, cmd):
    d = os.path.join(VERIF, 'evidence', 'replay', prop)
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s-%s' % (part.name,
                                      re.sub(r'\W+', '_', x['property'])))
    with open(base + '.in', 'w') as f:
        f.write('\n'.join('%x' % v for v in vals) + '\n')
    with open(base + '.txt', 'w') as f:
        f.write('property  %s\nharness   %s.c %s\nassertion %s\n          %s\n'
                'location  %s\n\nreplay against the real code:\n%s\n'
                '\nre-run: python3 %s/lib/vf.py %s --replay %s\n' % (
                    prop, part.file, part.defs, x['property'],
                    x.get('description', ''),
                    json.dumps(x.get('sourceLocation', {})), txt, VERIF,
                    prop, base + '.in'))
    return base + '.txt'


# --------------------------------------------------------------------------
# Main
# --------------------------------------------------------------------------

def main():
    global LOG
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--part', action='append')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    LOG = a.v
    import checks
    parts = [p.at(a.tier) for p in checks.CHECKS[a.prop] if a.tier in p.tiers]
    if a.part:
        parts = [p for p in parts if p.name in a.part]
    t0 = time.time()
    budget = 700 if a.tier == 'quick' else 3 * 3600
    deadline = t0 + budget
    scratch = os.path.join(VERIF, '.build')
    os.makedirs(scratch, exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.prop + '-', dir=scratch)
    results, problems, skipped = [], [], []
    code = 2
    try:
        b = Builder(work)
        if a.replay:
            vals = [int(l, 16) for l in open(a.replay) if l.strip()]
            name = os.path.basename(a.replay)
            for p in parts:
                if name.startswith(p.name + '-'):
                    print(*replay(b, p, vals, 'replay'), sep='\n')
            return 0
        parts.sort(key=lambda p: -p.weight)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = {ex.submit(decide, b, p, a.prop, a.tier, deadline): p
                    for p in parts}
            for f in cf.as_completed(futs):
                p = futs[f]
                try:
                    r = f.result()
                    results.append(r)
                    log('done', p.name, r['wall_s'] if 'wall_s' in r else '')
                except NoAnswer as e:
                    (skipped if p.optional else problems).append(str(e))
                    log('no answer', e)
        viol = [v for r in results for v in r['violations']]
        evidence(a, results, problems, skipped, viol, time.time() - t0)
        for r in sorted(results, key=lambda r: r['part']):
            print('%-28s obligations=%d discharged=%d queries=%d '
                  'solver=%.1fs wall=%.1fs' % (
                      r['part'], r['obligations'], r['discharged'],
                      r['queries'], r['solver_s'], r.get('wall_s', 0)))
        for s in skipped:
            print('not explored:', s)
        import findings
        for line in findings.known(a.prop):
            print('KNOWN-FINDING: property=%s %s' % (a.prop, line))
        if viol:
            for v in viol:
                print('violated: %s (%s)' % (v['description'], v['assertion']))
                print('VIOLATION property=%s replay=%s' % (a.prop,
                                                           v['replay']))
            code = 1
        elif problems:
            for s in problems:
                print('NO ANSWER:', s)
            code = 2
        else:
            code = 0
    except NoAnswer as e:
        print('NO ANSWER:', e)
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return code


def evidence(a, results, problems, skipped, viol, wall):
    import checks
    samples = [s for r in results for s in r['samples']][:6]
    if not samples:
        samples = [{'part': r['part'], 'what': r['what']}
                   for r in results[:3]]
    if viol:
        samples = [{'violation': v['description'], 'inputs': v['inputs']}
                   for v in viol[:2]] + samples
    cov = {
        'states': sum(r['vars'] for r in results),
        'transitions': sum(r['steps'] for r in results),
        'counting': 'symbolic: states = propositional variables of the SAT '
                    'encodings, transitions = SSA steps of the unrolled '
                    'program; each stands for all concrete values within the '
                    'bounds',
        'traces_validated_against_impl': sum(r['validated'] for r in results),
        'obligations': sum(r['obligations'] for r in results),
        'discharged': sum(r['discharged'] for r in results),
        'queries': sum(r['queries'] for r in results),
        'solver_s': round(sum(r['solver_s'] for r in results), 2),
        'witnesses_reached': sum(r['witnesses'] for r in results),
        'functions_encoded': sorted({f for r in results
                                     for f in r.get('functions', [])}),
        'samples': samples,
        'parts': [{k: r.get(k) for k in (
            'part', 'what', 'bounds', 'stubs', 'unwind', 'obligations',
            'discharged', 'queries', 'solver_s', 'witnesses', 'validated',
            'wall_s')} for r in sorted(results, key=lambda r: r['part'])],
        'not_explored': skipped,
        'no_answer': problems,
    }
    ev = {
        'property': a.prop, 'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking', 'coverage': cov,
        'assumptions': sorted({s for r in results for s in r['stubs']}) + [
            'CBMC 6.11 models the C semantics of the sources (x86-64 LP64)',
            'forming an out-of-bounds pointer without dereferencing it is '
            'not judged'],
        'wall_s': round(wall, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
