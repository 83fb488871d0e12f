#!/usr/bin/env python3
"""Decides one property by exhaustive exploration of the real library code.

  check.py <ID>               run the check (VERIF_TIER=quick|thorough)
  check.py --replay FILE      replay a violation found before
  check.py --list             what each check explores
  check.py --setup            build smoke test
"""
import json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
MC = os.path.join(HERE, 'mc')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from specs import EXTRA, CHECKS, MODES, DRIVERS, ASSUME        # noqa: E402

TIER = 'thorough' if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = min(8, os.cpu_count() or 8)
T0 = time.time()


class CheckError(Exception):
    pass


class CompileFailure(Exception):
    def __init__(self, mode, src, log):
        Exception.__init__(self, src)
        self.mode, self.src, self.log = mode, src, log


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def compile_one(cxx, flags, src, obj):
    cmd = [cxx] + flags + ['-w', '-I', os.path.join(REPO, 'include'), '-I', MC, '-c', src, '-o', obj]
    for attempt in range(2):
        r = sh(cmd)
        if r.returncode == 0:
            return None
        if 'error:' in r.stdout and 'Killed' not in r.stdout and 'cannot allocate' not in r.stdout.lower():
            return r.stdout
    return r.stdout


def sanity(cxx, flags, tmp):
    """can this compiler, with these flags, build a program that does not use /repo's headers?"""
    src = os.path.join(tmp, 'sanity.cpp')
    with open(src, 'w') as f:
        f.write('#include <boost/context/fiber.hpp>\n#include <functional>\n#include <string>\nint main(){}\n')
    return sh([cxx] + flags + ['-w', '-c', src, '-o', os.path.join(tmp, 'sanity.o')]).returncode == 0


class Builder:
    def __init__(self, root):
        self.root = root
        self.done = {}

    def build_all(self, pairs):
        """pairs: (driver, mode). All translation units of all of them are compiled in parallel."""
        jobs, links = {}, []
        for drv, mode in pairs:
            if (drv, mode) in self.done:
                continue
            cxx, flags = MODES[mode]
            d = os.path.join(self.root, mode)
            os.makedirs(d, exist_ok=True)
            objs = []
            for s in DRIVERS[drv]:
                s, _, how = s.partition('@')
                obj = os.path.join(d, s.replace('.cpp', how + '.o'))
                objs.append(obj)
                jobs[obj] = (cxx, flags + EXTRA.get(how, []), os.path.join(MC, s), obj, mode)
            exe = os.path.join(d, drv)
            self.done[(drv, mode)] = exe
            links.append((cxx, flags, objs, exe))
        fails = []
        heavy = ('handles', 'scenarios', 'machine')
        order = sorted(jobs.values(), key=lambda j: 0 if os.path.basename(j[2]).startswith(heavy) else 1)
        with ThreadPoolExecutor(NPROC) as ex:
            for j, log in zip(order, ex.map(lambda j: compile_one(j[0], j[1], j[2], j[3]), order)):
                if log is not None:
                    fails.append((j, log))
        if fails:
            j, log = fails[0]
            if not sanity(j[0], j[1], self.root):
                raise CheckError('compiler %s %s does not work here:\n%s' % (j[0], ' '.join(j[1]), log[-2000:]))
            raise CompileFailure(j[4], os.path.basename(j[2]), log)
        for cxx, flags, objs, exe in links:
            r = sh([cxx] + flags + objs + ['-o', exe, '-lboost_context', '-lpthread', '-ldl'])
            if r.returncode:
                raise CheckError('link failed: ' + r.stdout[-3000:])

    def exe(self, drv, mode):
        return self.done[(drv, mode)]


def known_for(pid):
    res = []
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p):
        m = re.match(r'known: property=(\S+) (.*?) -- (.*)$', l.strip())
        if m and m.group(1) == pid:
            res.append((m.group(2), m.group(3)))
    return res


def write_evidence(pid, spec, cov, wall, violations, extra_assume=()):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    e = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
         'assumptions': list(ASSUME) + list(spec.get('assume', [])) + list(extra_assume), 'wall_s': round(wall, 2), 'violations': violations}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
        f.write('\n')


def violation(pid, info, text):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.replay.txt')
    with open(path, 'w') as f:
        f.write(json.dumps(info) + '\n')
        f.write(text + '\n')
    print(text[-6000:])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()


def trace_of(exe, scen, choices, scope, limit=120):
    try:
        r = sh([exe, '--scope', scope, '--replay', scen, choices], timeout=200)
        return r.stdout
    except subprocess.TimeoutExpired:
        return '(trace not available: replay does not end)'


def run_driver(exe, run, mode, tag, tmp, known, deadline, digests):
    out = os.path.join(tmp, tag + '.json')
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, '--tier', TIER, '--scope', ','.join(run['scope']), '--workers', str(run.get('workers', NPROC)), '--deadline', str(max(5, int(deadline))), '--out', out]
    globs = run.get('globs')
    if globs:
        cmd += ['--run', ','.join(globs)]
    if run.get('relevant'):
        cmd += ['--relevant', run['relevant']]
    if digests:
        cmd += ['--digests']
    for k, _ in known:
        cmd += ['--known', k]
    try:
        r = sh(cmd, timeout=max(5, int(deadline)) + 200)
    except subprocess.TimeoutExpired:
        raise CheckError('driver did not end: ' + ' '.join(cmd))
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError('driver failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout[-3000:]))
    try:
        res = json.load(open(out))
    except ValueError:
        raise CheckError('driver left no result: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    if not res:
        raise CheckError('no scenario matches: ' + ' '.join(cmd))
    return res


def diff_traces(pid, b, run, scen, m0, m1, tmp):
    """the first execution whose observations differ between two build modes"""
    tr = {}
    for m in (m0, m1):
        base = os.path.join(tmp, 'dump.' + m)
        for f in glob.glob(base + '.*'):
            os.remove(f)
        sh([b.exe(run['driver'], m), '--tier', TIER, '--scope', 'HARNESS', '--run', scen, '--workers', str(NPROC), '--dump', base, '--out', base + '-o.json'], timeout=600)
        d = {}
        for f in glob.glob(base + '.*'):
            for l in open(f):
                p = l.split(' ')
                if len(p) == 2:
                    d[p[0].strip()] = p[1].strip()
            os.remove(f)
        tr[m] = d
    keys = sorted(set(tr[m0]) | set(tr[m1]), key=lambda k: (len(k), k))
    for k in keys:
        if tr[m0].get(k) != tr[m1].get(k):
            return k.rstrip(',')
    return None


def check(pid):
    spec = CHECKS[pid]
    tmp = os.path.join(HERE, 'build', pid)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    known = known_for(pid)
    total = float(os.environ.get('VERIF_DEADLINE', spec.get('deadline', {}).get(TIER, 600 if TIER == 'quick' else 5400)))
    b = Builder(tmp)
    runs = [r for r in spec['runs'] if TIER in r.get('tiers', ('quick', 'thorough'))]
    pairs = []
    for r in runs:
        r['_modes'] = r.get('modes_' + os.environ.get('VERIF_MODES', TIER), r.get('modes', ['g17']))
        for m in r['_modes']:
            if (r['driver'], m) not in pairs:
                pairs.append((r['driver'], m))
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'exhaustive': True, 'oracle_comparisons': 0,
           'distinct_observation_traces': 0, 'determinism_reruns': 0, 'executions_about_this_property': 0, 'abandoned_out_of_scope': 0, 'mismatches_of_other_properties': 0, 'build_modes': {}, 'runs': []}
    if not spec.get('count_relevant'):
        del cov['executions_about_this_property']
    hit = {}
    try:
        b.build_all(pairs)
    except CompileFailure as c:
        info = {'property': pid, 'kind': 'compile', 'mode': c.mode, 'src': c.src}
        write_evidence(pid, spec, cov, time.time() - T0, 1)
        violation(pid, info, 'a program that uses the documented interface only (%s, %s) does not compile with the headers in %s:\n%s' % (c.src, ' '.join([MODES[c.mode][0]] + MODES[c.mode][1]), REPO, '\n'.join(l for l in c.log.splitlines() if 'error' in l)[:4000]))
        return 1
    cov['build_s'] = round(time.time() - T0, 1)
    nrun = sum(len(r['_modes']) for r in runs)
    k = 0
    for r in runs:
        ref = None
        for mode in r['_modes']:
            left = total - (time.time() - T0)
            share = left / max(1, nrun - k) * 2.5
            k += 1
            exe = b.exe(r['driver'], mode)
            res = run_driver(exe, r, mode, '%d' % k, tmp, known, min(left, share), r.get('digest', False))
            for s in res:
                cov['states'] += s['states']
                cov['transitions'] += s['transitions']
                cov['traces_validated_against_impl'] += s['executions']
                cov['oracle_comparisons'] += s['checks']
                cov['distinct_observation_traces'] += s['distinct_traces']
                cov['determinism_reruns'] += s['determinism_reruns']
                if 'executions_about_this_property' in cov:
                    cov['executions_about_this_property'] += s['relevant']
                cov['abandoned_out_of_scope'] += s['abandoned']
                cov['mismatches_of_other_properties'] += sum(s['ignored'].values())
                if s['capped']:
                    cov['exhaustive'] = False
                for sg in s['known_sigs']:
                    hit[sg] = hit.get(sg, 0) + s['known']
                cov['runs'].append({'scenario': s['scenario'], 'mode': mode, 'bounds': s['bounds'], 'executions': s['executions'], 'states': s['states'], 'transitions': s['transitions'],
                                    'complete': not s['capped'], 'longest_choice_sequence': s['max_choices'], 's': s['secs']})
                v = s.get('violation')
                if v:
                    info = {'property': pid, 'kind': 'execution', 'driver': r['driver'], 'mode': mode, 'scenario': s['scenario'], 'choices': v['choices'], 'scope': ','.join(r['scope']), 'single': not v['reproduced']}
                    text = 'property %s: %s\nbuild: %s\nscenario: %s (%s)\nchoices: %s\n' % (pid, v['msg'], ' '.join([MODES[mode][0]] + MODES[mode][1]), s['scenario'], s['bounds'], v['choices'])
                    if v['reproduced']:
                        text += 'history:\n' + trace_of(exe, s['scenario'], v['choices'], ','.join(r['scope']))
                    elif v['msg'].startswith('HARNESS: replay diverged') or v['msg'].startswith('HARNESS: two runs'):
                        # the same sequence of operations behaved differently when repeated: state survives in the library
                        text += '(the library behaves differently when the same history is repeated in one process)\n'
                    else:
                        text += '(shows only after other histories ran in the same process: state survives in the library)\n'
                    if v['msg'].startswith('HARNESS:') and 'replay diverged' not in v['msg'] and 'two runs' not in v['msg'] and 'replayed choices' not in v['msg']:
                        raise CheckError(text)
                    write_evidence(pid, spec, cov, time.time() - T0, 1)
                    violation(pid, info, text)
                    return 1
            if s['sample'] and len(cov['samples']) < 3:
                t = trace_of(exe, s['scenario'], s['sample'], ','.join(r['scope']))
                cov['samples'].append({'scenario': s['scenario'], 'mode': mode, 'choices': s['sample'][:400], 'trace': t.splitlines()[:60]})
            cov['build_modes'][mode] = ' '.join([MODES[mode][0]] + MODES[mode][1])
            if r.get('digest'):
                dg = {s['scenario']: s for s in res}
                if ref is None:
                    ref, refmode = dg, mode
                else:
                    for name, s in dg.items():
                        o = ref.get(name)
                        if o is None or o['capped'] or s['capped']:
                            continue
                        if (o['digest'], o['executions']) != (s['digest'], s['executions']):
                            ch = diff_traces(pid, b, r, name, refmode, mode, tmp)
                            text = 'property %s: the same program behaves differently in two build modes\n  A: %s\n  B: %s\nscenario: %s\n' % (
                                pid, ' '.join([MODES[refmode][0]] + MODES[refmode][1]), ' '.join([MODES[mode][0]] + MODES[mode][1]), name)
                            if ch is not None:
                                text += 'first differing history (choices %s)\n--- A\n%s\n--- B\n%s' % (ch, trace_of(b.exe(r['driver'], refmode), name, ch, 'ALL'), trace_of(exe, name, ch, 'ALL'))
                            info = {'property': pid, 'kind': 'modes', 'driver': r['driver'], 'mode': mode, 'mode0': refmode, 'scenario': name, 'choices': ch or '', 'scope': 'ALL'}
                            write_evidence(pid, spec, cov, time.time() - T0, 1)
                            violation(pid, info, text)
                            return 1
    if known:
        cov['known_findings'] = [{'signature': sg, 'what': w, 'executions': hit.get(sg, 0)} for sg, w in known]
    for sg, w in known:
        if sg in hit:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, sg, w))
    write_evidence(pid, spec, cov, time.time() - T0, 0)
    print('property %s holds on everything explored: %d executions of the real code, %d states, %d transitions, %d oracle comparisons, %s, %.1f s' % (
        pid, cov['traces_validated_against_impl'], cov['states'], cov['transitions'], cov['oracle_comparisons'], 'complete within bounds' if cov['exhaustive'] else 'NOT complete (time cap)', time.time() - T0))
    shutil.rmtree(tmp, ignore_errors=True)
    return 0


def replay(path):
    info = json.loads(open(path).readline())
    tmp = os.path.join(HERE, 'build', 'replay')
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    b = Builder(tmp)
    if info['kind'] == 'compile':
        cxx, flags = MODES[info['mode']]
        log = compile_one(cxx, flags, os.path.join(MC, info['src']), os.path.join(tmp, 'x.o'))
        print(log or 'compiles')
        return 1 if log else 0
    modes = [info['mode']] + ([info['mode0']] if 'mode0' in info else [])
    b.build_all([(info['driver'], m) for m in modes])
    rc = 0
    for m in modes:
        cmd = [b.exe(info['driver'], m), '--scope', info['scope'], '--tier', 'thorough']
        if info.get('single'):
            cmd.append('--single')
        r = sh(cmd + ['--replay', info['scenario'], info['choices']])
        print('--- build', m)
        print(r.stdout)
        rc = rc or r.returncode
    return 1 if rc else 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] == '--list':
        for p in sorted(CHECKS):
            print(p, [(r['driver'], r.get('globs'), r.get('modes_quick', r.get('modes')), r['scope']) for r in CHECKS[p]['runs']])
        return 0
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        for t in ('g++', 'clang++'):
            if sh([t, '--version']).returncode:
                print('missing', t)
                return 2
        return 0
    try:
        return check(sys.argv[1])
    except CheckError as e:
        print('check error:', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
