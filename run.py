#!/usr/bin/env python3
"""Builds a harness from /repo's current working tree and decides one property.
usage: run.py ID quick|thorough            (exit 0 held, 1 violated)
       run.py ID replay FILE               (re-executes a recorded failing case)
Seed: VERIF_SEED (default 1)."""
import json, os, sys, subprocess, shutil, tempfile, time, hashlib, concurrent.futures
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from checks import GROUPS, PROPS, QUICK_SECS, THOROUGH_SECS

SAN = ['-fsanitize=address', '-fsanitize=bounds,null,return,unreachable,integer-divide-by-zero,signed-integer-overflow,vla-bound', '-fno-sanitize-recover=all']
COV = ['-fsanitize-coverage=trace-pc-guard,trace-cmp']
MEM = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup']
NET = ['socket', 'bind', 'connect', 'listen', 'accept', 'accept4', 'setsockopt', 'getsockopt', 'getaddrinfo', 'freeaddrinfo', 'gai_strerror',
       'fcntl', 'fcntl64', 'ioctl', 'select', 'pselect', 'poll', 'ppoll', 'send', 'sendto', 'sendmsg', 'recv', 'recvfrom', 'recvmsg', 'read', 'write', 'close',
       'shutdown', 'getpeername', 'getsockname', 'timerfd_create', 'timerfd_settime', 'timerfd_gettime',
       '__fdelt_chk', '__recv_chk', '__recvfrom_chk', '__read_chk', '__poll_chk']
TIME = ['time', 'clock_gettime', 'gettimeofday', 'sleep', 'usleep', 'nanosleep']
RAND = ['rand', 'srand', 'random', 'srandom', 'rand_r']
SYMS = {'MEM': MEM, 'NET': NET, 'TIME': TIME, 'RAND': RAND}

def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        sys.stderr.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd), r.stdout[-6000:]))
        raise SystemExit(3)

def build(group, work, san=None, cov=True, gname=None):
    g = GROUPS[group]
    san = SAN if san is None else san
    cov = g.get('cov', cov)
    if g.get('san') is not None:
        san = g['san']
    inc = ['-I' + os.path.join(REPO, d) for d in ('lib/include', 'proxy/common/include', 'proxy/http_coap/include') + tuple(g.get('inc', ()))]
    inc += ['-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'harness')]
    rmap = os.path.join(work, 'redef.txt')
    with open(rmap, 'w') as f:
        for s in g.get('syms', ()):
            for n in SYMS.get(s, [s]):
                f.write('%s vf_%s\n' % (n, n))
    rmap2 = os.path.join(work, 'redef2.txt')
    with open(rmap2, 'w') as f:
        for a, b in g.get('rename', ()):
            f.write('%s %s\n' % (a, b))
    base = ['-g', '-O1', '-fno-omit-frame-pointer', '-fno-optimize-sibling-calls', '-pthread', '-Wno-everything', '-U_FORTIFY_SOURCE', '-D_GNU_SOURCE']
    jobs, objs = [], []
    for i, src in enumerate(g['repo']):
        flags = list(g.get('cflags', ()))
        pre = None
        if isinstance(src, tuple):
            src, extra, pre = src
            flags += extra
        o = os.path.join(work, 'r%d_%s.o' % (i, os.path.basename(src)[:-2]))
        objs.append(o)
        jobs.append((os.path.join(REPO, src), o, ['clang', '-std=gnu11'] + base + san + (COV if cov else []) + flags + inc, True, pre))
    for src in g['harness'] + ['../engine/pbt.cc']:
        o = os.path.join(work, 'h_%s.o' % os.path.basename(src)[:-3])
        objs.append(o)
        jobs.append((os.path.join(V, 'harness', src), o, ['clang++', '-std=gnu++17'] + base + san + list(g.get('cflags', ())) + list(g.get('hflags', ())) + inc, False, None))
    def one(j):
        src, o, cmd, redef, pre = j
        sh(cmd + ['-c', src, '-o', o])
        if redef:
            sh(['objcopy', '--redefine-syms=' + rmap, o])
            if g.get('rename') and os.path.basename(src) not in g.get('rename_skip', ()):
                sh(['objcopy', '--redefine-syms=' + rmap2, o])
            if pre:
                sh(['objcopy', '--redefine-syms=' + os.path.join(V, 'harness', pre), o])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    exe = os.path.join(work, 'harness')
    sh(['clang++', '-pthread'] + san + objs + ['-o', exe] + list(g.get('libs', ())))
    return exe

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:print_legend=0'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
ENV['TSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:report_signal_unsafe=0'

def known():
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                out.append(json.loads(l))
    return out

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    if tier not in ('quick', 'thorough', 'replay'):
        raise SystemExit(__doc__)
    p = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(V, '.work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(V, '.work'))
    rc = 0
    try:
        runs = []
        groups = p['group'] if isinstance(p['group'], list) else [p['group']]
        if tier == 'replay':
            ok = 0
            for gn in groups:
                d = os.path.join(work, gn); os.makedirs(d)
                exe = build(gn, d)
                r = subprocess.run([exe, pid, '--replay', os.path.abspath(sys.argv[3]), '--verbose', '--out', d], env=ENV, cwd=d)
                ok = max(ok, r.returncode)
            return ok
        secs = float(os.environ.get('VERIF_SECS', 0)) or (p.get('secs', QUICK_SECS) if tier == 'quick' else p.get('tsecs', THOROUGH_SECS))
        jobs = int(os.environ.get('VERIF_JOBS', 0)) or max(2, min(8, os.cpu_count() or 8))
        tot = dict(evaluations=0, distinct_nontrivial=0, nontrivial=0, edges=0, edges_total=0, unreproduced=0)
        rules, samples, labels, cases, unm = [], [], {}, {}, []
        fails = []
        for gn in groups:
            d = os.path.join(work, gn); os.makedirs(d)
            exe = build(gn, d)
            share = p['shares'][groups.index(gn)] if 'shares' in p else GROUPS[gn].get('share', 1.0 / len(groups))
            od = os.path.join(d, 'out'); os.makedirs(od)
            cmd = [exe, pid, '--secs', str(secs * share), '--seed', str(seed), '--jobs', str(min(jobs, GROUPS[gn].get('jobs', jobs))), '--out', od]
            if 'case_timeout' in p:
                cmd += ['--case-timeout', str(p['case_timeout'])]
            r = subprocess.run(cmd, env=ENV, cwd=od)
            st = json.load(open(os.path.join(od, 'stats.json')))
            for k in tot:
                tot[k] += st[k]
            rules.append(st['rule']); samples += st['samples']; unm += st['unreproduced_msgs']
            for k, v in st['labels'].items():
                labels[k] = labels.get(k, 0) + v
            cases.update(st['cases'])
            if 'failure' in st:
                txt = open(os.path.join(od, 'replay.txt')).read()
                h = hashlib.sha256(txt.encode()).hexdigest()[:10]
                os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
                rp = os.path.join(V, 'replays', '%s-%s.txt' % (pid, h))
                open(rp, 'w').write(txt)
                fails.append((gn, st['failure'], rp))
                break
        viol = []
        for gn, f, rp in fails:
            viol.append({'replay': rp, 'kind': f['kind'], 'message': f['msg'], 'sub': f['sub']})
            print('# %s %s: %s' % (f['sub'], f['kind'], f['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
        for k in known():
            if k['property'] == pid:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        ev = dict(property=pid, tier=tier, seed=seed, level=p['level'],
                  coverage=dict(evaluations=tot['evaluations'], distinct_nontrivial=tot['distinct_nontrivial'],
                                rule=('; '.join(rules))[:1500] or '-', samples=[s[:1200] for s in samples[:8]],
                                nontrivial=tot['nontrivial'], edges_covered=tot['edges'], edges_instrumented=tot['edges_total'],
                                classes=labels, cases_per_subcheck=cases, unreproduced=tot['unreproduced'], unreproduced_messages=unm[:5], failures=viol),
                  assumptions=p.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s %s: %d cases, %d distinct non-trivial, %d/%d edges, %.1f s, %s' % (
            pid, tier, tot['evaluations'], tot['distinct_nontrivial'], tot['edges'], tot['edges_total'], time.time() - t0, 'VIOLATED' if rc else 'held'))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
