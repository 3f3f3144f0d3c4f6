#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N] [--replay FILE]
Seeded simulation search for one property; see DESIGN.md."""
import argparse, glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
import profiles as P

def toolerr(msg):
    print('TOOL-ERROR: ' + msg); sys.exit(2)

def run(cmd, timeout=300):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace')

class Sim:
    def __init__(self, bdir): self.exe = os.path.join(bdir, 'dsssim')
    def replay(self, path, save=None):
        r = run([self.exe, 'replay', path] + (['save=' + save] if save else []))
        for l in reversed(r.stdout.splitlines()):
            if l.startswith('{'):
                try: return json.loads(l)
                except ValueError: break
        return {'cls': 'SIMCRASH' if r.returncode not in (0, 1) else '', 'msg': 'the process died (%d) %s' % (r.returncode, r.stderr[-300:]), 'hash': 'died%d' % r.returncode, 'op': -1}

def case_split(text):
    head, ops, sched = [], [], []
    for l in text.splitlines():
        (ops if l.startswith('op ') else sched if l.startswith('sched ') else head).append(l)
    return head, ops, sched

def minimise(sim, text, cls, tmp, budget, msg=''):
    verb = msg.split(' ')[2:3] if msg.startswith('op ') else []
    t0 = time.time(); n = [0]
    head, ops, sched = case_split(text)
    f = os.path.join(tmp, 'min.case')
    def bad(o, s):
        if time.time() - t0 > budget: return False
        n[0] += 1
        open(f, 'w').write('\n'.join(head + o + s) + '\n')
        r = sim.replay(f)
        return r['cls'] == cls and (not verb or r['msg'].split(' ')[2:3] == verb)
    def ddmin(items, test):
        k = 2
        while len(items) >= 1:
            sz = max(1, len(items) // k); hit = False
            i = len(items)
            while i > 0:
                cand = items[:max(0, i - sz)] + items[i:]
                if len(cand) < len(items) and test(cand):
                    items = cand; hit = True
                i -= sz
            if not hit:
                if sz == 1: break
                k = min(len(items), k * 2)
            elif sz > 1: k = max(2, k)
            if time.time() - t0 > budget: break
        return items
    if sched and bad(ops, []): sched = []
    ops = ddmin(ops, lambda o: bad(o, sched))
    if sched: sched = ddmin(sched, lambda s: bad(ops, s))
    ops = ddmin(ops, lambda o: bad(o, sched))
    for i in range(len(ops)):                       # drop faults that are not needed, shrink sizes
        m = re.sub(r' fault=\S+ after=\S+ arg=\S+', '', ops[i])
        if m != ops[i] and bad(ops[:i] + [m] + ops[i+1:], sched): ops[i] = m
        for key in ('n', 'n2', 'n3', 'flags'):
            if key == 'flags' and re.search(r' kind=[89] ', ops[i]): continue   # a series keeps one set of parts
            mm = re.search(r' %s=(\d+)' % key, ops[i])
            if not mm: continue
            v = int(mm.group(1))
            for w in ((0, 1, v // 8, v // 2) if key in ('n3', 'flags') else (1, max(1, v // 8), max(1, v // 2))):
                if 0 <= w < v:
                    c = ops[i][:mm.start()] + ' %s=%d' % (key, w) + ops[i][mm.end():]
                    if bad(ops[:i] + [c] + ops[i+1:], sched): ops[i] = c; break
    return '\n'.join(head + ops + sched) + '\n', n[0], len(ops)

def load_known():
    out = []
    p = os.path.join(VERIF, 'known', 'findings.json')
    if os.path.exists(p): out = json.load(open(p))
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--replay'); ap.add_argument('--secs', type=float); ap.add_argument('--count', type=int); ap.add_argument('--workers', type=int, default=0)
    a = ap.parse_args(); t0 = time.time()
    if a.prop not in P.PROFILES: toolerr('unknown property ' + a.prop)
    prof = P.PROFILES[a.prop]
    try: bdir = B.build()
    except Exception as e: toolerr('build failed: %s' % e)
    sim = Sim(bdir)
    if a.replay:
        r = sim.replay(a.replay); print(json.dumps(r))
        if r['cls']: print('VIOLATION property=%s replay=%s' % (a.prop, os.path.abspath(a.replay))); return 1
        return 0
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    W = a.workers or max(2, min(8, os.cpu_count() or 4))
    count = a.count or prof[tier][0]; secs = a.secs or prof[tier][1]
    tmp = tempfile.mkdtemp(prefix='dsssim_%s_' % a.prop)
    try: return search(a, prof, sim, tier, W, count, secs, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def search(a, prof, sim, tier, W, count, secs, tmp, t0):
    base = (a.seed % 1000000) * 10000000 + 1
    known = [k for k in load_known() if k['property'] == a.prop]
    ps = []
    subs = prof.get('profiles', [a.prop])
    jobs = []
    for w in range(W):
        for s, sub in enumerate(subs):
            per = max(1, count // (W * len(subs)))
            jobs.append((w, sub, per, secs / len(subs)))
    # one process per worker runs its profiles in turn
    outs = []
    for w in range(W):
        cmds = []
        for (jw, sub, per, sc) in jobs:
            if jw != w: continue
            of = os.path.join(tmp, 'out_%d_%s' % (w, sub)); sf = os.path.join(tmp, 'sh_%d_%s' % (w, sub)); outs.append((sub, of, sf))
            cmds.append("%s run prop=%s start=%d stride=%d count=%d secs=%.1f out=%s fails=12 det=%d shapes=%s cur=%s.cur > %s 2>%s.err" % (sim.exe, sub, base + w, W, per, sc, tmp, prof.get('det', 64), sf, of, of, of))
        ps.append(subprocess.Popen(['/bin/sh', '-c', ' ; '.join(cmds)]))
    for p in ps:
        try: p.wait(timeout=secs * 3 + 240)
        except subprocess.TimeoutExpired: p.kill(); toolerr('worker did not finish')
    tot = {}; fails = []; nondet = []; shapes = set()
    def addn(d, e):
        for k, v in e.items():
            if isinstance(v, dict): addn(d.setdefault(k, {}), v)
            elif isinstance(v, (int, float)): d[k] = d.get(k, 0) + v
    for sub, of, sf in outs:
        got = False
        for l in open(of, errors='replace'):
            try: j = json.loads(l)
            except ValueError: continue
            if j['type'] == 'stats': addn(tot, j); got = True
            elif j['type'] == 'fail': j['sub'] = sub; fails.append(j)
            elif j['type'] == 'nondet': nondet.append(j)
        if not got and os.path.exists(of + '.cur'):   # the simulator process itself died: rerun that seed alone
            seed = int(open(of + '.cur').read().split()[0]); cf = os.path.join(tmp, 'dead_%s_%d.case' % (sub, seed))
            open(cf, 'w').write(run([sim.exe, 'gen', 'prop=' + sub, 'seed=%d' % seed]).stdout); r = sim.replay(cf)
            if r['cls']: fails.append({'seed': seed, 'cls': r['cls'], 'msg': r['msg'], 'file': cf, 'hash': r['hash'], 'sub': sub, 'op': -1}); got = True
        if not got: toolerr('worker produced no result: ' + open(of + '.err', errors='replace').read()[-500:])
        if os.path.exists(sf):
            d = open(sf, 'rb').read(); shapes.update((sub, x) for x in struct.unpack('<%dQ' % (len(d) // 8), d))
    viol = []; knownhit = {}
    fails.sort(key=lambda f: (f['sub'], f['seed']))
    for f in fails:
        k = next((k for k in known if k.get('match') and re.search(k['match'], f['cls'] + ': ' + f['msg'])), None)
        if k: knownhit.setdefault(k['id'], (k, f))
        else: viol.append(f)
    # listed findings are demonstrated by their own replay file
    for k in known:
        if k.get('case'):
            r = sim.replay(os.path.join(VERIF, 'known', k['case']))
            if r['cls'] and re.search(k['expect'], r['cls'] + ': ' + r['msg']): knownhit.setdefault(k['id'], (k, r))
            elif r['cls']: viol.append({'cls': r['cls'], 'msg': r['msg'], 'seed': 0, 'file': os.path.join(VERIF, 'known', k['case']), 'hash': r['hash'], 'op': r['op'], 'sub': a.prop})
    # committed regression histories (fixed defects, earlier planted bugs): must hold
    reg = sorted(glob.glob(os.path.join(VERIF, 'regress', a.prop + '_*.case')))
    for f in reg:
        r = sim.replay(f)
        if r['cls']: viol.append({'cls': r['cls'], 'msg': r['msg'], 'seed': 0, 'file': f, 'hash': r['hash'], 'op': r['op'], 'sub': a.prop})
    rc = 0; replays = []
    if viol:
        rd = os.path.join(VERIF, 'replays'); os.makedirs(rd, exist_ok=True); seen = set(); unrepro = []
        for f in viol:
            if f['cls'] in seen or len(seen) >= 3: continue
            r1 = sim.replay(f['file']); r2 = sim.replay(f['file'])
            if not r1['cls'] or r1['hash'] != r2['hash'] or (r1['cls'] == 'SIMCRASH' and r1['hash'] == 'died2'): unrepro.append((f, r1)); continue
            f['cls'] = r1['cls']
            if f['cls'] in seen: continue
            seen.add(f['cls'])
            text, nrep, nops = minimise(sim, open(f['file']).read(), f['cls'], tmp, 60 if tier == 'quick' else 300, r1['msg'])
            dst = os.path.join(rd, '%s_%s_%d.case' % (a.prop, f['cls'], f['seed'])); mf = os.path.join(tmp, 'm.case'); open(mf, 'w').write(text)
            r = sim.replay(mf, save=dst)
            if r['cls'] != f['cls'] or sim.replay(dst)['cls'] != f['cls']: shutil.copyfile(f['file'], dst); r = r1
            if r['cls'] == 'SIMCRASH': shutil.copyfile(mf, dst)
            note = '# property %s class %s seed %d\n# %s\n# replay: python3 check.py %s --replay <this file>\n' % (a.prop, r['cls'], f['seed'], r['msg'].replace('\n', ' ')[:600], a.prop)
            body = open(dst).read(); open(dst, 'w').write(note + body)
            print('violation class %s seed %d: %s' % (r['cls'], f['seed'], r['msg'][:500])); print('minimised to %d operations in %d replays' % (nops, nrep))
            print('VIOLATION property=%s replay=%s' % (a.prop, dst)); replays.append(dst); rc = 1
        if not rc and not nondet: toolerr('failure did not reproduce: seed %s %s' % (unrepro[0][0]['seed'], unrepro[0][0]['cls']))
    if nondet and not rc: toolerr('nondeterministic run, seed %s %s %s' % (nondet[0]['seed'], nondet[0].get('first'), nondet[0].get('second')))
    for kid, (k, f) in sorted(knownhit.items()):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    wall = time.time() - t0; samples = []
    for i in range(2):
        g = run([sim.exe, 'gen', 'prop=' + subs[0], 'seed=%d' % (base + i)]).stdout
        samples.append({'seed': base + i, 'case': g.splitlines()[:14]})
    sw = max(tot.get('wall', 0), 0.001) / W
    ev = {'property': a.prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(viol),
      'coverage': {'evaluations': int(tot.get('runs', 0)), 'distinct_nontrivial': len(shapes),
        'rule': 'one evaluation is one seeded simulated run (program + schedule + fault sequence); two runs are the same when the sequence of (operation, outcome class, process), the preemption points taken and the faults delivered (kind, system call) hash equally; runs without a successful operation are not generated. ' + prof.get('rule', ''),
        'samples': samples, 'runs_per_hour': int(tot.get('runs', 0) / max(sw, 0.001) * 3600), 'seeds': [base, base + int(tot.get('runs', 0)) // max(1, len(subs))], 'simulated_seconds': round(tot.get('sim_us', 0) / 1e6, 3), 'operations': int(tot.get('ops', 0)), 'operations_by_kind': tot.get('opcounts', {}),
        'faults_injected': tot.get('faults', {}), 'runs_with_faults': int(tot.get('fault_runs', 0)), 'system_calls': tot.get('sys', {}), 'context_switches': int(tot.get('switches', 0)), 'lock_waits': int(tot.get('lock_waits', 0)), 'process_restarts': int(tot.get('restarts', 0)), 'reach_probes': tot.get('probes', {}),
        'determinism_rechecks': int(tot.get('det_runs', 0)), 'regression_histories': len(reg), 'replays': replays,
        'real_code': 'all of heclib_c and hecdss.c compiled unchanged from the working tree, one image per simulated process', 'stubbed': 'libc file, lock, clock, sleep, allocation, stdio and random calls (linker --wrap); FORTRAN entry points absent from the build; zlib is the installed static library'},
      'assumptions': prof.get('assumptions', [])}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s %s: %d runs, %d distinct, %d ops, %d faults, %.1f s, %d violations' % (a.prop, tier, ev['coverage']['evaluations'], len(shapes), ev['coverage']['operations'], sum(tot.get('faults', {}).values()), wall, len(viol)))
    return rc

if __name__ == '__main__':
    sys.exit(main())
