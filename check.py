#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decides one property on /repo's current working tree.

1. the functions of /repo the property depends on get their contracts (contracts/*.vc) injected into a scratch copy and Verus
   has to discharge every obligation;
2. the executable contracts (replay/) run the real code on generated inputs: they supply the failing input for a refuted
   obligation and stand in, bounded, for functions Verus could not take.
Exit 0: held. Exit 1: VIOLATION line. Exit 2: no answer.
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import vrun, inject  # noqa: E402

REPO = '/repo'
BUILD = os.path.join(HERE, '.build')
TARGET = os.path.join(BUILD, 'target')
SP = {'C23'}                       # properties of the silent-payments feature
BASE = ['default', 'std', 'miniscript', 'base64']


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        dec = lambda b: b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
        return 124, dec(e.stdout), dec(e.stderr)


def srchash(root, exts=('.rs', '.toml')):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.build'))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f); h.update(os.path.relpath(p, root).encode() + b'\0'); h.update(open(p, 'rb').read() + b'\0')
    return h.hexdigest()


def build(sp):
    """the replay binary against the current /repo (and, with it, the rlibs Verus links); None if it does not compile"""
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        name = 'vreplay-sp' if sp else 'vreplay'
        h = srchash(os.path.join(REPO, 'src')) + srchash(os.path.join(HERE, 'replay'))
        h = hashlib.sha256((h + open(os.path.join(REPO, 'Cargo.toml')).read()).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, 'bin', f'{name}-{h}')
        if os.path.exists(out) and vrun.find_rlib(TARGET, 'bitcoin'): return out, ''
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
        stamp = os.path.join(BUILD, f'{name}.stamp')
        if os.path.isdir(TARGET) and (not os.path.exists(stamp) or open(stamp).read() != h):
            # file times may lie (checked out, restored or copied trees): rebuild what depends on /repo
            sh(['cargo', vrun.TOOLCHAIN, 'clean', '--offline', '-p', 'psbt-v2', '-p', 'vreplay'], 120, cwd=os.path.join(HERE, 'replay'), env=env)
        rc, o, e = sh(['cargo', vrun.TOOLCHAIN, 'build', '--offline'] + (['--features', 'silent-payments'] if sp else []), 840, cwd=os.path.join(HERE, 'replay'), env=env)
        if rc: return None, e[-4000:]
        for old in glob.glob(os.path.join(BUILD, 'bin', f'{name}-*')):
            if re.fullmatch(re.escape(name) + r'-[0-9a-f]{24}', os.path.basename(old)): os.remove(old)
        shutil.copy(os.path.join(TARGET, 'debug', 'vreplay'), out + '.tmp'); os.rename(out + '.tmp', out)
        open(stamp, 'w').write(h)
        return out, ''


def replay(binary, prop, seed, secs, minimum, scratch, deadline):
    """runs the executable contracts; returns (json or None, violation or None, note)"""
    tr = os.path.join(scratch, 'trace'); shutil.rmtree(tr, ignore_errors=True); os.makedirs(tr)
    lim = max(20, min(deadline - time.time(), secs * 3 + 150))
    rc, o, e = sh([binary, prop, '--seed', str(seed), '--secs', str(secs), '--min', str(minimum), '--trace', tr, '--threads', '6'], lim, cwd=scratch)
    try: j = json.loads(o.strip().split('\n')[-1])
    except (ValueError, IndexError): j = None
    if j and rc in (0, 1): return j, j.get('violation'), ''
    # the process died or hung: find the case that did it
    for f in sorted(glob.glob(os.path.join(tr, '*'))):
        w = open(f, errors='replace').read().split()
        if len(w) < 2: continue
        rc2, o2, e2 = sh([binary, prop, '--case', w[0], w[1]], 90, cwd=scratch)
        if rc2 not in (0, 1): return j, dict(sub=w[0], case=w[1], message=f'the process does not survive this input (exit {rc2}, 124 is a hang): {(o2 + e2)[-2000:]}'), ''
        if rc2 == 1: return j, dict(sub=w[0], case=w[1], message=o2[-8000:]), ''
    return j, None, f'replay gave no result (exit {rc}): {e[-500:]}'


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) sub=(\S+) match=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out


def breakdown(js):
    fs = []
    for m in ((js or {}).get('times-ms', {}).get('smt', {}).get('smt-run-module-times') or []):
        for f in m.get('function-breakdown', []): fs.append(f)
    return fs


def assumptions(res):
    inj = res['inj']; out = []
    for b in inj.trusted: out.append(f"body of {b.arg} not verified in this run, contract assumed: {res['demote'].get(b.arg) or b.note or dict(inj.lost).get(b.arg, 'trusted')}"[:400])
    for k, x, y, n in inj.rewrites: out.append(f'{k}: `{x}` is read as `{y}` ({n}x)')
    for d, _, fs in os.walk(os.path.join(inj.dest, 'src')):
        for f in fs:
            p = os.path.join(d, f); t = open(p).read()
            rel = os.path.relpath(p, inj.dest)
            for m in re.finditer(r'\baxiom fn (\w+)', t): out.append(f'axiom {m[1]} ({rel})')
            for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]\s*[(<]?', t): out.append(f'assumed contract of {" ".join(m[1].split())}')
            if re.search(r'\b(admit|assume)\s*\(', re.sub(r'//[^\n]*', '', t)): out.append(f'ASSUME in {rel}')
            for m in re.finditer(r'external_body\]\s*(?:pub )?fn (\w+)', t):
                if rel.startswith('src/vspec') : out.append(f'assumed contract of helper {m[1]} ({rel})')
    return sorted(set(out))


def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-verus', action='store_true')
    a = ap.parse_args()
    t0 = time.time(); prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    deadline = t0 + (840 if tier == 'quick' else 7200)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evf = os.path.join(HERE, 'evidence', f'{prop}.json')
    if os.path.exists(evf): os.remove(evf)
    sp = prop in SP
    binary, berr = build(sp)
    if binary is None: print(f'{prop}: the replay crate does not compile against /repo:\n{berr}')
    feats = BASE + (['silent-payments'] if sp else [])
    scratch = tempfile.mkdtemp(prefix=f'{prop}-', dir=BUILD)
    try:
        code = decide(prop, tier, seed, deadline, t0, binary, berr, feats, scratch, evf, a.no_verus)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, deadline, t0, binary, berr, feats, scratch, evf, no_verus):
    # ---- the verifier ----
    res = None
    if vrun.find_rlib(TARGET, 'bitcoin') and not no_verus:
        res = vrun.run(REPO, os.path.join(scratch, 'w'), TARGET, prop, feats)
    vstatus = res['status'] if res else 'undecided'
    under = [b for b in (res['inj'].used if res else [])]
    mine = [b for b in under if not b.props or prop in b.props]
    undecided = []
    if res:
        undecided = [(b.arg, res['demote'].get(b.arg) or dict(res['inj'].lost).get(b.arg, '')) for b in res['inj'].trusted if not b.trust]
        undecided += [(k, w) for k, w in res['inj'].lost if k not in dict(undecided)]
        undecided += [(k, w) for k, w in res['drop'].items() if k not in dict(undecided)]
        undecided += [(o['fn'] or '?', o['msg']) for o in res['rl']]
        if vstatus == 'undecided' and not undecided: undecided = [(o['fn'] or '?', o['msg']) for o in res['other'][:20]] or [('crate', 'Verus gave no result: ' + res['r']['err'][-300:])]
    if res and vstatus == 'failed':
        # an obligation refuted in a function that only lends its contract to this property: the property is not refuted, its proof is gone
        byarg = {b.arg: b for b in under}; byres = {b.arg.split(' ', 1)[1]: b for b in under}
        lent = lambda o: (lambda b: b is not None and b.props and prop not in b.props and '*' not in b.props)(byarg.get(o['fn']) or byres.get((o['fn'] or ' ').split(' ', 1)[1]))
        if all(lent(o) for o in res['obl']):
            vstatus = 'undecided'; undecided += [(o['fn'], 'its own contract, which this property uses, is refuted: ' + o['msg']) for o in res['obl']]
    fb = breakdown(res['r']['json'] if res else None)
    real = [f for f in fb if not f['function'].endswith('::clone')]
    failed_fns = {o['fn'] for o in (res['obl'] if res else [])}
    vac = {}
    if res and vstatus == 'ok' and (under or tier == 'thorough'):
        vac = vacuity(prop, feats, scratch, tier, deadline, res)
    # ---- the executable contracts ----
    secs = {'quick': 20, 'thorough': 420}[tier] if not os.environ.get("VX_SECS") else float(os.environ["VX_SECS"]); mn = 300
    if vstatus != 'ok' or undecided: secs = max(secs, 100)
    if vstatus == 'failed': secs = max(secs, 150)
    rj, viol, note = (None, None, 'not built')
    if binary:
        rj, viol, note = replay(binary, prop, seed, secs, mn, scratch, deadline)
        if note and not viol: print(f'{prop}: {note}')
        if tier == 'thorough' and not viol:
            for s in (seed + 1000, seed + 2000):
                j2, viol, note = replay(binary, prop, s, secs, mn, scratch, deadline)
                if j2 and rj:
                    for k in ('evaluations', 'distinct_nontrivial'): rj[k] += j2[k]
                if viol: break
    known_hit = None
    if viol:
        for (p, s, mt, what) in known():
            if p == prop and s == viol['sub'] and re.search(mt, viol['message']): known_hit = what
    # ---- evidence ----
    n_obl = len(real); n_dis = sum(1 for f in real if f.get('success'))
    proved = vstatus == 'ok' and not undecided and n_obl > 0 and not vac.get('vacuous')
    level = 'proof' if res and n_obl else 'exploration'
    cov = dict(
        obligations=n_obl, discharged=n_dis,
        checker_cmd=(' '.join(res['r']['cmd']) if res else ''),
        trusted_base=(assumptions(res) if res else []) + ['Verus 0.2026.09.13 and its Z3, vstd, rustc, the injector tools/inject.py (adds attributes, ghost code and the listed rewrites, nothing else)'],
        functions_under_contract=sorted(b.arg for b in under), functions_of_this_property=sorted(b.arg for b in mine),
        back_end='Verus / Z3', solver_ms=sum(f.get('time-micros', 0) for f in fb) / 1000.0,
        verus_wall_s=round(res['wall'], 2) if res else 0, verus_status=vstatus, all_obligations_discharged=proved,
        undecided=[f'{k}: {w}'[:300] for k, w in undecided], vacuity=vac,
        failed_obligations=[f"{o['fn']}: {o['msg']}: {'; '.join(o['at'])}"[:600] for o in (res['obl'] if res else [])],
        bounded_replay=dict(label='bounded, never counted as proved', **({k: rj[k] for k in ('evaluations', 'distinct_nontrivial', 'subs', 'seed')} if rj else dict(evaluations=0, note=note))),
        evaluations=rj['evaluations'] if rj else 0, distinct_nontrivial=rj['distinct_nontrivial'] if rj else 0,
        rule='generated by replay/src/gen.rs from the seed; a case counts when its printed input is new and the property says something about it',
        samples=[s[:400] for s in (rj or {}).get('samples', [])])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=cov['trusted_base'] + [f'undecided, decided by bounded replay only: {k}: {w}'[:300] for k, w in undecided],
              wall_s=round(time.time() - t0, 2), violations=0)
    code = 0
    if known_hit:
        print(f'KNOWN-FINDING: property={prop} {known_hit}'); viol = None
    if viol or (vstatus == 'failed'):
        code = 1; ev['violations'] = 1
        rd = os.path.join(HERE, 'evidence', 'replays'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f'{prop}.txt')
        with open(rp, 'w') as o:
            o.write(f'property {prop}\n')
            if viol:
                o.write(f"failing input found on the real code: sub-check {viol['sub']}, case {viol['case']}\nreproduce: python3 {HERE}/check.py builds {binary}; then: {binary} {prop} --case {viol['sub']} {viol['case']}\n\n{viol['message']}\n\n")
            for ob in (res['obl'] if res else []):
                o.write(f"failed obligation in {ob['fn']}: {ob['msg']}\n{ob['rendered']}\n")
            for k, w in undecided: o.write(f'undecided: {k}: {w}\n')
        for ob in (res['obl'] if res else [])[:6]: print(f"failed obligation: {ob['fn']}: {ob['msg']}: {ob['at'][0] if ob['at'] else ''}"[:400])
        if viol: print(f"failing input: {viol['sub']} {viol['case']}: {viol['message'][:600]}")
        print(f'VIOLATION property={prop} replay={rp}' + ('' if viol else ' no-failing-input-found'))
    else:
        if not binary and (vstatus != 'ok' or undecided): code = 2; print(f'{prop}: no answer')
        elif vac.get('vacuous'): code = 2; print(f"{prop}: vacuous contracts: {vac['vacuous']}")
        elif binary and rj is None: code = 2; print(f'{prop}: no answer from the replay')
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(evf, 'w'), indent=1)
    for k, w in undecided: print(f'{prop}: undecided, bounded replay stands in: {k}: {w}'[:300])
    print(f"{prop}: {'VIOLATED' if code == 1 else 'held' if code == 0 else 'no answer'}; verus {vstatus}, {n_dis}/{n_obl} obligations of {len(under)} functions under contract ({len(mine)} of this property); replay {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct; {ev['wall_s']} s")
    return code


def vacuity(prop, feats, scratch, tier, deadline, res):
    """`assert(false)` at the entry of every function has to fail; in the thorough tier `ensures false` has to fail too"""
    out = dict(mode='assert(false) at entry', checked=0, vacuous=[])
    dest = os.path.join(scratch, 'vac')
    inj = inject.Injector(REPO, dest, prop, res['demote'], res['drop'], feats); inj.alts = res.get('alts', {}); inj.poison = 'entry'; inj.run()
    want = {b.arg for b in inj.used if b.spec is not None}
    r = vrun.verus(dest, TARGET, feats, ['--multiple-errors', '3'] + inj.flags)
    obl, rl, other = vrun.classify(dest, r['diags'])
    got = {o['fn'] for o in obl}
    out['checked'] = len(want)
    out['vacuous'] = sorted(k for k in want if k not in got and k.split(' ', 1)[1] not in {g.split(' ', 1)[1] for g in got if g})
    if other or r['json'] is None: out['note'] = 'vacuity run not usable: ' + '; '.join(o['msg'] for o in other[:2]); out['vacuous'] = []
    if tier != 'thorough': return out
    bad = []; n = 0
    rest = [b for b in inj.used if b.spec is not None and 'ensures' in b.spec]
    while rest and time.time() < deadline - 300:
        layer, names = [], set()
        for b in list(rest):
            toks = {t.s for t in b.fn.toks}
            if b.fn.name in names or toks & names or any(b.fn.name in {t.s for t in c.fn.toks} for c in layer): continue
            layer.append(b); names.add(b.fn.name); rest.remove(b)
        inj = inject.Injector(REPO, dest, prop, res['demote'], res['drop'], feats); inj.alts = res.get('alts', {}); inj.poison = {b.arg for b in layer}; inj.run()
        r = vrun.verus(dest, TARGET, feats, inj.flags); obl, rl, other = vrun.classify(dest, r['diags'])
        got = {o['fn'].split(' ', 1)[1] for o in obl if o['fn']} | {k.split(' ', 1)[1] for o in obl for k in o['keys']}
        n += len(layer)
        if not other: bad += [b.arg for b in layer if b.arg.split(' ', 1)[1] not in got]
    out['exit_checked'] = n; out['vacuous'] += sorted(bad)
    return out


if __name__ == '__main__':
    main()
