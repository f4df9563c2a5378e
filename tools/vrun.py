"""Run Verus on the injected copy of the crate and classify every diagnostic."""
import glob, json, os, re, subprocess, time
import inject

TOOLCHAIN = '+1.98.1'
OBLIGATION = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
              'possible arithmetic', 'possible division by zero', 'possible bit shift', 'unable to prove',
              'decreases not satisfied', 'cannot show', 'may fail to meet', 'could not prove', 'unreached',
              'loop invariant', 'split precondition', 'split assertion', 'split postcondition', 'failed this postcondition')
FEATURES = ['default', 'std', 'miniscript', 'base64']


def find_rlib(target, name):
    c = glob.glob(f'{target}/debug/deps/lib{name}-*.rlib')
    return max(c, key=os.path.getmtime) if c else None


def verus(dest, target, features, extra=(), timeout=600):
    deps = f'{target}/debug/deps'
    cmd = ['verus', '--crate-type', 'lib', '--edition', '2021', '--crate-name', 'psbt_v2', 'src/lib.rs', '-A', 'warnings',
           '-L', f'dependency={deps}', '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '4']
    for f in features: cmd += ['--cfg', f'feature="{f}"']
    for n in ('bitcoin', 'miniscript'):
        r = find_rlib(target, n)
        if r: cmd += ['--extern', f'{n}={r}']
    cmd += list(extra)
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=dest, capture_output=True, text=True, timeout=timeout)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = '', 'timeout', 124
    diags = []
    for line in err.split('\n'):
        line = line.strip()
        if line.startswith('{'):
            try: d = json.loads(line)
            except ValueError: continue
            if d.get('level') == 'error' : diags.append(d)
    js = None
    i = out.find('{')
    if i >= 0:
        try: js = json.loads(out[i:])
        except ValueError: pass
    return dict(cmd=cmd, out=out, err=err, rc=rc, diags=diags, json=js, wall=time.time() - t)


def at_closure(dest, s):
    try: t = open(os.path.join(dest, s['file_name']), 'rb').read()[:s['byte_start']].decode(errors='replace')
    except OSError: return None
    m = re.findall(r'/\*vxc (\d+)\*/', t)
    return int(m[-1]) if m else None


def classify(dest, diags):
    obl, rl, other = [], [], []
    for d in diags:
        msg = d['message']
        if msg.startswith('aborting due to'): continue
        spans = d.get('spans', [])
        keys = []
        ordered = sorted(spans, key=lambda s: not s['is_primary'])
        for s in ordered:
            e = s
            while e:  # a span inside a macro counts for the function that invokes it
                if e['file_name'].startswith('src/') and not e['file_name'].startswith('src/vspec/'):
                    k = inject.fn_at(dest, e['file_name'], e['line_start'])
                    if k: keys.append((k, e['file_name'], e['line_start'])); break
                e = (e.get('expansion') or {}).get('span')
        vs = [s for s in spans if s['file_name'].startswith('src/vspec/')]
        rec = dict(msg=msg, fn=keys[0][0] if keys else None, keys=[k[0] for k in keys],
                   at=[f"{s['file_name']}:{s['line_start']}: {(s['text'][0]['text'].strip() if s['text'] else '')[:300]}" for s in spans],
                   closure=at_closure(dest, ordered[0]) if ordered and 'closure' in msg else None, in_vspec=bool(vs), rendered=d.get('rendered') or '')
        if 'rlimit' in msg.lower() or 'resource limit' in msg.lower() or 'timed out' in msg.lower(): rl.append(rec)
        elif any(msg.startswith(o) or o in msg for o in OBLIGATION): obl.append(rec)
        else: other.append(rec)
    return obl, rl, other


def run(repo, dest, target, prop, features=FEATURES, extra=(), maxiter=12, verbose=False):
    demote, drop, alts, first = {}, {}, {}, None
    t0 = time.time()
    history = []
    for it in range(maxiter):
        inj = inject.Injector(repo, dest, prop, demote, drop, features)
        inj.alts = alts
        inj.run()
        for k, why in inj.lost:
            demote.setdefault(k, why) if False else None
        r = verus(dest, target, features, list(extra) + inj.flags)
        obl, rl, other = classify(dest, r['diags'])
        if verbose: print(f"[{it}] obl={len(obl)} rlimit={len(rl)} other={len(other)} wall={r['wall']:.1f}")
        history.append(dict(obl=len(obl), other=len(other), wall=r['wall']))
        ids = {b.arg: b for b in inj.used + inj.trusted}
        byres = {}
        for b in ids.values():
            byres[b.arg.split(' ', 1)[1]] = b.arg
        if other and first is not None: return dict(first, wall=time.time() - t0)
        if other:
            changed = False; n_shown = 0
            for o in other:
                for k in [x for x in o['keys']]:
                    kk = k if k in ids else byres.get(k.split(' ', 1)[1])
                    if kk is None: continue
                    if kk not in demote and not ids[kk].trust:
                        demote[kk] = o['msg']; changed = True; break
                    elif kk not in drop:
                        drop[kk] = o['msg']; changed = True; break
                if verbose and n_shown < 6: n_shown += 1; print('   ', o['msg'][:200], o['fn'], [x[:200] for x in o['at'][:2]])
            if changed: continue
            return dict(status='undecided', inj=inj, r=r, obl=[], rl=rl, other=other, demote=demote, drop=drop, wall=time.time() - t0, history=history)
        status = 'ok'
        if r['json'] is None: status = 'undecided'
        elif obl and it < maxiter - 1:
            # a closure the contract describes otherwise: another description may do
            if first is None: first = dict(status='failed', inj=inj, r=r, obl=obl, rl=rl, other=other, demote=demote, drop=drop, history=history)
            nxt = {k: dict(v) for k, v in alts.items()}
            for o in obl:
                b = ids.get(o['fn']) or ids.get(byres.get((o['fn'] or ' ').split(' ', 1)[1]))
                if o['closure'] and b and o['closure'] in b.closures:
                    i = alts.get(b.arg, {}).get(o['closure'], 0) + 1
                    if i < len(inj.closure_alts(b, o['closure'])): nxt.setdefault(b.arg, {})[o['closure']] = i
            if nxt != alts: alts = nxt; continue
        if obl: status = 'failed'
        elif r['json'] is not None and rl: status = 'undecided'
        if status == 'failed' and first is not None: return dict(first, wall=time.time() - t0)
        return dict(status=status, inj=inj, r=r, obl=obl, rl=rl, other=other, demote=demote, drop=drop, alts=alts, wall=time.time() - t0, history=history)
    return dict(status='undecided', inj=inj, r=r, obl=[], rl=rl, other=other, demote=demote, drop=drop, wall=time.time() - t0, history=history)


if __name__ == '__main__':
    import sys, argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--target', default='/tmp/exp/rt')
    ap.add_argument('--dest', default='/tmp/exp/w'); ap.add_argument('--once', action='store_true'); ap.add_argument('--features', default=','.join(FEATURES))
    ap.add_argument('-n', type=int, default=5); ap.add_argument('extra', nargs='*')
    a, ex = ap.parse_known_args()
    p = None if a.prop in (None, 'ALL') else a.prop
    res = run(a.repo, a.dest, a.target, p, a.features.split(','), ex, maxiter=1 if a.once else 12, verbose=True)
    print('STATUS', res['status'], 'lost', res['inj'].lost)
    print('demoted', json.dumps(res['demote'], indent=1)[:3000]); print('dropped', json.dumps(res['drop'], indent=1)[:2000])
    for o in (res['obl'] + res['rl'] + (res['other'] if a.once or res['status'] == 'undecided' else []))[:a.n]: print(o['rendered'][:1300])
    if res['r']['json']: print(json.dumps(res['r']['json'].get('verification-results')))
    elif not res['r']['diags']: print(res['r']['err'][-3000:])
    print('trusted', [b.arg for b in res['inj'].trusted], 'wall', round(res['wall'], 1))
