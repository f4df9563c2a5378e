"""Mechanical injection of contracts into a scratch copy of the sources of /repo.

Nothing the functions execute is rewritten except what a @replace directive names (each one is reported as an
assumption in the evidence); everything else that is inserted is an attribute, an annotation, or ghost code.
"""
import os, re, shutil, glob, hashlib
import rustscan

CONTRACTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')


class Block:
    def __init__(self, kind, arg, cfile, line):
        self.kind, self.arg, self.cfile, self.line = kind, arg, cfile, line
        self.props, self.trust, self.lift = [], False, False
        self.spec, self.attrs = None, []
        self.loops, self.closures, self.replace, self.entry = {}, {}, [], ''
        self.before, self.after = [], []
        self.text = ''
        self.bodyhash = None
        self.note = ''
        self.broadcast = []
        self.desugar, self.enum, self.inline, self.atloop, self.tail, self.decl = set(), set(), [], {}, '', ''
        self.only, self.never, self.flags, self.liftclosure, self.foreach = [], [], [], [], False

    @property
    def id(self): return self.arg


def parse_contracts(paths=None):
    blocks = []
    for p in sorted(paths or glob.glob(os.path.join(CONTRACTS, '*.vc'))):
        cur = None; sec = None; fileprops = []; only = []; never = []
        def put(line):
            if cur is None: return
            if sec is None: cur.text += line + '\n'
            elif sec[0] == 'spec': cur.spec = (cur.spec or '') + line + '\n'
            elif sec[0] == 'loop': cur.loops[sec[1]] = cur.loops.get(sec[1], '') + line + '\n'
            elif sec[0] == 'closure': cur.closures[sec[1]] = cur.closures.get(sec[1], '') + line + '\n'
            elif sec[0] == 'entry': cur.entry += line + '\n'
            elif sec[0] == 'tail': cur.tail += line + '\n'
            elif sec[0] == 'decl': cur.decl += line + '\n'
            elif sec[0] == 'atloop': cur.atloop[sec[1]] += line + '\n'
            elif sec[0] in ('before', 'after'): getattr(cur, sec[0])[-1][1] += line + '\n'
        for n, line in enumerate(open(p).read().split('\n'), 1):
            if line.startswith('@#'): continue
            m = re.match(r'@(\w+)\s*(.*)$', line)
            if not m: put(line); continue
            d, a = m.group(1), m.group(2).strip()
            if d in ('fn', 'type', 'append', 'mod', 'const', 'sig', 'macro'):
                cur = Block(d, a, os.path.basename(p), n); sec = None; blocks.append(cur)
                cur.props = list(fileprops); cur.only = list(only); cur.never = list(never)
            elif d == 'fileprops': fileprops = a.split()
            elif d == 'onlyprops': only = a.split()
            elif d == 'notprops': never = a.split()
            elif d == 'flag': cur.flags.append(a)
            elif d == 'props': cur.props = a.split()
            elif d == 'lift': cur.lift = True
            elif d == 'liftclosure': cur.liftclosure.append(a)
            elif d == 'foreach': cur.foreach = True
            elif d == 'trust': cur.trust = True; cur.note = a
            elif d == 'attr': cur.attrs.append(a)
            elif d == 'spec': sec = ('spec',)
            elif d == 'loop': sec = ('loop', int(a)); cur.loops.setdefault(int(a), '')
            elif d == 'closure': sec = ('closure', int(a)); cur.closures.setdefault(int(a), '')
            elif d == 'desugar': cur.desugar.add(int(a))
            elif d == 'enumerate': cur.enum.add(int(a))
            elif d == 'inline': cur.inline.append(a)
            elif d == 'atloop': sec = ('atloop', int(a)); cur.atloop.setdefault(int(a), '')
            elif d == 'tail': sec = ('tail',)
            elif d == 'decl': sec = ('decl',)
            elif d == 'entry': sec = ('entry',)
            elif d == 'broadcast': cur.broadcast += a.split()
            elif d in ('before', 'after'): getattr(cur, d).append([a, '']); sec = (d,)
            elif d == 'rewrite':
                x, y = a.split(' ==> ', 1); cur.replace.append((x.strip(), y.strip(), 'opt'))
            elif d == 'replace':
                x, y = a.split(' ==> ', 1); cur.replace.append((x.strip(), y.strip()))
            elif d == 'end': cur = None; sec = None
            else: raise SystemExit(f'{p}:{n}: unknown directive @{d}')
    return blocks


class Lost(Exception): pass


class Injector:
    def __init__(self, repo, dest, prop, demote=(), drop=(), features=()):
        self.features = features
        self.repo, self.dest, self.prop = repo, dest, prop
        self.demote, self.drop = set(demote), set(drop)
        self.lost, self.used, self.trusted, self.rewrites = [], [], [], []
        self.poison = None  # vacuity runs only
        self.alts = {}  # contract -> closure -> which of its alternative annotations

    def wanted(self, b):
        if self.prop in b.never: return False
        if b.only and self.prop is not None and self.prop not in b.only: return False
        return b.kind != 'fn' or not b.props or '*' in b.props or self.prop is None or self.prop in b.props

    def run(self):
        src = os.path.join(self.dest, 'src')
        if os.path.exists(self.dest): shutil.rmtree(self.dest)
        shutil.copytree(os.path.join(self.repo, 'src'), src)
        shutil.copy(os.path.join(self.repo, 'README.md'), self.dest) if os.path.exists(os.path.join(self.repo, 'README.md')) else None
        allb = parse_contracts()
        for b in allb:
            for a in ('spec', 'text', 'entry', 'tail', 'decl'):
                if getattr(b, a, None): setattr(b, a, self.onfeature(getattr(b, a)))
            b.loops = {n: self.onfeature(t) for n, t in b.loops.items()}
        self.absent = self.gated()
        self.for_each(allb)
        self.lift_closures(allb)
        self.expand(allb)
        scans = {}
        for root, _, fs in os.walk(src):
            for f in fs:
                if f.endswith('.rs'):
                    p = os.path.relpath(os.path.join(root, f), self.dest)
                    try: scans[p] = rustscan.Scan(p, open(os.path.join(self.dest, p)).read())
                    except Exception as e: self.lost.append((p, f'cannot scan: {e}'))
        edits = {p: [] for p in scans}
        appends = {}
        for b in allb:
            if b.kind == 'fn':
                f, key = b.arg.split(' ', 1)
                cand = [x for s in scans.values() for x in s.fns if x.key == key and self.active(x)]
                pick = [x for x in cand if x.file == f] or (cand if len(cand) == 1 else [])
                b.fn = pick[0] if len(pick) == 1 else None
        blocks = self.select(allb)
        mods = []
        self.flags = [f for b in blocks for f in b.flags]
        self.bcast = [n if n.startswith('::') else f'crate::vspec::{b.arg}::{n}' for b in blocks if b.kind == 'mod' for n in b.broadcast]
        traitimpls, inhimpls, static = {}, {}, set()
        for b in blocks:
            if b.kind == 'mod':
                mods.append(b)
            elif b.kind == 'type':
                f, name = b.arg.split()
                cand = [i for s in scans.values() for i in s.items if i.kind in ('type', 'trait') and i.key == name]
                pick = [i for i in cand if i.file == f] or (cand if len(cand) == 1 else [])
                if len(pick) != 1: self.lost.append((b.arg, 'type not found')); continue
                edits[pick[0].file].append((pick[0].attr, (b.text.strip() or '#[verus_verify]') + ' '))
                for x, y, *_ in b.replace:  # of the head of the item only (its visibility)
                    z = scans[pick[0].file].src; k = z.find(x, pick[0].attr, z.find('{', pick[0].attr))
                    if k >= 0: edits[pick[0].file].append((k, k + len(x), y)); self.rewrites.append((b.arg, x, y, 1))
            elif b.kind == 'const':
                f, key = b.arg.split(' ', 1)
                cand = [i for s in scans.values() for i in s.items if i.kind == 'const' and i.key == key]
                pick = [i for i in cand if i.file == f] or (cand if len(cand) == 1 else [])
                if len(pick) != 1: self.lost.append((b.arg, 'const not found')); continue
                edits[pick[0].file].append((pick[0].attr, '#[verus_spec(' + b.spec.strip() + ')] ' if b.spec else '#[verus_verify] '))
                if pick[0].impl_attr >= 0: static.add((pick[0].file, pick[0].impl_attr)); inhimpls.setdefault((pick[0].file, pick[0].impl_attr), set())
            elif b.kind == 'sig':
                f, key = b.arg.split(' ', 1)
                pick = [i for p, s in scans.items() for i in s.items if p == f and i.kind == 'sig' and i.key == key]
                if len(pick) != 1: self.lost.append((b.arg, 'method of the trait not found')); continue
                edits[f].append((pick[0].attr, '#[verus_spec(' + b.spec.strip() + ')] '))
            elif b.kind == 'macro':
                f, name = b.arg.split()
                if any(b.arg in c.inline for c in allb): continue  # annotates expansions only
                it = [i for i in scans[f].items if i.kind == 'macro' and i.key == name] if f in scans else []
                if len(it) != 1: self.lost.append((b.arg, 'macro not found')); continue
                ts = [t for t in scans[f].ts if it[0].attr <= t.a < it[0].end]
                for x, y in b.replace:
                    toks = rustscan.lex(x); hits = 0
                    for k in range(len(ts) - len(toks) + 1):
                        if all(ts[k + j].s == toks[j].s for j in range(len(toks))):
                            edits[f].append((ts[k].a, ts[k + len(toks) - 1].b, y)); hits += 1
                    if not hits: self.lost.append((b.arg, f'no `{x}` in the macro'))
                    else: self.rewrites.append((b.arg, x, y, hits))
            elif b.kind == 'append':
                appends.setdefault(b.arg, []).append(b.text)
            elif b.kind == 'fn':
                if b.arg in self.drop: continue
                if b.fn is None:
                    if b.arg.split(' ')[0] not in self.absent: self.lost.append((b.arg, 'function not found'))
                    continue
                fn = b.fn
                try: eds = self.fn_edits(b, fn, b.arg in self.demote, scans[fn.file].src)
                except Lost as e:
                    self.lost.append((b.arg, str(e)))
                    try: eds = self.fn_edits(b, fn, True, scans[fn.file].src)
                    except Lost: continue
                    self.demote.add(b.arg)
                edits[fn.file] += eds
                if b.lift and fn.is_trait_impl:
                    # the method is verified as an inherent one of the same type, its text moved there; the trait impl around it stays outside
                    edits[fn.file] = [(fn.attr, f'/*vxlift {fn.key}*/ ')] + edits[fn.file] + [(fn.end, '/*vxlift end*/')]
                    self.rewrites.append((b.arg, 'a method of the trait impl', 'an inherent method of the same type', 1))
                elif fn.is_trait_impl: traitimpls[(fn.file, fn.impl_attr)] = 1
                elif fn.impl_attr >= 0: static |= {(fn.file, fn.impl_attr)} if not re.search(r'\(\s*(&\s*(\'\w+\s+)?)?(mut\s+)?self\b', fn.sig) else set(); inhimpls.setdefault((fn.file, fn.impl_attr), set()).add(fn.start)
                (self.trusted if (b.trust or b.arg in self.demote) else self.used).append(b)
        for (f, a) in traitimpls:
            if a >= 0: edits[f].append((a, '#[verus_verify] '))
        for (f, a), have in inhimpls.items():
            # associated functions without a receiver need the attribute on the impl; the rest of the impl stays outside
            if (f, a) not in static: continue
            edits[f].append((a, '#[verus_verify] '))
            for fn in scans[f].fns:
                if fn.impl_attr == a and fn.start not in have: edits[f].append((fn.attr, '#[verifier::external] '))
        for p, s in scans.items():
            text = s.src
            ed = sorted(enumerate(edits[p]), key=lambda x: (x[1][0], x[0]), reverse=True)
            for _, e in ed:
                if len(e) == 2: text = text[:e[0]] + e[1] + text[e[0]:]
                else: text = text[:e[0]] + e[2] + text[e[1]:]
            for m in reversed(list(re.finditer(r'/\*vxlift (?!end)(.+?)\*/(.*?)/\*vxlift end\*/', text, re.S))):
                fn = next(x for x in s.fns if x.key == m[1])
                text = text[:m.start()] + s.src[fn.attr:fn.body] + '{ unimplemented!() }' + text[m.end():] + f'\nimpl {m[1].split(" for ")[1].rsplit("::", 1)[0]} {{ /*vxlift {m[1]}*/{m[2]} }}\n'
            if appends.get(p): text += '\nverus!{\n' + '\n'.join(appends.pop(p)) + '\n}\n'
            if p == 'src/lib.rs': text = self.lib(text)
            elif edits[p] or 'verus!{' in text:
                text = self.use(text)
            open(os.path.join(self.dest, p), 'w').write(text)
        for p in appends: self.lost.append((p, 'file not found for appended spec functions'))
        os.makedirs(os.path.join(src, 'vspec'), exist_ok=True)
        with open(os.path.join(src, 'vspec', 'mod.rs'), 'w') as o:
            o.write('#![allow(missing_docs, unused, dead_code)]\n')
            for b in mods:
                o.write(f'pub mod {b.arg};\n')
                open(os.path.join(src, 'vspec', b.arg + '.rs'), 'w').write(b.text)
            for b in mods: o.write(f'pub use {b.arg}::*;\n')

    def for_each(self, allb):
        """@foreach: a statement `E.for_each(|P| B);` becomes `for P in E { B; }`"""
        for b in allb:
            if b.kind != 'fn' or not b.foreach or not self.wanted(b) or b.arg in self.drop: continue
            f, key = b.arg.split(' ', 1)
            p = os.path.join(self.dest, f)
            while os.path.exists(p):
                src = open(p).read()
                fns = [x for x in rustscan.Scan(f, src).fns if x.key == key and self.active(x)]
                if len(fns) != 1: break
                ts = fns[0].toks
                k = next((k for k in range(1, len(ts) - 4) if [t.s for t in ts[k:k + 4]] == ['.', 'for_each', '(', '|']), None)
                if k is None: break
                z = rustscan.match(ts, k + 2)
                if ts[z + 1].s != ';': break
                i, d = k - 1, 0
                while not (d == 0 and ts[i].s in (';', '{', '}')):
                    d += {')': 1, ']': 1, '(': -1, '[': -1}.get(ts[i].s, 0); i -= 1
                if ts[i + 1].s in ('let', 'return', '#') or d: break
                j = k + 4
                while ts[j].s != '|': j += 1
                new = f'for {src[ts[k + 3].b:ts[j].a].strip()} in {src[ts[i + 1].a:ts[k].a].rstrip()} {{ {src[ts[j].b:ts[z].a].strip()}; }}'
                n = src.count('\n', ts[i + 1].a, ts[z + 1].b)
                src = src[:ts[i + 1].a] + new + '\n' * max(0, n - new.count('\n')) + src[ts[z + 1].b:]
                open(p, 'w').write(src)
                self.rewrites.append((b.arg, 'E.for_each(|P| B);', 'for P in E { B; }', 1))

    def lift_closures(self, allb):
        """@liftclosure NAME TYPE: `let NAME = |P| { B };` becomes a function of the same body; the variables it captures, which are the
        `let mut V: T` before it, become parameters `V: &mut T`, V in the body `(*V)`, and NAME(A) becomes vx_NAME(A, &mut V, ..)"""
        for b in allb:
            if b.kind != 'fn' or not b.liftclosure or not self.wanted(b) or b.arg in self.drop: continue
            f, key = b.arg.split(' ', 1)
            p = os.path.join(self.dest, f)
            if not os.path.exists(p): continue
            for a in b.liftclosure:
                name, ret = a.split(' ', 1)
                src = open(p).read()
                fns = [x for x in rustscan.Scan(f, src).fns if x.key == key and self.active(x)]
                if len(fns) != 1: continue
                ts = fns[0].toks
                try: i = next(k for k in range(1, len(ts) - 2) if ts[k].s == name and ts[k - 1].s in ('let', 'mut') and ts[k + 1].s == '=' and ts[k + 2].s == '|')
                except StopIteration: self.lost.append((b.arg, f'no closure {name}')); self.demote.add(b.arg); continue
                st = i - 1 if ts[i - 1].s == 'let' else i - 2
                j = i + 3
                while ts[j].s != '|': j += 1
                if ts[j + 1].s != '{': self.lost.append((b.arg, f'closure {name} has no block')); self.demote.add(b.arg); continue
                z = rustscan.match(ts, j + 1)
                body = ts[j + 1:z + 1]
                caps, k = [], 0
                while k < st:
                    if ts[k].s == 'let' and ts[k + 1].s == 'mut' and ts[k + 3].s == ':':
                        off = re.search(r'#\[cfg\(feature = "([^"]*)"\)\]\s*$', src[:ts[k].a])
                        e = k + 4
                        while ts[e].s != '=': e += 1
                        if any(t.s == ts[k + 2].s for t in body) and not (off and off[1] not in self.features): caps.append((ts[k + 2].s, src[ts[k + 4].a:ts[e].a].strip()))
                        k = e
                    k += 1
                names = {c[0] for c in caps}
                def ed(a, z, own):
                    out, pos = '', ts[a].a
                    for q in range(a, z + 1):
                        t = ts[q]
                        if t.s in names and ts[q - 1].s not in ('.', '::') and ts[q + 1].s != ':':
                            out += src[pos:t.a] + f'(*{t.s})'; pos = t.b
                    return out + src[pos:ts[z].b]
                text = f'fn vx_{name}({src[ts[i + 3].a:ts[j].a].strip()}, ' + ', '.join(f'{n}: &mut {t}' for n, t in caps) + f') -> {ret} ' + ed(j + 1, z, True)
                eds = [(ts[st].a, ts[z + 1].b, '\n' * src.count('\n', ts[st].a, ts[z + 1].b))]
                for q in range(z + 2, len(ts) - 1):
                    if ts[q].s == name and ts[q + 1].s == '(' and ts[q - 1].s not in ('.', '::'):
                        c = rustscan.match(ts, q + 1)
                        eds += [(ts[q].a, ts[q].b, f'vx_{name}'), (ts[c].a, ts[c].a, ', ' + ', '.join(f'&mut {n}' for n, _ in caps))]
                for x, y, t in sorted(eds, reverse=True): src = src[:x] + t + src[y:]
                open(p, 'w').write(src.rstrip('\n') + '\n' + text + '\n')
                self.rewrites.append((b.arg, f'closure {name}', f'a function vx_{name} with the captured variables as parameters', 1))

    def expand(self, allb):
        """@inline FILE MACRO: the function's invocations of the macro are replaced by what they expand to, with the contract's annotations of the macro in it"""
        want = [b for b in allb if b.kind == 'fn' and b.inline and self.wanted(b) and b.arg not in self.drop]
        byfile = {}
        for b in want: byfile.setdefault(b.arg.split(' ', 1)[0], []).append(b)
        for f, bs in byfile.items():
            p = os.path.join(self.dest, f)
            if not os.path.exists(p): continue
            for b in bs:
                src = open(p).read(); sc = rustscan.Scan(f, src)
                fns = [x for x in sc.fns if x.key == b.arg.split(' ', 1)[1] and self.active(x)]
                if len(fns) != 1: continue
                eds = []
                try:
                    for a in b.inline:
                        mf, name = a.split()
                        ms = open(os.path.join(self.dest, mf)).read(); it = [i for i in rustscan.Scan(mf, ms).items if i.kind == 'macro' and i.key == name]
                        if len(it) != 1: raise Lost(f'macro {name} not found')
                        ann = [x for c in allb if c.kind == 'macro' and c.arg == a and self.wanted(c) for x in c.replace]
                        mac = rustscan.Macro(ms[it[0].attr:it[0].end], ann)
                        n = 0
                        ts = fns[0].toks; k = 0
                        while k + 2 < len(ts):
                            if ts[k].s == name and ts[k + 1].s == '!' and ts[k + 2].s in '({[':
                                z = rustscan.match(ts, k + 2)
                                x = mac.expand([t.s for t in ts[k + 3:z]])
                                if x is None: raise Lost(f'no arm of {name} matches')
                                e = ts[z].b
                                if z + 1 < len(ts) and ts[z + 1].s == ';': e = ts[z + 1].b
                                eds.append((ts[k].a, e, '{ ' + x + ' }' + '\n' * src.count('\n', ts[k].a, e))); n += 1; k = z
                            k += 1
                        self.rewrites.append((b.arg, f'{name}! {{..}}', 'its expansion', n))
                except Lost as e:
                    self.lost.append((b.arg, str(e))); self.demote.add(b.arg); continue
                for a, z, x in sorted(eds, reverse=True): src = src[:a] + x + src[z:]
                open(p, 'w').write(src)

    def select(self, allb):
        """the blocks of this property and, transitively, the contracts of what their functions call"""
        sel = [b for b in allb if self.wanted(b)]
        rest = [b for b in allb if b.kind == 'fn' and not self.wanted(b) and not (b.only and self.prop not in b.only) and self.prop not in b.never]
        byname = {}
        for b in rest:
            if b.fn is not None: byname.setdefault(b.fn.name, []).append(b)
        work = [b for b in sel if b.kind == 'fn' and b.fn is not None]
        while work:
            b = work.pop()
            ts = b.fn.toks
            for i, t in enumerate(ts[:-1]):
                if t.k != 'id' or t.s not in byname: continue
                prev, nxt = ts[i - 1].s, ts[i + 1].s
                for c in list(byname.get(t.s, [])):
                    ctx = c.fn.ctx
                    if {b.fn.file[:7], c.fn.file[:7]} == {'src/v0/', 'src/v2/'}: continue  # neither version calls the other
                    if prev == '.' and nxt in ('(', '::'): ok = ctx != ''
                    elif prev == '::':
                        q = ts[i - 2].s
                        own = lambda x: x.split(' for ')[-1].split('::')[0].split('<')[0]
                        ok = (q in ctx and q != 'Default') or (q == 'Self' and own(ctx) == own(b.fn.ctx)) or q == '>' or (ctx == '' and q not in ('Self',))
                    elif nxt == '(': ok = ctx == ''
                    else: ok = False
                    if ok:
                        byname[t.s].remove(c); sel.append(c); work.append(c)
            # `?` converts errors through From
            if any(t.s == '?' for t in ts):
                for n in ('from',):
                    for c in list(byname.get(n, [])):
                        byname[n].remove(c); sel.append(c); work.append(c)
        return sel

    def onfeature(self, t):
        """a line that starts with `#?F ` is there with feature F only, one with `#!F ` without it only"""
        if '#?' not in t and '#!' not in t: return t
        out = []
        for l in t.split('\n'):
            m = re.match(r'#([?!])([\w-]+) (.*)$', l)
            if not m: out.append(l)
            elif (m[2] in self.features) == (m[1] == '?'): out.append(m[3])
        return '\n'.join(out)

    def active(self, fn):
        for c in fn.cfgs:
            if c in ('cfg(test)', 'cfg(not(feature="std"))'): return False
        return fn.file not in self.absent

    def gated(self):
        """files of modules that are only there with a feature that is off in this run"""
        out = set()
        if not self.features: return out
        for root, _, fs in os.walk(os.path.join(self.dest, 'src')):
            for f in fs:
                if not f.endswith('.rs'): continue
                for m in re.finditer(r'#\[cfg\(feature\s*=\s*"([\w-]+)"\)\]\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;', open(os.path.join(root, f)).read()):
                    if m[1] in self.features: continue
                    d = root if f in ('mod.rs', 'lib.rs') else os.path.join(root, f[:-3])
                    for c in (os.path.join(d, m[2] + '.rs'), os.path.join(d, m[2], 'mod.rs')):
                        if os.path.exists(c): out.add(os.path.relpath(c, self.dest))
        return out

    def use(self, text):
        # after inner attributes and inner docs of the file
        m = re.match(r'(?:\s|//[^\n]*\n|#!\[[^\]]*\])*', text)
        return text[:m.end()] + '#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::vspec::*; #[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec as _; verus!{ broadcast use {' + ', '.join(self.bcast) + '}; } ' + text[m.end():]

    def lib(self, text):
        feats = '#![allow(duplicate_features)]#![feature(proc_macro_hygiene, allocator_api, sized_hierarchy)]'
        text = feats + text  # first, on the first line, so line numbers are kept
        m = re.search(r'^(pub )?mod consts;|^mod |^#\[macro_use\]\s*\nmod ', text, re.M)
        i = m.start()
        return text[:i] + '#[allow(unused_imports)] use vstd::prelude::*; mod vspec; ' + text[i:]

    def fn_edits(self, b, fn, demoted, src):
        out = []
        pre = ''
        for a in b.attrs: pre += a + ' '
        trust = b.trust or demoted
        if trust: pre += '#[verifier::external_body] '
        if b.spec is not None:
            sp = b.spec.strip()
            if isinstance(self.poison, set) and b.arg in self.poison: sp = re.sub(r'\bensures\b', 'ensures false, ', sp, count=1)
            pre += '#[verus_spec(' + sp + ')] '
        else: pre += '#[verus_spec] '
        out.append((fn.attr, pre))
        m = re.search(r'\(\s*(mut\s+)self\b', src[fn.start:fn.body])
        if m:  # `mut self` is outside the verifier's subset: bind it in the body instead
            out.append((fn.start + m.start(1), fn.start + m.end(1), ''))
            out.append((fn.body + 1, ' let mut vx_self = self; '))
            for t in fn.toks:
                if t.s == 'self' and t.a > fn.body: out.append((t.a, t.b, 'vx_self'))
            self.rewrites.append((b.arg, 'mut self', 'self; let mut vx_self = self', 1))
        if trust: return out
        ls, cs = [l for l in rustscan.loops(fn) if not re.search(r'#\[verus_spec\(.*\)\]\s*$', src[:l[0]][-4000:].split('\n')[-1])], rustscan.closures(fn)
        for n, (ca, cb) in enumerate(cs, 1):
            out += self.closure_params(b, fn, src, n, ca, cb)
        if b.loops or b.closures:
            if b.loops and len(ls) != max(b.loops): raise Lost(f'{len(ls)} loops, contract has {max(b.loops)}')
            if b.closures and len(cs) != max(b.closures): raise Lost(f'{len(cs)} closures, contract has {max(b.closures)}')
        if not b.loops and ls: raise Lost(f'{len(ls)} loops, contract has none')
        if not b.closures and cs: raise Lost(f'{len(cs)} closures, contract has none')
        for n in b.desugar:
            # `for P in E { B }` is `let mut it = IntoIterator::into_iter(E); loop { let P = match it.next() { Some(x) => x, None => break }; B }`
            if ls[n - 1][2] != 'for': continue
            ts = fn.toks; i = next(k for k, t in enumerate(ts) if t.a >= ls[n - 1][0] and t.s == 'for')
            j = i
            while ts[j].s != 'in':
                if ts[j].s in ('(', '['): j = rustscan.match(ts, j)
                j += 1
            pat = src[ts[i + 1].a:ts[j - 1].b]
            out.append((ts[i].a, ts[j].b, f'let mut vx_it{n} = IntoIterator::into_iter('))
            out.append((ls[n - 1][1], f'); #[verus_spec({b.loops[n].strip()})] loop '))
            out.append((ls[n - 1][1] + 1, f' let {pat} = match vx_it{n}.next() {{ Some(vx_x) => vx_x, None => break }}; '))
            self.rewrites.append((b.arg, f'loop {n}: for', 'its desugaring into loop and next', 1))
        for n in b.enum:
            # `for (I, P) in V.iter().enumerate() { B }` over a vector is `for I in 0..V.len() { let P = &V[I]; B }`
            ts = fn.toks; i = next(k for k, t in enumerate(ts) if t.a >= ls[n - 1][0] and t.s == 'for')
            e = next(k for k in range(i, len(ts)) if ts[k].a >= ls[n - 1][1])
            c = i + 3
            tail = [t.s for t in ts[e - 8:e]]
            if ts[i + 1].s != '(' or ts[i + 2].k != 'id' or ts[c].s != ',' or tail != ['.', 'iter', '(', ')', '.', 'enumerate', '(', ')']: raise Lost(f'loop {n} does not enumerate')
            z = rustscan.match(ts, i + 1)
            ex, pat = src[ts[z + 2].a:ts[e - 8].a].strip(), src[ts[c].b:ts[z].a].strip()
            if not re.fullmatch(r'[\w.]+', ex): raise Lost(f'loop {n} enumerates {ex}')
            I = ts[i + 2].s
            out.append((ts[i + 1].a, ls[n - 1][1], f'{I} in 0..{ex}.len() '))
            out.append((ls[n - 1][1] + 1, f' let {pat} = &{ex}[{I}]; '))
            self.rewrites.append((b.arg, f'loop {n}: {ex}.iter().enumerate()', 'the loop over its indices', 1))
        for n, t in b.atloop.items():
            a = ls[n - 1][0]; k = next(k for k, x in enumerate(fn.toks) if x.a == a)
            while k and fn.toks[k - 1].s == ']':
                d = 0
                while True:
                    k -= 1
                    if fn.toks[k].s == ']': d += 1
                    elif fn.toks[k].s == '[': d -= 1
                    if d == 0: break
                k -= 1
            out.append((fn.toks[k].a, ' proof_decl!{ ' + t.strip() + ' } '))
        for n, t in b.loops.items():
            if n in b.desugar and ls[n - 1][2] == 'for': continue
            if t.strip(): out.append((ls[n - 1][0], '#[verus_spec(' + t.strip() + ')] '))
        if b.tail.strip(): out.append((rustscan.tail(fn), ' proof!{ ' + b.tail.strip() + ' } '))
        for n, t in b.closures.items():
            t = self.closure_alts(b, n)[self.alts.get(b.arg, {}).get(n, 0)]
            if t.strip():
                t = re.sub(r'^(\w+): (.+?) =>', lambda m: f'{m[1]}: ({m[2]}) =>' if not m[2].startswith('(') else m[0], t.strip(), flags=re.S)
                out.append((cs[n - 1][0], f'/*vxc {n}*/#[verus_spec(' + t + ')] '))
        if self.poison == 'entry': out.append((fn.body + 1, ' proof!{ assert(false); } '))
        if b.decl.strip(): out.append((fn.body + 1, ' proof_decl!{ ' + b.decl.strip() + ' } '))
        if self.poison != 'entry' and b.entry.strip(): out.append((fn.body + 1, ' proof!{ ' + b.entry.strip() + ' } '))
        for x, y, *opt in b.replace:
            toks = rustscan.lex(x)
            ts = fn.toks; k = 0; hits = 0
            while k + len(toks) <= len(ts):
                if all(ts[k + j].s == toks[j].s for j in range(len(toks))):
                    out.append((ts[k].a, ts[k + len(toks) - 1].b, y)); hits += 1; k += len(toks)
                else: k += 1
            if not hits and opt: continue
            if not hits: raise Lost(f'no `{x}` in the body')
            self.rewrites.append((b.arg, x, y, hits))
        ts = fn.toks
        for k in range(len(ts) - 4):
            # `.map_err(Path::Variant)`: the verifier does not take a constructor as a function value
            if ts[k].s == '.' and ts[k + 1].s in ('map', 'map_err', 'and_then') and ts[k + 2].s == '(' and ts[k + 3].k == 'id':
                j = k + 3
                while ts[j + 1].s == '::': j += 2
                if ts[j + 1].s != ')' or not ts[j].s[0].isupper(): continue
                a, z = ts[k + 3].a, ts[j].b
                if any(len(e) == 3 and e[0] < z and a < e[1] for e in out): continue
                out.append((a, z, f'|vx_x| {src[a:z]}(vx_x)')); self.rewrites.append((b.arg, src[a:z], f'|vx_x| {src[a:z]}(vx_x)', 1))
        for which in ('before', 'after'):
            for x, t in getattr(b, which):
                toks = rustscan.lex(x); ts = fn.toks; pos = []
                for k in range(len(ts) - len(toks) + 1):
                    if all(ts[k + j].s == toks[j].s for j in range(len(toks))): pos.append(k)
                if len(pos) != 1: raise Lost(f'anchor `{x}` found {len(pos)} times')
                off = ts[pos[0]].a if which == 'before' else ts[pos[0] + len(toks) - 1].b
                out.append((off, ' proof!{ ' + t.strip() + ' } '))
        return out


    def closure_alts(self, b, n):
        """what a closure may be said to return: what the contract says, its negation, what it says of the other closures. Any of them is as
        good as the others if the function's own contract is proved with it"""
        t = b.closures[n].strip(); out = [t]
        m = re.match(r'^(\w+): bool => ensures \1 == (.*)$', t, re.S)
        if m: out.append(f'{m[1]}: bool => ensures {m[1]} == !({m[2]})')
        head = t.split('=>')[0]
        return out + [x.strip() for k, x in b.closures.items() if k != n and x.strip() != t and x.split('=>')[0] == head and x.strip()]

    def closure_params(self, b, fn, src, n, ca, cb):
        """the verifier takes only plain variables as closure parameters: name `_`, and bind other patterns in the body"""
        out, ts = [], [t for t in fn.toks if ca <= t.a and t.b <= cb]
        ts = [t for t in ts if t.s != 'move']
        if len(ts) < 3: return out
        ps, cur, d = [], [], 0
        for t in ts[1:-1]:
            if t.s in ('(', '[', '{', '<'): d += 1
            elif t.s in (')', ']', '}', '>'): d -= 1
            if t.s == ',' and d == 0: ps.append(cur); cur = []
            else: cur.append(t)
        if cur: ps.append(cur)
        lets = ''
        for k, p in enumerate(ps):
            d = 0; e = len(p)
            for x, t in enumerate(p):
                if t.s in ('(', '[', '{', '<'): d += 1
                elif t.s in (')', ']', '}', '>'): d -= 1
                elif t.s == ':' and d == 0: e = x; break
            pat = p[:e]
            txt = src[pat[0].a:pat[-1].b]
            if re.fullmatch(r'(mut\s+)?[a-z]\w*', txt) or re.fullmatch(r'_\w+', txt): continue
            nm = f'vx_p{n}_{k}'
            out.append((pat[0].a, pat[-1].b, nm))
            lhs, rhs = (txt[1:].lstrip(), '*' + nm) if re.match(r'&\s*\(', txt) else (txt, nm)
            if txt != '_': lets += f' let {lhs} = {rhs};'
            self.rewrites.append((b.arg, f'closure parameter {txt}', f'{nm}' + (f' with let {lhs} = {rhs}' if txt != '_' else ''), 1))
        if lets:
            body = [t for t in fn.toks if t.a >= cb]
            k = 0
            if body[0].s == '->':
                while body[k].s != '{': k += 1
            if body[k].s == '{': out.append((body[k].b, lets))
            else:
                j = k
                while body[j].s not in (')', ']', '}', ',', ';'):
                    if body[j].s in ('(', '[', '{'): j = rustscan.match(body, j)
                    j += 1
                out.append((body[k].a, ' {' + lets + ' ')); out.append((body[j - 1].b, ' }'))
        return out


def fn_at(dest, file, line):
    """key `file fnkey` of the function of the injected sources that covers this line (1-based)"""
    p = os.path.join(dest, file)
    try: src = open(p).read()
    except OSError: return None
    off = sum(len(l) + 1 for l in src.split('\n')[:line - 1])
    end = off + len(src.split('\n')[line - 1])
    best = None
    for fn in rustscan.Scan(file, src).fns:
        if fn.start <= end and off < fn.end:
            if best is None or fn.start > best.start: best = fn
    if best:
        m = re.search(r'/\*vxlift ([^*]+)\*/\s*$', src[:best.start])
        return f'{file} {m[1] if m else best.key}'
    return None
