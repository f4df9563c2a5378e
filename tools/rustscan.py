"""A small Rust lexer and item scanner, enough to locate functions, impls, types, loops and closures by
name and ordinal in the sources of /repo without depending on their layout."""
import re
from dataclasses import dataclass, field

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>\b(?:b|c|br|cr|r)?r?(?P<h>\#*)")
 |(?P<char>b?'(?:\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.)|[^\\'])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<p>=>|->|::|\|\||&&|[^\s])
''', re.X)


@dataclass
class T:
    k: str
    s: str
    a: int
    b: int


def lex(src):
    out, i, n = [], 0, len(src)
    while i < n:
        # raw / ordinary strings
        m = re.compile(r'(?:b|c)?r(#*)"').match(src, i)
        if m and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == '_')):
            end = src.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
            out.append(T('str', src[i:end], i, end)); i = end; continue
        m = re.compile(r'[bc]?"').match(src, i)
        if m and (src[i] == '"' or i == 0 or not (src[i - 1].isalnum() or src[i - 1] == '_')):
            j = m.end()
            while src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            out.append(T('str', src[i:j + 1], i, j + 1)); i = j + 1; continue
        m = TOK.match(src, i)
        k = m.lastgroup
        if m.group('ws') is not None or m.group('lc') is not None:
            i = m.end(); continue
        if m.group('bc') is not None:
            d, j = 1, i + 2
            while d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        for k in ('char', 'life', 'id', 'num', 'p'):
            if m.group(k) is not None:
                out.append(T(k, m.group(k), m.start(), m.end())); break
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}


def match(ts, i):
    """index of the token closing the bracket at ts[i]"""
    d = 0
    while i < len(ts):
        s = ts[i].s if ts[i].k == 'p' else ''
        if s in ('(', '[', '{'): d += 1
        elif s in (')', ']', '}'):
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError('unbalanced')


def angle(ts, i):
    """index just past the <...> group starting at ts[i]"""
    d = 0
    while True:
        s = ts[i].s
        if ts[i].k == 'p':
            if s == '<': d += 1
            elif s == '>':
                d -= 1
                if d == 0: return i + 1
            elif s in ('(', '[', '{'): i = match(ts, i)
        i += 1


@dataclass
class Fn:
    file: str
    key: str
    name: str
    attr: int          # offset where an attribute can be inserted (before visibility / fn qualifiers)
    start: int         # offset of the first attribute/doc-less token of the item
    body: int          # offset of the { of the body (or -1)
    end: int           # offset just past the body
    toks: list = field(default_factory=list)   # body tokens, braces included
    sig: str = ''
    ctx: str = ''
    impl_attr: int = -1
    is_trait_impl: bool = False
    cfgs: list = field(default_factory=list)


@dataclass
class Item:
    file: str
    kind: str
    key: str
    attr: int
    end: int
    start: int = 0


def norm(ts):
    s = ''
    prev = None
    for t in ts:
        if prev and prev.k == 'id' and t.k == 'id': s += ' '
        s += t.s
        prev = t
    return s


QUAL = {'pub', 'const', 'unsafe', 'async', 'extern', 'default', 'crate'}


class Scan:
    def __init__(self, file, src):
        self.file, self.src = file, src
        self.ts = lex(src)
        self.fns, self.items = [], []
        self.full = {}
        self.items_in(0, len(self.ts), '', -1, False, [])
        n = {}
        for f in self.fns: n[f.key] = n.get(f.key, 0) + 1
        for f in self.fns:  # impls for types of the same last name keep their paths
            if n[f.key] > 1 and f.impl_attr in self.full: f.key = self.full[f.impl_attr] + '::' + f.name

    def items_in(self, i, hi, ctx, impl_attr, tr, cfgs):
        ts = self.ts
        while i < hi:
            start = i
            mycfg = list(cfgs)
            # attributes
            while ts[i].s == '#' and i + 1 < hi:
                j = i + 1
                if ts[j].s == '!': j += 1
                e = match(ts, j)
                txt = norm(ts[j + 1:e])
                if txt.startswith('cfg('): mycfg.append(txt)
                i = e + 1
                if i >= hi: return
            a = i
            # visibility and qualifiers
            while i < hi and (ts[i].s in QUAL or ts[i].k == 'str'):
                if ts[i].s == 'const' and not (ts[i + 1].s in ('fn', 'unsafe', 'extern', 'async')): break
                i += 1
                if ts[i - 1].s == 'pub' and ts[i].s == '(': i = match(ts, i) + 1
            if i >= hi: return
            s = ts[i].s
            if s == 'fn':
                name = ts[i + 1].s
                j = i + 2
                while ts[j].s not in ('{', ';'):
                    if ts[j].s in ('(', '['): j = match(ts, j)
                    j += 1
                if ts[j].s == '{':
                    e = match(ts, j)
                    self.fns.append(Fn(self.file, ctx + name, name, ts[a].a, ts[start].a, ts[j].a, ts[e].b, ts[j:e + 1],
                                       self.src[ts[a].a:ts[j].a], ctx, impl_attr, tr, mycfg))
                    i = e + 1
                else:
                    self.items.append(Item(self.file, 'sig', ctx + name, ts[a].a, ts[j].b, ts[start].a))
                    i = j + 1
            elif s == 'impl' or (s == 'trait'):
                j = i + 1
                h0 = j
                if s == 'impl' and ts[j].s == '<': j = angle(ts, j); h0 = j
                while ts[j].s != '{' and ts[j].s != 'where' and ts[j].s != ':':
                    if ts[j].s in ('(', '['): j = match(ts, j)
                    if ts[j].s == '<': j = angle(ts, j); continue
                    j += 1
                header = norm(ts[h0:j])
                while ts[j].s != '{': j += 1
                e = match(ts, j)
                # `Trait for Type`, path prefixes dropped
                d = 0; parts = []
                for c in re.split(r'(<|>)', header):  # `fmt::Display for io::X<a::B>` -> `Display for X<a::B>`
                    if c == '<': d += 1
                    elif c == '>': d -= 1
                    elif d == 0: c = re.sub(r'\bcrate::|\b[a-z_0-9]+::', '', c)
                    parts.append(c)
                hs = ''.join(parts)
                hs = re.sub(r'>for ', '> for ', hs)
                self.items.append(Item(self.file, s, hs, ts[a].a, ts[e].b, ts[start].a))
                self.full[ts[a].a] = header
                self.items_in(j + 1, e, hs + '::', ts[a].a, ' for' in hs or bool(re.search(r'\bfor\b', hs)), mycfg)
                i = e + 1
            elif s == 'mod':
                if ts[i + 2].s == '{':
                    e = match(ts, i + 2)
                    nm = ts[i + 1].s
                    if nm not in ('tests', 'test'):
                        self.items_in(i + 3, e, ctx, -1, False, mycfg)
                    i = e + 1
                else: i += 3
            elif s in ('struct', 'enum', 'union'):
                name = ts[i + 1].s
                j = i + 2
                while ts[j].s not in ('{', ';'):
                    if ts[j].s in ('(', '['): j = match(ts, j)
                    j += 1
                e = match(ts, j) if ts[j].s == '{' else j
                self.items.append(Item(self.file, 'type', name, ts[a].a, ts[e].b, ts[start].a))
                i = e + 1
            elif s == 'macro_rules':
                e = match(ts, i + 3)
                self.items.append(Item(self.file, 'macro', ts[i + 2].s, ts[a].a, ts[e].b, ts[start].a))
                # functions inside the macro are found too, under the key macro!name::Header::fn
                self.macro_fns(ts[i + 2].s, i + 3, e)
                i = e + 1
                if i < hi and ts[i].s == ';': i += 1
            else:
                if s == 'const' and ts[i + 1].k == 'id':
                    self.items.append(Item(self.file, 'const', ctx + ts[i + 1].s, ts[a].a, ts[a].b, ts[start].a)); self.items[-1].impl_attr = impl_attr
                j = i
                while j < hi and ts[j].s != ';':
                    if ts[j].s in ('(', '[', '{'):
                        br = ts[j].s
                        j = match(ts, j)
                        if br == '{' and s not in ('const', 'static', 'use', 'type'): break
                    j += 1
                i = j + 1

    def macro_fns(self, mac, lo, hi):
        ts = self.ts
        i = lo
        while i < hi:
            if ts[i].s == 'fn' and ts[i + 1].k == 'id':
                a = i
                while ts[a - 1].s in QUAL or (ts[a - 1].s == ')' and False): a -= 1
                j = i + 2
                while ts[j].s not in ('{', ';'):
                    if ts[j].s in ('(', '['): j = match(ts, j)
                    j += 1
                if ts[j].s == '{':
                    e = match(ts, j)
                    self.fns.append(Fn(self.file, 'macro ' + mac + '!::' + ts[i + 1].s, ts[i + 1].s, ts[a].a, ts[a].a,
                                       ts[j].a, ts[e].b, ts[j:e + 1], self.src[ts[a].a:ts[j].a], 'macro ' + mac + '!::', -1, False, []))
                    i = e
            i += 1


def loops(fn):
    """offsets of the for/while/loop keywords in the body, in source order (labels included)"""
    out, ts = [], fn.toks
    for i, t in enumerate(ts):
        if t.k == 'id' and t.s in ('for', 'while', 'loop'):
            if t.s == 'for' and (ts[i + 1].s == '<' ): continue
            if i and ts[i - 1].s in ('.', '::'): continue
            a = t.a
            if i >= 2 and ts[i - 1].s == ':' and ts[i - 2].k == 'life': a = ts[i - 2].a
            # body brace
            j = i + 1
            while ts[j].s != '{':
                if ts[j].s in ('(', '['): j = match(ts, j)
                j += 1
            out.append((a, ts[j].a, t.s))
    return out


def closures(fn):
    """(offset of the first |, offset just past the parameter list) of each closure, in source order"""
    out, ts = [], fn.toks
    i = 0
    while i < len(ts):
        t = ts[i]
        if t.k == 'p' and t.s in ('|', '||'):
            p = ts[i - 1]
            start = p.s in ('(', ',', '=', '{', ';', '[', '=>', 'move', 'return', 'else', '>') and p.k in ('p', 'id')
            if p.s == '|' : start = False
            # match arm alternatives begin a line with | after { or => or ,
            if start:
                a = t.a if p.s != 'move' else p.a
                if t.s == '||':
                    out.append((a, t.b)); i += 1; continue
                j = i + 1
                ok = True
                while ts[j].s != '|':
                    if ts[j].s in ('(', '[', '{'): j = match(ts, j)
                    elif ts[j].s in ('=>', ';', '{', '}', ')'): ok = False; break
                    j += 1
                    if j >= len(ts): ok = False; break
                if ok:
                    nx = ts[j + 1]
                    # a pattern alternative `| A | B => ..` is not a closure
                    k = j + 1; arm = False
                    if p.s in ('{', ',', '}'):
                        d = 0
                        while k < len(ts) and ts[k].s not in (';', '}', ','):
                            if ts[k].s in ('(', '[', '{'): k = match(ts, k)
                            elif ts[k].s == '=>': arm = True; break
                            k += 1
                    if not arm:
                        out.append((a, ts[j].b)); i = j + 1; continue
        i += 1
    return out


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        s = Scan(f, open(f).read())
        for fn in s.fns: print(f, fn.key, len(loops(fn)), len(closures(fn)))
        for it in s.items: print('   ', it.kind, it.key)


class Macro:
    """a macro_rules macro whose matchers only use fragments that are one token, or a balanced run of tokens up to the next token of the matcher"""
    def __init__(self, src, ann=()):
        for x, y in ann:
            pat = lex(x); ts = lex(src); out = []; k = 0
            while k + len(pat) <= len(ts):
                if all(ts[k + j].s == pat[j].s for j in range(len(pat))):
                    out.append((ts[k].a, ts[k + len(pat) - 1].b)); k += len(pat)
                else: k += 1
            for a, b in reversed(out): src = src[:a] + y + src[b:]
        self.src = src
        ts = lex(src)
        i = next(k for k, t in enumerate(ts) if t.s == 'macro_rules') + 3
        end = match(ts, i); i += 1
        self.arms = []
        while i < end:
            z = match(ts, i); b = z + 2 if ts[z + 1].s == '=>' else z + 3
            e = match(ts, b)
            self.arms.append((ts[i + 1:z], ts[b + 1:e])); i = e + 1
            if i < end and ts[i].s == ';': i += 1

    def expand(self, args):
        for pat, body in self.arms:
            m = self.bind(pat, args)
            if m is not None: return self.subst(body, m)
        return None

    def bind(self, pat, args):
        m = {}; i = 0; k = 0
        while k < len(pat):
            if pat[k].s == '$' and pat[k + 1].k == 'id' and pat[k + 2].s == ':':
                name, kind = pat[k + 1].s, pat[k + 3].s; k += 4
                if kind in ('ident', 'literal', 'lifetime'):
                    if i >= len(args) or not (kind != 'ident' or re.fullmatch(r'[A-Za-z_]\w*', args[i])): return None
                    m[name] = args[i]; i += 1
                else:
                    stop = pat[k].s if k < len(pat) else None; d = 0; a = i
                    while i < len(args) and not (d == 0 and args[i] == stop):
                        if args[i] in ('(', '[', '{', '<'): d += 1
                        elif args[i] in (')', ']', '}', '>'):
                            if d == 0: break
                            d -= 1
                        i += 1
                    if a == i: return None
                    m[name] = ' '.join(args[a:i])
                continue
            if i >= len(args) or args[i] != pat[k].s: return None
            i += 1; k += 1
        return m if i == len(args) else None

    def subst(self, body, m):
        out = ''; k = 0; last = body[0].a if body else 0
        while k < len(body):
            t = body[k]; gap = self.src[last:t.a]
            out += ' ' if gap else ''
            if t.s == '$' and k + 1 < len(body) and body[k + 1].k == 'id':
                n = body[k + 1]
                if n.s == 'crate': out += 'crate'
                elif n.s in m: out += m[n.s]
                else: out += '$' + n.s
                last = n.b; k += 2; continue
            out += t.s; last = t.b; k += 1
        return out


def tail(fn):
    """offset of the expression the body ends with (of the closing brace if there is none)"""
    ts = [t for t in fn.toks if t.a > fn.body]
    k = 0; start = 0
    while k < len(ts) - 1:
        t = ts[k]
        if t.s in ('(', '[', '{'):
            z = match(ts, k)
            if t.s == '{' and ts[z + 1].s not in ('.', '?', ',', ')', ';', 'else', '=') and not (start < k and ts[start].s in ('let', 'return')) and (ts[start].s in ('for', 'while', 'loop', 'if', 'match', 'unsafe', '{', '#')) and z + 1 < len(ts) - 1: start = z + 1
            k = z + 1; continue
        if t.s == ';': start = k + 1
        k += 1
    return ts[start].a
