#!/usr/bin/env python3
"""genschema.py SEED N PACKAGE: a random schema package of N compound types.

Used to write sim/corpus/corpus/rnd*.zs; the result is committed and checked against the
reference compiler before it becomes part of the corpus."""
import random, sys
seed, n, pkg = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
drop = set(sys.argv[4].split(',')) if len(sys.argv) > 4 else set()
R = random.Random(seed)
def L_(i): return chr(97 + i) if i < 26 else L_(i // 26 - 1) + L_(i % 26)
P = pkg.split('.')[-1].capitalize()
out = ['package %s;' % pkg, '']
enums, masks, subs, comps, par, choices, tmpls, inst, consts = [], [], [], [], [], [], [], [], []
# what other types can say about a value of a type: int fields, bool fields, functions
pub = {}
# instantiations of templates that have a name of their own
named = set()
def ch(p): return R.random() < p
def pick(*a): return R.choice(a)
def int_type():
    return pick('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'varint', 'varuint', 'varint16', 'varint32', 'varint64',
                'varuint16', 'varuint32', 'varuint64', 'varsize', *(['bit:%d' % R.randint(1, 64)] * 5), *(['int:%d' % R.randint(1, 64)] * 5))
def plain():
    k = R.random()
    if k < .5: return int_type()
    if k < .58: return 'bool'
    if k < .66: return pick('float16', 'float32', 'float64')
    if k < .74: return 'string'
    if k < .78: return 'extern'
    if k < .82: return 'bytes'
    if k < .90 and enums: return pick(*enums)[0]
    if k < .95 and masks: return pick(*masks)[0]
    if subs: return pick(*subs)
    return int_type()
def enum(i):
    base, lo, hi = pick(('uint8', 0, 255), ('bit:3', 0, 7), ('int16', -32768, 32767), ('varuint16', 0, 32767), ('uint64', 0, 2**31 - 1), ('int:5', -16, 15), ('varint', -2**31 + 1, 2**31 - 1), ('int32', -2**31 + 1, 2**31 - 1), ('bit:11', 0, 2047))
    vals = sorted(set([lo if ch(.3) else R.randint(max(lo, -3), 3), *(R.randint(lo, hi) if ch(.5) else R.randint(max(lo, -9), min(hi, 30)) for _ in range(R.randint(1, 5)))]))
    items, last = [], None
    for j, v in enumerate(vals):
        auto = last is not None and v == last + 1 or last is None and v == 0
        items.append('ITEM_%d%s' % (j, '' if auto and ch(.7) else ' = %d' % v))
        last = v
    name = P + 'Enum' + L_(i).upper()
    out.extend(['enum %s %s { %s };' % (base, name, ', '.join(items)), ''])
    enums.append((name, len(vals)))
def mask(i):
    base, w = pick(('uint8', 8), ('bit:5', 5), ('uint16', 16), ('varuint32', 29), ('uint64', 31), ('varsize', 31), ('bit:33', 31))
    bits = sorted(R.sample(range(w), min(w, R.randint(2, 5))))
    name = P + 'Mask' + L_(i).upper()
    out.extend(['bitmask %s %s { %s };' % (base, name, ', '.join('BIT_%d = %s' % (j, pick(str(1 << b), hex(1 << b))) for j, b in enumerate(bits))), ''])
    masks.append((name, len(bits)))
class S:
    """the fields so far that expressions may use"""
    def __init__(s): s.ints, s.bools, s.enums, s.masks, s.arrays, s.strings, s.own, s.floats = [], [], [], [], [], [], [], []
    def see(s, f, t):
        """a field of compound type that is always there: its fields and functions may be named"""
        i, b, fs = pub.get(t.split('(')[0], ([], [], []))
        for x in i: s.ints.append('%s.%s' % (f, x))
        for x in b: s.bools.append('%s.%s' % (f, x))
        for x in fs: s.ints.append('%s.%s()' % (f, x))
    def num(s, depth=0):
        k = R.random()
        if not s.ints or k < .12: return pick(str(R.randint(0, 4)), *consts)
        v = pick(*s.ints)
        if depth > 1 or k < .45: return v
        a, b = s.num(depth + 1), s.num(depth + 1)
        return pick('%s + %s' % (a, b), '(%s + %s) * 2' % (a, b), '(%s) * %d' % (a, R.randint(1, 3)), '(%s) / %d' % (a, R.randint(1, 3)), '(%s) %% %d' % (a, R.randint(1, 5)),
                    '(%s) & %d' % (a, R.randint(1, 7)), 'numbits(%s)' % v, '(%s ? %s : %s)' % (s.cond(depth + 1), a, b), *(['lengthof(%s) %% 6' % pick(*s.arrays)] if s.arrays else []), '(%s << 1)' % v, '(%s | %s) & 7' % (a, b), '((%s) ^ %d) & 7' % (a, R.randint(0, 7)), '(~(%s)) & 3' % a, *(['valueof(%s) & 7' % pick(*s.enums)[0]] if s.enums else []), '((%s) >> 1)' % a)
    def cond(s, depth=0):
        o = ['%s %s %s' % (pick(*s.ints), pick('>', '<', '==', '!=', '>=', '<='), pick(str(R.randint(0, 5)), *s.ints)) for _ in range(2) if s.ints]
        o += [pick('%s', '!%s') % pick(*s.bools) for _ in range(2) if s.bools]
        o += ['%s == %s.ITEM_%d' % (f, t[0], R.randrange(t[1])) for f, t in s.enums]
        o += [pick('isset(%s, %s.BIT_%d)', '!isset(%s, %s.BIT_%d)') % (f, t[0], R.randrange(t[1])) for f, t in s.masks]
        o += ['lengthof(%s) > %d' % (f, R.randint(0, 3)) for f in s.arrays + s.strings]
        o += ['%s %s %s' % (f, pick('>', '<'), pick('0.5', '-2.25', '2.0', '10.5', '0.1', *s.floats)) for f in s.floats]
        if not o: return 'true'
        c = pick(*o)
        if depth < 2 and ch(.35): c = '(%s) %s %s' % (c, pick('&&', '||'), s.cond(depth + 1)) if ch(.5) else '%s %s (%s)' % (c, pick('&&', '||'), s.cond(depth + 1))
        return c
def args(s, ps):
    r = []
    for k in ps:
        if k == 'bool': r.append(pick(*s.bools) if s.bools and ch(.6) else s.cond())
        else: x = s.num(); r.append(x if x.isalnum() and x not in s.own else '(%s) %% 11' % x)
    return ', '.join(r)
def elem(s, depth):
    """a type that a field or an element may have"""
    k = R.random()
    if k < .5 or depth == 0: return plain()
    if k < .8 and comps: return pick(*comps)
    if k < .93 and par:
        t, ps = pick(*par); return '%s(%s)' % (t, args(s, ps))
    if inst and ch(.4): return pick(*inst)
    if tmpls and ch(.5):
        t = (pick(*tmpls), pick(pick("int8", "uint16", "varuint"), "string", "bool", *[e[0] for e in enums], *[c for c in comps[-3:] if 'Sub' not in c and 'Inst' not in c]))
        if t not in named: return '%s<%s>' % t
    return plain()
def struct(i, params=(), name=None, body_only=False):
    name = name or P + 'Type' + L_(i).upper()
    L, s = [], S()
    head = 'struct %s%s' % (name, '(%s)' % ', '.join('%s p%d' % (t, j) for j, t in enumerate(params)) if params else '')
    for j, t in enumerate(params): (s.bools if t == 'bool' else s.ints).append('p%d' % j)
    k = [0]
    def nm(): k[0] += 1; return 'v' + L_(k[0])
    for _ in range(R.randint(2, 8)):
        f, form = nm(), R.random()
        if form < .2:
            t, hi = pick(('uint8', 9), ('bit:3', 7), ('uint16', 12), ('varuint', 6), ('int8', 8), ('bit:5', 9), ('varsize', 5), ('uint64', 5), ('int32', 7))
            L += ['    //@ range 0 %d' % R.randint(2, hi), '    %s %s;' % (t, f)]; s.ints.append(f)
        elif form < .24:
            m = R.randint(1, 4)
            L += ['    //@ range 0 %d' % R.randint(2, 5), '    %s%s %s[%d];' % (pick('', 'packed '), pick('uint8', 'bit:4', 'varuint', 'int32', 'uint64'), f, m)]; s.ints += ['%s[%d]' % (f, R.randrange(m))]; s.arrays.append(f)
        elif form < .30: L.append('    bool %s;' % f); s.bools.append(f)
        elif form < .32 and enums: t = pick(*enums); L.append('    %s %s;' % (t[0], f)); s.enums.append((f, t))
        elif form < .345 and masks: t = pick(*masks); L.append('    %s %s;' % (t[0], f)); s.masks.append((f, t))
        elif form < .38: L.append('    %s %s;' % (pick('float16', 'float32', 'float64'), f)); s.floats.append(f)
        elif form < .41: L.append('    string %s;' % f); s.strings.append(f)
        elif form < .45 and s.ints: L.append('    %s%s<%s + 1> %s%s;' % (pick('', 'packed ') if ch(.0) else '', pick('bit', 'int'), pick(*s.ints), f, pick('', '', '[]', '[2]')))
        elif form < .52:
            g = nm(); L.append('    %s %s;' % (pick('uint32', 'uint64', 'uint16'), f))
            if ch(.4): L.append('    bit:%d %s;' % (R.randint(1, 9), nm()))
            L += ['%s:' % f, '    %s %s;' % (elem(s, 1), g)]
        elif form < .56 and s.ints:
            g, m = nm(), pick(*s.ints)
            L += ['    uint32 %s[%s];' % (f, m), '%s[@index]:' % f, '    %s %s[%s];' % (elem(s, 1), g, m)]
        elif form < .62: L += ['align(%d):' % pick(8, 16, 32, 3, 5), '    %s %s;' % (elem(s, 1), f)]
        elif form < .80:
            if ch(.12) and any(len(x[1]) == 1 and x[1][0] != 'bool' for x in par): t = '%s(@index)' % pick(*[x[0] for x in par if len(x[1]) == 1 and x[1][0] != 'bool'])
            else: t = elem(s, 1)
            ln = pick('', '', '', str(R.randint(1, 4)), s.num())
            opt = ch(.15); cond = not opt and ch(.12)
            L.append('    %s%s%s %s[%s]%s;' % ('optional ' if opt else '', 'packed ' if ch(.4) else '', t, f, ln, ' if ' + s.cond() if cond else ''))
            if not opt and not cond and t not in ('bytes', 'extern') + tuple(subs): s.arrays.append(f)
        else:
            t, opt = elem(s, 1), R.random()
            if opt < .03: L.append('    //@ range 0 4\n    optional %s %s;' % (pick('uint8', 'bit:5', 'varuint16', 'int32'), f)); s.ints.append(f)
            elif opt < .25: L.append('    optional %s %s;' % (t, f))
            elif opt < .55: L.append('    %s %s if %s;' % (t, f, s.cond()))
            else: L.append('    %s %s;' % (t, f)); s.see(f, t)
    fs, F = [], []
    if ch(.35) and s.ints:
        for j in range(R.randint(1, 2)):
            fs.append('fun%s%s' % (L_(i).upper(), L_(j).upper()))
            F.append('    function %s %s() { return (%s) & 15; }' % (pick('uint32', 'uint64', 'int32', 'varuint', 'uint16'), fs[-1], s.num()))
            if ch(.5): L.append(pick('    uint8 vy%s[%s()];', '    string vy%s if %s() > 2;') % (L_(j), fs[-1]))
    pub[name] = ([x for x in s.ints if '.' not in x and '[' not in x and not x.startswith('p')][:2], [x for x in s.bools if '.' not in x and not x.startswith('p')][:1], fs[:1])
    L.append('    bit:%d tail;' % R.randint(1, 12))
    L += F
    out.extend([head, '{'] + L + ['};', ''])
    if params: par.append((name, params))
    else: comps.append(name)
def empty(i):
    name = P + 'Empty' + L_(i).upper()
    out.extend(['struct %s' % name, '{', '};', '']); comps.append(name)
def header(i):
    """positions that are kept in an object of their own"""
    h, name = P + 'Head' + L_(i).upper(), P + 'Far' + L_(i).upper()
    outer = P + 'Outer' + L_(i).upper()
    n, s, m = R.randint(1, 3), S(), R.randint(1, 4)
    F = ['    %s o%d;' % (pick('uint32', 'uint64', 'uint16', 'bit:31'), j) for j in range(n)]
    if ch(.5): F.append('    uint32 list[%d];' % m)
    out.extend(['struct %s' % h, '{'] + F + ['};', ''])
    deep = ch(.4)
    if deep: out.extend(['struct %s' % outer, '{', '    bit:%d lead;' % R.randint(1, 9), '    %s h;' % h, '};', ''])
    at = 'h.h' if deep else 'h'
    L = ['    %s h;' % (outer if deep else h)]
    for j in R.sample(range(n), n):
        if ch(.5): L.append('    bit:%d g%d;' % (R.randint(1, 12), j))
        t = elem(s, 1)
        L += ['%s.o%d:' % (at, j), '    %s%s;' % ('%s f%d' % (t, j) if ch(.6) else '%s%s f%d[]' % (pick('', 'packed '), t, j), '')]
    if 'list' in F[-1]: L += ['%s.list[@index]:' % at, '    %s%s items[%d];' % (pick('', 'packed '), elem(s, 1), m)]
    out.extend(['struct %s' % name, '{'] + L + ['    bit:%d tail;' % R.randint(1, 9), '};', '']); comps.append(name)
def owned(i):
    """a structure with an object as parameter"""
    c = [c for c in comps if pub.get(c, ([],))[0]]
    if not c: return struct(i)
    c = pick(*c); s = S(); s.see('p', c)
    name, h = P + 'Owned' + L_(i).upper(), P + 'Owner' + L_(i).upper()
    L = []
    for j in range(R.randint(1, 4)):
        k = R.random()
        if k < .3: L.append('    %s f%d[%s];' % (elem(s, 1), j, s.num()))
        elif k < .6: L.append('    %s f%d if %s;' % (elem(s, 1), j, s.cond()))
        elif k < .8 and s.ints: L.append('    %s<%s + 1> f%d;' % (pick('bit', 'int'), pick(*[x for x in s.ints if '(' not in x] or ['2']), j))
        else: L.append('    %s f%d;' % (elem(s, 1), j))
    out.extend(['struct %s(%s p)' % (name, c), '{'] + L + ['    bit:%d tail;' % R.randint(1, 9), '};', ''])
    out.extend(['struct %s' % h, '{', '    %s c;' % c, '    %s(c) one;' % name, *(['    optional %s(c) two;' % name] if ch(.5) else []), '    %s%s(c) more[%s];' % (pick('', 'packed '), name, pick('', '2', '3')), '    bit:3 tail;', '};', '']); comps.append(h)
def union(i):
    name = P + 'Union' + L_(i).upper(); s = S()
    L = ['    %s f%d%s;' % (elem(s, 1), j, '' if ch(.75) else '[]') for j in range(R.randint(2, 6))]
    out.extend(['union %s' % name, '{'] + L + ['};', '']); comps.append(name)
def choice(i):
    name = P + 'Choice' + L_(i).upper(); s = S(); k = R.random(); L = []; j = 0
    if k < .6 or not enums:
        t = pick('uint8', 'bit:4', 'uint16', 'varuint', 'int32'); s.ints = []
        vals = R.sample(range(0, 9), R.randint(2, 5)); 
        while vals:
            g, vals = vals[:R.randint(1, 2)], vals[R.randint(1, 2):]
            for v in g: L.append('    case %d:' % v)
            L.append('        ;' if ch(.15) else '        %s f%d%s;' % (elem(s, 1), j, '' if ch(.75) else '[]')); j += 1
            vals = [v for v in vals if v not in g]
        if ch(.12): L = []
        if not L or ch(.8): L += ['    default:', '        ;' if L and ch(.2) else '        %s f%d;' % (elem(s, 1), j)]
        out.extend(['choice %s(%s sel) on sel' % (name, t), '{'] + L + ['};', '']); par.append((name, (t,)))
    elif k < .8:
        out.extend(['choice %s(bool sel) on sel' % name, '{', '    case true:', '        %s f0;' % elem(s, 1), '    case false:', '        %s f1[];' % elem(s, 1), '};', '']); par.append((name, ('bool',)))
    elif False and any(pub.get(c, ([],))[0] for c in comps):
        c = pick(*[c for c in comps if pub.get(c, ([],))[0]]); x = pick(*pub[c][0])
        for v in R.sample(range(0, 7), 2): L += ['    case %d:' % v, '        %s f%d;' % (elem(s, 1), v)]
        L += ['    default:', '        %s g%d;' % (elem(s, 1), 9)]
        out.extend(['choice %s(%s par) on par.%s' % (name, c, x), '{'] + L + ['};', ''])
        h = P + 'Holder' + L_(i).upper()
        out.extend(['struct %s' % h, '{', '    %s first;' % c, '    %s(first) value;' % name, '    %s(first) more[];' % name, '    bit:3 tail;', '};', '']); comps.append(h)
    else:
        e = pick(*enums)
        for v in range(e[1]):
            L += ['    case ITEM_%d:' % v, '        %s f%d;' % (elem(s, 1), v)]
        out.extend(['choice %s(%s sel) on sel' % (name, e[0]), '{'] + L + ['};', ''])
        h = P + 'Holder' + L_(i).upper()
        out.extend(['struct %s' % h, '{', '    %s sel;' % e[0], '    %s(sel) value;' % name, '    bit:3 tail;', '};', '']); comps.append(h)
def template(i):
    name = P + 'Template' + L_(i).upper()
    L = ['    T f1;', '    %sT f2[];' % ('packed ' if ch(.5) else ''), *(['    optional T f3;'] if ch(.6) else [])]
    number = ch(.5)
    if number:
        L[0] = '    //@ range 0 5\n    T f1;'
        if ch(.6): L.append('    uint8 f4[f1 + %d];' % R.randint(0, 2))
        if ch(.6): L.append('    string f5 if f1 %s %d;' % (pick('<', '>', '==', '!='), R.randint(0, 5)))
        if ch(.5): L.append('    int<f1 + 3> f6;')
    L.append('    bit:%d tail;' % R.randint(1, 9))
    fun = ch(.5)
    if fun: L += ['', '    function T fn1()', '    {', '        return f1;', '    }']
    out.extend(['struct %s<T>' % name, '{'] + L + ['};', ''])
    seen = set()
    for j in range(R.randint(1, 3)):
        t = int_type() if number else pick(int_type(), plain(), pick(*comps) if comps else 'string')
        if t in seen or fun and (t in ('extern', 'bytes') or 'Sub' in t): continue
        seen.add(t); named.add((name, t))
        out.extend(['instantiate %s<%s> %sInst%s%s;' % (name, t, P, L_(i).upper(), L_(j)), '']); inst.append('%sInst%s%s' % (P, L_(i).upper(), L_(j))); comps.append('%sInst%s%s' % (P, L_(i).upper(), L_(j)))
    if not number: tmpls.append(name)
def emit(f, *a):
    """one definition; a dropped one is generated and thrown away, so that the others stay the same"""
    keep = [len(x) for x in (out, enums, masks, subs, comps, par, inst)]
    f(*a)
    if str(step[0]) in drop:
        for x, l in zip((out, enums, masks, subs, comps, par, inst), keep): del x[l:]
    step[0] += 1
step = [0]
for i in range(2): out.extend(['const %s %sCONST_%s = %d;' % (pick('uint8', 'int32', 'uint64', 'varint'), P.upper() + '_', L_(i).upper(), R.randint(0, 5)), '']); consts.append('%sCONST_%s' % (P.upper() + '_', L_(i).upper()))
for i in range(R.randint(1, 3)): emit(enum, i)
for i in range(R.randint(1, 2)): emit(mask, i)
def sub(i):
    out.extend(['subtype %s %sSub%s;' % (plain(), P, L_(i).upper()), '']); subs.append(P + 'Sub' + L_(i).upper())
for i in range(2): emit(sub, i)
def csub(i):
    if comps: out.extend(['subtype %s %sCSub%s;' % (pick(*comps), P, L_(i).upper()), '']); comps.append(P + 'CSub' + L_(i).upper())
for i in range(n):
    r = R.random()
    if r < .5: emit(struct, i)
    elif r < .66: emit(struct, i, tuple(pick('uint8', 'bit:4', 'uint32', 'bool', 'int16', 'varuint') for _ in range(R.randint(1, 3))))
    elif r < .76: emit(choice, i)
    elif r < .84: emit(union, i)
    elif r < .91: emit(template, i)
    elif r < .92: emit(empty, i)
    elif r < .96: emit(header, i)
    elif r < .98: emit(owned, i)
    else: emit(csub, i)
print('\n'.join(out))
