"""C26 integers, C27 addresses, C28 random numbers, C29 intrusive containers."""

BITS = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64}
LO = {t: -2 ** (b - 1) if t[0] == 'i' else 0 for t, b in BITS.items()}
HI = {t: 2 ** (b - 1) - 1 if t[0] == 'i' else 2 ** b - 1 for t, b in BITS.items()}


def group(items, n):
    return [' '.join(items[i:i + n]) for i in range(0, len(items), n)]


def in_type(r, t):
    k = r.random()
    if k < .35:
        v = r.choice([LO[t], LO[t] + 1, LO[t] // 2, -10, -9, -1, 0, 1, 9, 10, 99, 100, HI[t] // 2, HI[t] // 2 + 1, HI[t] - 1, HI[t]])
    elif k < .6:
        v = (r.randrange(3) - 1) + r.choice([1, -1]) * 10 ** r.randrange(0, 20)
    elif k < .8:
        v = (r.randrange(3) - 1) + r.choice([1, -1]) * 2 ** r.randrange(0, 65)
    else:
        v = r.choice([1, -1]) * r.getrandbits(r.randrange(1, 65))
    return v if LO[t] <= v <= HI[t] else LO[t] + v % (HI[t] - LO[t] + 1)


def num_text(r, t):
    v = r.choice([LO[t], HI[t], in_type(r, t), in_type(r, 'i64'), in_type(r, 'u64')]) + r.choice([0, 0, 0, 1, -1, 10, -10, 9, -9])
    s = str(v)
    k = r.random()
    if k < .15:
        s = s + str(r.randrange(10))
    elif k < .25:
        i = r.randrange(len(s) + 1)
        s = s[:i] + r.choice('+- 0a.:/\0\xff\t') + s[i:]
    elif k < .3:
        s = s[:-1] + str(r.randrange(10))
    if r.random() < .2:
        s = '+' + s
    if r.random() < .2:
        s = r.choice([' ', '\t', '  ', '\n', '\v\f\r']) + s
    if r.random() < .2:
        s = s + r.choice([' ', '\t ', '\r\n'])
    return s.encode('latin1').hex()


def C26(c):
    r = c.rnd
    c.model('NumImpl', 'NumImpl.cfg')
    c.model('NumImpl', 'NumImpl_u.cfg')
    exe = c.build(['drv_num'])['drv_num']
    ts = list(BITS)
    o = []
    texts = c.scripts_from_model('NumImpl', 'NumImpl_s.cfg')
    if not c.thorough:
        texts = r.sample(texts, 1500)
    o += ['parse,%s,%s' % (t, bytes(x).hex()) for x in texts for t in ('i8', 'u8')]
    for t in ts:    # every digit at the edges of every type, near and far outside
        for edge in (LO[t], HI[t]):
            for k in range(len(str(edge).strip('-'))):
                for d in (-1, 1):
                    o.append('parse,%s,%s' % (t, str(edge + d * 10 ** k).encode().hex()))
            o += ['parse,%s,%s' % (t, x.encode().hex()) for x in (str(edge), str(edge) + '0', '%d0' % (edge // 10), '0%d' % abs(edge), '+%d' % abs(edge), '-%d' % abs(edge))]
    for _ in range(c.q(1500, 40000)):
        t = r.choice(ts)
        o.append('parse,%s,%s' % (t, num_text(r, t)))
    for t in ts:
        for s in ts:
            vs = {LO[s], HI[s], -1, 0, 1, LO[t], HI[t], LO[t] - 1, HI[t] + 1} | {in_type(r, s) for _ in range(c.q(6, 200))}
            o += ['cast,%s,%s,%d' % (t, s, v) for v in vs if LO[s] <= v <= HI[s]]
        es = {LO[t], LO[t] + 1, -1, 0, 1, HI[t] - 1, HI[t], HI[t] // 2, LO[t] // 2}
        ps = [(a, b) for a in es for b in es] + [(in_type(r, t), in_type(r, t)) for _ in range(c.q(40, 2000))]
        ps += [(a, HI[t] - a + d) for a in (in_type(r, t) for _ in range(c.q(15, 300))) for d in (0, 1)] + [(a, LO[t] - a - d) for a in (in_type(r, t) for _ in range(c.q(15, 300))) for d in (0, 1)]
        for a, b in ps:
            for n in ('add', 'sub'):
                if LO[t] <= a <= HI[t] and LO[t] <= b <= HI[t]:
                    o.append('%s,%s,%d,%d' % (n, t, a, b))
        vs = es | {in_type(r, t) for _ in range(c.q(60, 2000))} | {10 ** k - d for k in range(20) for d in (0, 1) if 10 ** k - d <= HI[t]} | {-10 ** k + d for k in range(20) for d in (0, 1) if -10 ** k + d >= LO[t]}
        for v in (v for v in vs if LO[t] <= v <= HI[t]):
            o.append('save,%s,%d' % (t, v))
            if t[0] == 'i':
                o.append('abs,%s,%d' % (t, v))
        # floating point: m * 2^e with every m exactly representable
        for f, prec in (('f', 24), ('d', 53)):
            b = BITS[t] - (t[0] == 'i')
            ms = [(1, b), (2 ** prec - 1, b - prec), (1, b + 1), (2 ** prec - 1, b + 1 - prec), (2 ** prec - 2, b - prec), (2 ** (prec - 1) + 1, b - prec + 1), (1, -1), (3, -1), (2 ** prec - 1, -prec), (0, 0), (1, 0), (5, 3), (1, 70), (1, 100), (1, -100)]
            if b + 1 <= prec:
                ms += [(2 * HI[t] + 1, -1), (2 * HI[t] + 2, -1), (HI[t], 0), (HI[t] + 1, 0), (2 * HI[t] - 1, -1)]
            ms += [(r.getrandbits(r.randrange(1, prec + 1)), r.randrange(-70, 40)) for _ in range(c.q(25, 800))]
            for m, e in ms:
                o += ['float,%s,%s,%d,%d' % (t, f, m, e), 'float,%s,%s,%s,%d' % (t, f, '-%d' % m, e)]
        o += ['nan,%s,%s' % (t, x) for x in ('nan', 'inf', '-inf')]
    r.shuffle(o)
    c.conform('drv_num', exe, 'NumTrace', group(o, 50), timeout=c.q(400, 3000))


def ip4(r):
    o = [str(r.choice([0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 223, 224, 239, 240, 249, 250, 254, 255, r.randrange(256)])) for _ in range(4)]
    k = r.random()
    if k < .3:
        i = r.randrange(4)
        o[i] = r.choice(['', '256', '00', '01', '001', '1000', '-1', '+1', ' 1', '1 ', '0x1', 'a', '260', '300', '999', '1:'])
    elif k < .4:
        o = r.choice([o[:3], o + ['1'], [''] + o, o + ['']])
    return '.'.join(o)


def ip6(r):
    def w():
        return ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(r.choice([1, 1, 2, 3, 4, 4]))) if r.random() < .6 else r.choice(['0', '0000', 'ffff', 'ff02', 'FE80', '1'])
    n = r.choice([8, 8, 8, 7, 9, 6, r.randrange(1, 9)])
    g = [w() for _ in range(n)]
    if r.random() < .2:
        g = g[:-2] + [ip4(r)]
    if r.random() < .6:
        i = r.randrange(len(g) + 1)
        j = min(len(g), i + r.randrange(0, 5))
        s = ':'.join(g[:i]) + '::' + ':'.join(g[j:])
    else:
        s = ':'.join(g)
    if r.random() < .2:
        i = r.randrange(len(s) + 1)
        s = s[:i] + r.choice([':', '::', 'g', 'G', '%', '.', '/', ' ', '12345', '-', '@', '`']) + s[i:]
    return s


def C27(c):
    r = c.rnd
    exe = c.build(['drv_addr'])['drv_addr']
    hx = lambda s: s.encode('latin1').hex()
    ports = [0, 1, 9, 10, 80, 255, 256, 999, 1000, 4660, 9999, 10000, 32767, 32768, 65280, 65535]
    al4 = ['1', '0', '25', '.', '255', '.']
    o = []
    # small texts, exhaustively
    import itertools
    for n in range(0, c.q(5, 7)):
        for t in itertools.product('1:.0', repeat=n):
            o.append('ip,%s,%d' % (hx(''.join(t)), r.choice(ports)))
    for n in range(1, c.q(6, 9)):
        for t in itertools.product(['1', ':', '::', 'ff', '1.2.3.4'], repeat=n):
            if r.random() < c.q(.25 if n == 5 else 1, .2 if n > 6 else 1):
                o.append('ip,%s,%d' % (hx(''.join(t)), r.choice(ports)))
    for b in range(256):    # every value of every byte
        o.append('ip,%s,%d' % (hx('%d.%d.%d.%d' % (b, b ^ 255, (b * 7) % 256, 255 - b)), r.choice(ports)))
        o.append('ip,%s,%d' % (hx('%x00::%x' % (b, b)), r.choice(ports)))
        o.append('ip,%s,%d' % (hx('1.2.3.' + chr(b)), 1))
        o.append('ip,%s,%d' % (hx('::' + chr(b)), 1))
    o += ['ip,%s,%d' % (hx('10.0.0.1'), p) for p in ports] + ['ip,%s,%d' % (hx('::ffff:10.0.0.1'), p) for p in ports]
    for b in (0, 9, 10, 13, 32, 37, 47, 58, 255):     # something after a good address, or before it
        for t in ('1.2.3.4', '::1', '1:2:3:4:5:6:7:8'):
            for x in (t + chr(b), t + chr(b) + '1', chr(b) + t):
                o += ['ip,%s,%d' % (hx(x), r.choice(ports)), 'both,' + hx(x + ':1'), 'both,' + hx(t + ':1' + chr(b))]
    for s in ('127.0.0.1', '127.255.255.255', '128.0.0.1', '126.255.255.255', '::1', '::', '::2', '1::1', '::ffff:127.0.0.1', '0:0:0:0:0:0:0:1', '::0.0.0.1', 'ff02::1', 'fe80::1', 'ff00::', 'feff::', '224.0.0.0', '239.255.255.255', '240.0.0.0', '223.255.255.255', '1::', '::1:1.2.3.4', '1:2:3:4:5:6:7::', '::2:3:4:5:6:7:8', '1:2:3:4:5:6:7:8::', '1:2:3:4:5:6:1.2.3.4', '1:2:3:4:5:6:7:1.2.3.4', '1.2.3.4:5::'):
        o += ['ip,%s,%d' % (hx(s), r.choice(ports)), 'again', 'both,%s' % hx(s), 'new']
    for _ in range(c.q(900, 30000)):
        s = ip4(r) if r.random() < .4 else ip6(r)
        k = r.random()
        p = str(r.choice(ports)) if r.random() < .6 else r.choice(['', '65536', '-1', '+1', ' 1', '1 ', '01', '00', '-0', '+0', '99999', '65530', '65539', 'http', '1a', '0x50', '4294967376', ':', '18446744073709551696'])
        o.append('ip,%s,%d' % (hx(s), r.randrange(65536)) if k < .5 else 'both,%s' % hx(s + ':' + p) if k < .95 else 'both,%s' % hx(s + p))
        if r.random() < .3:
            o.append('again')
        if r.random() < .1:
            o.append('new')
    c.conform('drv_addr', exe, 'AddrTrace', group(o, 25), timeout=c.q(400, 3000))


# seeds whose first result is below 130 or among the 64 largest
EDGES = [
         3609011903, 2362695127, 808657002, 3883994967, 504855860, 1423742385, 2354785642, 5126866252, 5674870326, 254415000, 1226616508, 1116098554,
         1218999377, 4432705936, 4241816709, 879717606, 963904546, 391906532, 642347392, 201278825, 985936432, 2602507407, 2043206448, 943057697, 4478024867,
         5379110989, 5090601210, 1139464543, 58078276, 1303887648, 3381370185, 5266067128, 4327114386, 3848436820, 1180251422, 2773076261, 1191058361,
         4279962725, 3836262420, 1219038136, 1297038619, 3869603382, 1821901567, 1123427964, 1158156905, 4506332094, 4413628161, 2078843962, 2859590036,
         3338074804, 1305551911, 2471717623, 3264167704, 4615516399, 4614965125, 3572828127, 2610599337, 2022003314, 4318501449, 3785278341, 3154983399,
         3060927000, 793040311, 1249903553, 779838924, 3066366817, 4575581220, 1506888875, 2445841617, 865248054, 2188858461, 3924160055, 2679898588,
         4451347803, 1031674279, 5612260111, 4793098130, 4181009917, 411989076, 1437734198, 5352580903, 2291759284, 5237720773, 195569808, 3138947274,
         5027990995, 2897309678, 2244504653, 1398411028, 44151424, 690466528, 4899145105, 855786872, 70349378, 5857183018, 2749106768, 1016036909, 4443721879,
         2453025261, 3762540014, 2733692356, 1343271553, 1014894996, 5713964413, 1813045737, 5053939106, 1266611323, 599200396, 249982714, 3369538594,
         5472609243, 1113256952, 5105592996, 1397351137, 1773282259, 971288281, 5392610404, 746850053, 486349699, 453231645, 117028878, 2228740337, 3060129537,
         957692977, 302640064, 171943472, 4115589565, 4051186013, 1935634897, 5047449210, 1527125284, 948418078, 2590687810, 348553143, 110503859, 1529215196,
         2341075163, 2709877249, 3890539302, 532723478, 2702458974, 1779807278, 3183737192, 3891518737, 2151950334, 5035139229, 1041223671, 5573479592,
         4832159818, 1364112678, 4785929963, 1612745890, 3974069996]


def C28(c):
    r = c.rnd
    exe = c.build(['drv_rnd'])['drv_rnd']
    scripts = ['range', 'fresh']
    # seeds whose sequences have rare results at once: below the threshold of printable_string(), or all ones
    seeds = [808657002, 1423742385, 2362695127, 3609011903, 504855860, 3427545549, 9187256772422131370, 56082051048985933, 5247471819844088197,
             0, 1, 2, 42, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
    ops = ['next', 'bytes,0', 'unit', 'text,1', 'text,0', 'text,5', 'data,0', 'data,4', 'data,7'] + ['bytes,%d' % n for n in (1, 2, 3, 4, 5, 8, 11, 16)] + ['pod,%d' % n for n in (1, 2, 3, 4, 5, 8)]
    for s in seeds:
        for o in ('next next', 'unit unit', 'text,4', 'bytes,9', 'text,1 next'):
            scripts.append('seed,%d %s' % (s, o))
    for s in EDGES:
        scripts.append('seed,%d text,2' % s)
    for i in range(c.q(150, 4000)):
        scripts.append(' '.join(['seed,%d' % r.choice([r.getrandbits(64), r.getrandbits(32), r.choice(seeds)])] + [r.choice(ops) for _ in range(r.randrange(2, 9))]))
    for i in range(c.q(6, 100)):
        scripts.append('seed,%d text,%d bytes,%d data,%d' % (r.getrandbits(64), r.choice([62, 100, 150]), r.choice([61, 64, 127]), r.choice([33, 70])))
    c.conform('drv_rnd', exe, 'PcgTrace', scripts, timeout=c.q(400, 3000))


def C29(c):
    r = c.rnd
    c.model('HeapImpl', 'HeapImpl.cfg')
    c.model('ListImpl', 'ListImpl.cfg')
    exe = c.build(['drv_intr'])['drv_intr']
    scripts = []
    hs = c.scripts_from_model('HeapImpl', 'HeapImpl_s.cfg')
    ls = c.scripts_from_model('ListImpl', 'ListImpl_s.cfg')
    if not c.thorough:
        hs, ls = r.sample(hs, min(len(hs), 700)), r.sample(ls, min(len(ls), 700))
    for i, h in enumerate(hs):
        scripts.append(' '.join(['safe,2,1,2,3,1' if i % 4 == 0 else 'items,2,1,2,3,1'] + ['%s,%d' % tuple(x) for x in h]))
    for h in ls:
        scripts.append(' '.join(['items,1,1,1'] + [','.join(str(y) for y in x) for x in h]))
    for i in range(c.q(60, 1500)):      # larger heaps: every depth, ties, erasing in the middle
        n = r.choice([8, 15, 16, 17, 31, 33, 40, 64])
        top = r.choice([2, 5, 20, 1000])
        keys = [r.randrange(top) for _ in range(n)]
        if r.random() < .3:
            keys.sort(reverse=r.random() < .5)
        ops, inside = [], set()
        for _ in range(r.choice([40, 80, 120])):
            k = r.random()
            x = r.randrange(1, n + 1)
            if k < (.75 if len(inside) < n // 2 else .4):
                ops.append('insert,%d' % x)
                inside.add(x)
            elif k < .85:
                if r.random() < .9 and inside:
                    x = r.choice(sorted(inside))
                ops.append('erase,%d' % x)
                inside.discard(x)
            else:
                ops.append('pop')
        ops += ['pop'] * r.choice([0, n])
        scripts.append(' '.join([('safe,' if i % 3 == 0 else 'items,') + ','.join(map(str, keys)), 'reserve,%d' % r.choice([0, 3, 100])] + ops))
    for i in range(c.q(60, 1500)):
        n = r.randrange(2, 9)
        ops = []
        for _ in range(r.randrange(5, 40)):
            q, x = r.choice([1, 1, 2]), r.randrange(1, n + 1)
            ops.append(r.choice(['back,%d,%d', 'front,%d,%d', 'at,%d,%d', 'unlink,%d,%d', 'del,%d,%d', 'back,%d,%d']) % (q, x))
            if ops[-1][:2] == 'at':
                ops[-1] += ',0'
        scripts.append(' '.join(['items,' + ','.join('1' * n)] + ops))
    c.conform('drv_intr', exe, 'IntrTrace', scripts, timeout=c.q(400, 3000))


def C30(c):
    r = c.rnd
    hx = lambda s: s.encode('latin1').hex()
    T = ['', 'a', 'b', 'ab', 'aa', 'abc', 'abcdabcd', 'http', '\0', 'a\0b', 'a\0c', '\0a', '\0b', '\xff', 'x' * 40]

    def op():
        k, j, x = r.randrange(1, 4), r.randrange(1, 4), hx(r.choice(T))
        if r.random() < .5:
            return r.choice(['%s,%d,%s' % (n, k, x) for n in ('set', 'mset', 'emp', 'new', 'mnew')] + ['none,%d' % k, 'clear,%d' % k] + ['%s,%d,%d' % (n, k, j) for n in ('copy', 'ncopy', 'move', 'nmove', 'copy', 'move')])
        k, j = r.randrange(1, 3), r.randrange(1, 3)
        return r.choice(['view,%d,%s' % (k, x)] * 2 + ['zview,%d,%s' % (k, x), 'dview,%d' % k] + ['sub,%d,%d,%d,%d' % (k, j, r.choice([0, 0, 1, 2, 3, 9]), r.choice([-1, -1, 0, 1, 2, 3, 9]))] * 3 +
                        ['pre,%d,%d' % (k, r.choice([0, 1, 2])), 'suf,%d,%d' % (k, r.choice([0, 1, 2]))] + ['eq,%d,%s' % (k, x)] * 4)
    scripts = [' '.join(op() for _ in range(r.choice([3, 8, 20]))) for _ in range(c.q(400, 8000))]
    for x in T:
        for y in T:
            scripts.append('view,1,%s eq,1,%s zview,2,%s eq,2,%s' % (hx(x), hx(y), hx(x), hx(y)))
        for i in range(0, 6):
            for n in range(-1, 5):
                scripts.append('view,1,%s sub,2,1,%d,%d' % (hx(x), i, n))
    for std in ('14', '17'):
        exe = c.build(['drv_val'], extra=['-std=gnu++' + std])['drv_val']
        c.conform('drv_val', exe, 'ValTrace', scripts, timeout=c.q(400, 3000))
