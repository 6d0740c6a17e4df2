"""Circular buffer (C08) and stream adapters (C09)."""


def ops(h):
    out = []
    for x in h:
        f = []
        for a in x:
            f += [str(y) for y in a] if isinstance(a, (list, tuple)) else [str(a)]
        out.append(','.join(f))
    return ' '.join(out)


def rnd_ring(r):
    o = ['cap,%d' % r.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 33])]
    for _ in range(r.randrange(5, 60)):
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 20, 40])
        k = r.random()
        if k < .2: o.append('read,%d' % n)
        elif k < .45: o.append('write,%d' % n)
        elif k < .55: o.append('rfrom,%d,%d' % (r.randrange(1, 5), r.randrange(0, 6)))
        elif k < .65: o.append('wto,%d,%d,%d' % (r.randrange(1, 5), r.randrange(0, 6), r.choice([0, 1, 2, 3, 10, 1000])))
        elif k < .72: o.append('peek,%d' % n)
        elif k < .79: o.append('enough,%d,%d,%d' % (n, r.randrange(1, 5), r.randrange(0, 6)))
        elif k < .85: o.append('dread,%d' % r.choice([0, 0, 1]))
        elif k < .91: o.append('dwrite,%d' % r.choice([0, 0, 1]))
        elif k < .95: o.append('undo,%d' % r.choice([0, 0, 1]))
        elif k < .98: o.append('clear')
        else: o.append('resize,%d' % r.choice([0, 1, 3, 8]))
    return ' '.join(o)


def C08(c):
    exe = c.build(['drv_ring'], opt='-O1')['drv_ring']
    scripts = [ops(h) for h in c.scripts_from_model('RingImpl', 'RingImpl.cfg')]
    if c.thorough:
        scripts += [ops(h) for h in c.scripts_from_model('RingImpl', 'RingImpl_t.cfg', timeout=800)]
    scripts += [rnd_ring(c.rnd) for _ in range(c.q(3000, 60000))]
    c.conform('drv_ring', exe, 'RingTrace', scripts)


KINDS = ['mem', 'vec', 'str', 'vstream', 'sstream', 'comb', 'comb3', 'buf']


def rnd_streams(r):
    o = []
    if r.random() < .75:
        k = r.choice(KINDS)
        o.append('mk,%s,%d,%d' % (k, r.choice([0, 1, 2, 3, 5, 9, 30]), r.choice([0, 1, 2, 5]) if k.startswith('comb') else 0))
    if r.random() < .5 or not o:
        o.append('snk,%s,%d,%d' % (r.choice(['ovec', 'ostr', 'omem', 'obuf']), r.choice([0, 1, 2, 3, 5, 9]), r.choice([0, 1, 3])))
    for _ in range(r.randrange(2, 14)):
        n = r.choice([0, 1, 1, 2, 3, 5, 9, 40])
        k = r.random()
        if k < .15: o.append('rs,%d' % n)
        elif k < .3: o.append('rd,%d' % n)
        elif k < .6: o.append(','.join(['wt,%d' % r.choice([0, 1, 2, 3, 7, 100, 5000])] + [str(r.choice([0, 1, 1, 2, 3, 50])) for _ in range(r.randrange(0, 7))]))
        elif k < .68: o.append('app,%d' % r.choice([0, 1, 4]))
        elif k < .74: o.append(r.choice(['mv', 'mva']))
        elif k < .77: o.append('clr')
        elif k < .9: o.append('ws,%d' % n)
        else: o.append('wx,%d' % n)
    return ' '.join(o)


def C09(c):
    exe = c.build(['drv_streams'])['drv_streams']
    scripts = [ops(h) for h in c.scripts_from_model('StreamsImpl', 'StreamsImpl.cfg', limit=c.q(8000, None))]
    scripts += [rnd_streams(c.rnd) for _ in range(c.q(3000, 60000))]
    c.conform('drv_streams', exe, 'StreamsTrace', scripts)
