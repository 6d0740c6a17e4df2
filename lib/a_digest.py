"""C23: digests, base64, hexadecimal, UTF-8 validation."""
import itertools


def group(items, n):
    return [' '.join(items[i:i + n]) for i in range(0, len(items), n)]


def rnd_utf8(r):
    out = []
    for _ in range(r.randrange(1, 9)):
        k = r.random()
        if k < .55:
            cp = r.choice([r.randrange(0x80), r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000),
                           r.randrange(0x10000, 0x110000), 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff])
            out += list(chr(cp).encode())
        elif k < .75:   # surrogates, too large, overlong
            cp = r.choice([0xd800, 0xdfff, 0x110000, 0x13ffff])
            out += [0xe0 | cp >> 12, 0x80 | cp >> 6 & 63, 0x80 | cp & 63] if cp < 65536 else [0xf0 | cp >> 18, 0x80 | cp >> 12 & 63, 0x80 | cp >> 6 & 63, 0x80 | cp & 63]
        else:
            out.append(r.randrange(256))
    if r.random() < .3:
        out = out[:-1]
    return bytes(out)


def rnd_b64(r):
    sy = 'ABYZabyz0189+/'
    s = ''.join(r.choice(sy) for _ in range(r.randrange(0, 14)))
    for _ in range(r.randrange(0, 4)):
        i = r.randrange(len(s) + 1)
        s = s[:i] + r.choice(['=', '==', ' ', '-', '_', '\n', '\x80', '\xff', '@', '[', '`', '{', ':', '.', '\0', '===', 'A']) + s[i:]
    return s.encode('latin1')


def C23(c):
    r = c.rnd
    c.model('Utf8Impl', 'Utf8Impl.cfg')
    feeds = c.scripts_from_model('DigestImpl', 'DigestImpl.cfg')
    kinds = ['md5', 'sha1', 'crc32', 'crc32c']
    scripts = []
    if not c.thorough:
        edge = [f for f in feeds if any(x % 64 in (55, 56, 63, 0, 1) for x in (sum(f), f[-1]))]
        feeds = r.sample(edge, min(260, len(edge))) + r.sample(feeds, 140)
    for i, f in enumerate(feeds):
        for k in ([kinds[i % 2]] if i % 9 else kinds):
            scripts.append(' '.join(['new,' + k] + ['gen,%d,%d' % (n, i + j) for j, n in enumerate(f)] + (['final'] if k in kinds[:2] else [])))
    for i in range(c.q(60, 1500)):
        k = kinds[i % 4]
        scripts.append(' '.join(['new,' + k] + ['gen,%d,%d' % (r.choice([0, 1, 3, 55, 56, 57, 63, 64, 65, 100, 119, 120, 127, 128, 129, 200, r.randrange(400)]), r.randrange(1000)) for _ in range(r.randrange(1, 7))] + (['final'] if i % 4 < 2 else [])))
    # every byte through every table of the CRCs
    for k in kinds[2:]:
        scripts += [' '.join(['new,' + k, 'feed,%02x' % b, 'feed,%02x' % (b ^ 255)]) for b in range(256)]
    fast = c.build(['drv_digest'], san=False)['drv_digest']
    c.conform('drv_digest', fast, 'DigestTrace', ['long,md5,536870917,1048576', 'long,sha1,536870917,1000003'])
    exe = c.build(['drv_digest'])['drv_digest']
    small = []
    small += ['utf8,' + bytes(x).hex() for x in c.scripts_from_model('Utf8Impl', 'Utf8Impl_s.cfg')]
    small += ['utf8,%02x' % b for b in range(256)] + ['utf8,%02x%02x' % (a, b) for a in range(0xc0, 256) for b in ((0x7f, 0x80, 0xbf, 0xc0) if not c.thorough else range(256))]
    small += ['utf8,' + rnd_utf8(r).hex() for _ in range(c.q(3000, 60000))]
    al = 'A/+z9=-@\xff'
    small += ['dec,' + ''.join(x).encode('latin1').hex() for n in range(0, c.q(5, 7)) for x in itertools.product(al[:c.q(9, 6)], repeat=n)]
    small += ['dec,%02x414141' % b for b in range(256)] + ['dec,414141%02x' % b for b in range(256)] + ['dec,4141%02x3d' % b for b in range(256)]
    small += ['dec,' + rnd_b64(r).hex() for _ in range(c.q(3000, 40000))]
    small += ['enc,' + bytes(r.randrange(256) for _ in range(n)).hex() for n in range(0, 40) for _ in range(c.q(12, 200))]
    small += ['enc,%02x' % b for b in range(256)] + ['enc,ffff%02x' % b for b in range(256)]
    small += ['hex,' + bytes(range(256)).hex(), 'hex,'] + ['unhex,%02x%02x' % (b, d) for b in range(256) for d in (0x30, 0x46, 0x61, 0x67)] + ['unhex,30%02x' % b for b in range(256)]
    small += ['unhex,' + ''.join(r.choice('0123456789abcdefABCDEFgG/:@`') for _ in range(r.randrange(0, 9))).encode().hex() for _ in range(300)]
    r.shuffle(small)
    c.conform('drv_digest', exe, 'DigestTrace', scripts + group(small, 40), timeout=c.q(400, 3000))
