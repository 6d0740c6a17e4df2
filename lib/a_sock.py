ERR = {'epoll_create': 24, 'eventfd': 23, 'signalfd': 24, 'socket': 24, 'fcntl': 22, 'setsockopt': 105, 'bind': 98, 'listen': 98, 'connect': 101, 'epoll_ctl': 28}


def C31(c):
    r = c.rnd
    c.model('SockImpl', 'SockImpl.cfg')
    exe = c.build(['drv_sock'], fk=True)['drv_sock']
    scripts = []
    hs = c.scripts_from_model('SockImpl', 'SockImpl_s.cfg')
    hs = [h for h in hs if len(h) > 0]
    if not c.thorough:
        hs = r.sample(hs, min(len(hs), 1500))
    for h in hs:
        ops = ['loop']
        for x in h:
            if x[0] == 'fault':
                ops.append('fault,%s,%d,%d' % (x[1], x[2], ERR[x[1]]))
            else:
                ops += [','.join([x[0], str(x[1])] + ([x[2]] if x[2] else [])), 'nofault']
        scripts.append(' '.join(ops))
    ip4 = ['10.0.0.7', '127.0.0.1', '0.0.0.0', '255.255.255.255']
    ip6 = ['::1', 'fe80::1', '2001:db8::7']
    mc4 = ['239.1.2.3', '224.0.0.1', '239.255.255.255']
    mc6 = ['ff02::1', 'ff05::7']
    near = ['223.255.255.255', '240.0.0.1', 'feff::1']
    sizes = [0, 0, 0, 1024, 4096, 65536, 1000003]

    def ops1(sigid, kinds):
        i = r.choice([1, 2, 3, 4])
        k = r.choice(kinds)
        z = lambda: r.choice(sizes)
        b = lambda: r.randrange(2)
        ad = lambda: r.choice(['', '', 'eth0', 'lo', '10.0.0.5', '127.0.0.1', 'wlan9', '1.2.3'])
        if k == 'tc':
            return ['tc,%d,%s,%d,%d,%d,%d' % (i, r.choice(ip4 + ip6), r.choice([1, 80, 7001, 65535]), z(), z(), b())]
        if k == 'ac':
            return ['ac,%d,%s,%d,%d,%d,%d,%d,%d' % (i, r.choice(ip4 + ip6), r.choice([80, 7001, 7002]), b(), b(), b(), z(), z())]
        if k == 'ut':
            return ['ut,%d,%s,%d,%s' % (i, r.choice(ip4 + ip6 + mc4 * 2 + mc6 + near), r.choice([53, 7001]), ad())]
        if k == 'ur':
            return ['ur,%d,%s,%d,%s,%d,%d' % (i, r.choice(ip4 + ip6 + mc4 * 2 + mc6 + near), r.choice([53, 7001]), ad(), z(), z())]
        if k == 'sg':
            return ['sg,%d,%s' % (sigid, r.choice(['', '10', '10;12', '2', '15;2', '1;10']))] + (['del,%d' % sigid] if r.random() < .5 else [])
        if k == 'ttl':
            return ['ttl,%d,%d' % (i, r.choice([0, 1, 2, 64, 255]))]
        if k == 'arrive':
            return ['arrive,%d' % r.randrange(1, 60000), 'run', r.choice(['can,%d' % i, 'acc,%d,%d' % (i, r.choice([1, 2, 3, 4]))])]
        if k == 'acc':
            return ['acc,%d,%d' % (i, r.choice([1, 2, 3, 4]))]
        if k in ('tclose', 'loc', 'rem', 'can', 'del'):
            return ['%s,%d' % (k, i)]
        if k == 'imm':
            return ['imm,%d' % b()]
        return [k]
    KA = ['tc'] * 4 + ['ac'] * 3 + ['ut'] * 3 + ['ur'] * 3 + ['sg', 'ttl', 'ttl', 'tclose', 'loc', 'rem', 'del', 'pok', 'imm', 'loop', 'loopdel']
    KC = ['tc', 'tc', 'tc', 'pok', 'pok', 'loc', 'rem', 'rem', 'tclose', 'imm', 'del']
    KL = ['ac', 'run', 'arrive', 'arrive', 'arrive', 'can', 'acc', 'acc', 'loc', 'rem', 'tclose', 'del', 'tc', 'pok']
    for n in range(c.q(500, 10000)):      # connections arrive, are accepted into sockets which may be in use, with failures
        ops = ['loop']
        sizes_ = lambda: '%d,%d,%d,%d,%d' % (r.randrange(2), r.randrange(2), r.randrange(2), r.choice(sizes), r.choice(sizes))
        ops.append('ac,1,%s,7001,%s' % (r.choice(ip4 + ip6), sizes_()))
        for _ in range(r.choice([2, 4, 8])):
            t = r.choice([2, 3, 4])
            x = r.choice([['arrive,%d' % r.randrange(1, 60000), 'run'], ['can,1', 'acc,1,%d' % t], ['can,1', 'acc,1,%d' % t], ['acc,1,%d' % t], ['can,1'], ['rem,%d' % t], ['loc,%d' % t],
                          ['tclose,%d' % t], ['del,%d' % t], ['run'], ['tc,%d,%s,80,0,0,0' % (t, r.choice(ip4))], ['pok'],
                          ['can,1', 'fault,epoll_ctl,0,28', 'acc,1,%d' % t, 'nofault', 'loc,%d' % t, 'rem,%d' % t], ['ac,1,%s,7001,%s' % (r.choice(ip4), sizes_())]])
            ops += x
        scripts.append(' '.join(ops))
    for n in range(c.q(1500, 40000)):
        kinds = [KA, KA, KC, KL][n % 4]
        ops = ['loop']
        if r.random() < .1:
            ops = ['fault,%s,0,24' % r.choice(['epoll_create', 'eventfd', 'epoll_ctl']), 'loop', 'nofault', 'loop']
        for _ in range(r.choice([3, 6, 12])):
            x = ops1(5, kinds)
            if r.random() < .25:
                f = r.choice(list(ERR))
                ops.append('fault,%s,%d,%d' % (f, r.choice([0, 0, 0, 1, 2, 3]), ERR[f]))
                x = x + ['nofault']
            ops += x
            if x[0] == 'loopdel' and r.random() < .8:
                ops.append('loop')
        scripts.append(' '.join(ops))
    c.conform('drv_sock', exe, 'SockTrace', scripts, timeout=c.q(400, 3000))
