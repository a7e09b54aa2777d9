"""Concrete programs (sequences of API calls) for the driver. Python only picks inputs; it judges nothing."""
import random

def hx(cols):
    return ''.join('%02x%02x%02x%02x' % tuple(c) for c in cols)

def col(c):
    return '%02x%02x%02x%02x' % tuple(c)

class P:
    def __init__(self, pid, capi=False):
        self.id = pid
        self.lines = []
        self.n = 0
        self.capi = capi
    def __call__(self, line):
        self.lines.append(line)
        return self
    def px(self, name, w, h, pixels):
        assert len(pixels) == w * h
        return self('px %s %d %d %s' % (name, w, h, hx(pixels)))
    def gen(self, name, w, h, kind, seed, k=0):
        return self('gen %s %d %d %s %d %d' % (name, w, h, kind, seed, k))
    def map(self, name, values):
        return self('map %s %s' % (name, bytes(values).hex() or '-'))
    def text(self):
        return '\n'.join(['P ' + self.id] + (['CAPI' if self.capi is True else 'CAPI ' + self.capi] if self.capi else []) + self.lines) + '\n'
    def as_(self, capi, first=()):
        q = P(self.id, capi)
        q.lines = list(first) + self.lines
        return q

def rcolor(r, alpha='mix'):
    a = 255
    if alpha == 'mix':
        k = r.random()
        a = 255 if k < .6 else 0 if k < .75 else r.choice([1, 2, 127, 128, 200, 254, r.randrange(256)])
    elif alpha == 'any':
        a = r.randrange(256)
    elif alpha == 'semi':
        a = r.randrange(1, 255)
    k = r.random()
    if k < .15:
        return (r.choice([0, 255]), r.choice([0, 255]), r.choice([0, 255]), a)
    if k < .25:
        v = r.randrange(256)
        return (v, v, v, a)
    return (r.randrange(256), r.randrange(256), r.randrange(256), a)

def palette(r, n, alpha='mix'):
    s = []
    while len(s) < n:
        c = rcolor(r, alpha)
        if c not in s:
            s.append(c)
    return s

def paint(r, w, h, pal, style=None):
    """places colors of pal on a w x h canvas; every color is used if there is room"""
    style = style or r.choice(['random', 'stripes', 'blocks', 'skewed'])
    n = w * h
    if style == 'random':
        px = [r.choice(pal) for _ in range(n)]
    elif style == 'stripes':
        px = [pal[(i // w) % len(pal)] for i in range(n)]
    elif style == 'blocks':
        px = [pal[((i % w) // 3 + (i // w) // 3 * 7) % len(pal)] for i in range(n)]
    else:
        px = [pal[min(int(r.random() ** 3 * len(pal)), len(pal) - 1)] for _ in range(n)]
    if n >= len(pal):
        for k, i in enumerate(r.sample(range(n), len(pal))):
            px[i] = pal[k]
    return px

REPS = ['owned', 'borrowed', 'stride', 'stridetrim', 'sborrowed', 'sborrowedtrim', 'fn']
GAMMAS = ['0', '0.45455', '0.55555', '0.3', '0.7', '1.0']
OUTG = ['0.45455', '0.55555', '0.3', '0.7']

def image(p, r, i, a, px, rep=None, g='0'):
    rep = rep or r.choice(REPS)
    p('I new %s %s %s %s %s %d' % (i, a, px, rep, g, r.choice([0, 1, 3]) if 's' in rep else 0))


def near(r, c):
    return tuple(max(0, min(255, v + r.choice([-1, 0, 0, 1]))) for v in c)

def neighbours(r, n, alpha='mix'):
    """colors that differ by one or two levels from each other"""
    s = [rcolor(r, alpha)]
    while len(s) < n:
        c = near(r, r.choice(s)) if r.random() < .8 else rcolor(r, alpha)
        if c not in s:
            s.append(c)
    return s

DIMS = [(1, 1), (1, 2), (2, 1), (1, 7), (9, 1), (2, 2), (3, 3), (3, 5), (4, 4), (5, 4), (7, 6), (13, 5), (8, 8), (16, 12), (24, 16), (31, 17)]

def anypal(r, maxn=400):
    n = min(maxn, r.choice([1, 2, 3, 4, 5, 8, 15, 16, 17, 40, 100, 254, 255, 256, 257, 300]))
    alpha = r.choice(['mix', 'opaque', 'opaque', 'any', 'semi'])
    return (neighbours if r.random() < .3 else palette)(r, n, alpha)

def anyimage(p, r, name, dims=None, pal=None):
    """defines pixels; returns (w, h, palette)"""
    pal = pal or anypal(r)
    w, h = dims or r.choice(DIMS)
    if not dims and r.random() < .5 and len(pal) > w * h:
        w, h = r.choice([(20, 20), (24, 16), (17, 25)])
    p.px(name, w, h, paint(r, w, h, pal))
    return w, h, pal

def attrs(p, r, a, max_=None, quality=True, post=True, speeds=(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)):
    p('A new %s%s' % (a, r.choice(['', '', ' default'])))
    if max_ or r.random() < .7: p('A max %s %d' % (a, max_ or r.choice([2, 3, 4, 5, 8, 16, 31, 64, 255, 256])))
    if r.random() < .7: p('A speed %s %d' % (a, r.choice(speeds)))
    if quality and r.random() < .4:
        t = r.choice([100, 100, 95, 80, 50, 20, 0])
        p('A q %s %d %d' % (a, r.choice([0, 0, min(t, 30), t, min(t, 70)]), t))
    if post and r.random() < .25: p('A post %s %d' % (a, r.choice([1, 2, 3, 4])))
    if r.random() < .35: p('A lit %s 1' % a)

def remaps(p, r, q, i, n=2):
    for k in range(n):
        if r.random() < .6: p('R dith %s %s' % (q, r.choice(['0', '0', '0', '1', '0.5', '0.01'])))
        p('M %s %s %s %d' % (q, i, r.choice(['remapped', 'into', 'vec', 'into']), r.choice([0, 0, 1, 7])))

def weigh(p, r, i, chance):
    """importance map of the image, sometimes"""
    if r.random() < chance:
        m = [r.choice([0, 0, 1, 9, 255]) for _ in range(p.dims[0] * p.dims[1])]
        m[0] = 255
        p.map('mw', m)('I imp %s mw' % i)

# ---------------------------------------------------------------- pools: what the inputs are, per part of the system
def quant(r, pid):
    """palette of one image, and remapping of it"""
    p = P(pid)
    p.dims = anyimage(p, r, 'p0')[:2]
    attrs(p, r, 'a0')
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', '0.45455', '0.55555', '0.3', '0.7']))
    weigh(p, r, 'i0', .12)
    p('Q r0 a0 i0')
    if r.random() < .5: p('R pal r0')
    weigh(p, r, 'i0', .08)
    remaps(p, r, 'r0', 'i0', 3)
    p('R pal r0')
    return p

def lossless(r, pid):
    """images that fit in the palette, with or without dithering, from every representation"""
    p = P(pid)
    n = r.choice([1, 2, 3, 7, 16, 33, 128, 255, 256])
    pal = (neighbours if r.random() < .4 else palette)(r, n, r.choice(['mix', 'opaque', 'any', 'semi']))
    w, h = r.choice([d for d in DIMS + [(16, 16), (20, 14), (300, 1), (1, 300), (20, 20), (7, 140)] if d[0] * d[1] >= min(n, 60)])
    p.px('p0', w, h, paint(r, w, h, pal))
    attrs(p, r, 'a0', max_=r.choice([None, max(2, n), min(256, n + 1), 256]), quality=False, post=False)
    if r.random() < .3: p('A q a0 %d 100' % r.choice([0, 50, 100]))
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', '0.45455', '0.55555', '0.3', '1.0']))
    for _ in range(r.choice([0, 0, 1, 3])): p('I fix i0 %s' % col(r.choice(pal) if r.random() < .5 else rcolor(r)))
    if r.random() < .3:
        p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else:
        p('Q r0 a0 i0')
    if r.random() < .3: p('R pal r0')
    remaps(p, r, 'r0', 'i0', 3)
    return p

def fixed(r, pid):
    p = P(pid)
    w, h, pal = anyimage(p, r, 'p0')
    attrs(p, r, 'a0')
    image(p, r, 'i0', 'a0', 'p0')
    hist = r.random() < .4
    n = r.choice([1, 1, 2, 3, 5, 16, 30, 255, 256, 257, 270]) if r.random() < .9 else 0
    fx = []
    for _ in range(n):
        k = r.random()
        c = r.choice(pal) if k < .35 else near(r, r.choice(pal)) if k < .55 else (rcolor(r)[:3] + (0,)) if k < .6 else r.choice(fx) if fx and k < .7 else rcolor(r, r.choice(['mix', 'opaque', 'any']))
        fx.append(c)
    if hist:
        p('H new h0 a0')
        onimg = r.random() < .5
        for c in fx: p(('I fix i0 %s' % col(c)) if onimg else ('H fix h0 %s %s' % (r.choice(['0', '0.45455']), col(c))))
        if r.random() < .9: p('H img h0 a0 i0')
        p('HQ r0 a0 h0')
    else:
        for c in fx: p('I fix i0 %s' % col(c))
        p('Q r0 a0 i0')
    p('R pal r0')
    remaps(p, r, 'r0', 'i0', 2)
    p('R dith r0 1')('M r0 i0 remapped 0')('R pal r0')
    return p

def quality(r, pid):
    p = P(pid)
    anyimage(p, r, 'p0')
    p('A new a0')
    if r.random() < .6: p('A max a0 %d' % r.choice([2, 3, 4, 8, 20, 100, 256]))
    p('A speed a0 %d' % r.choice([1, 3, 4, 5, 7, 8, 10]))
    t = r.choice([100, 100, 99, 90, 70, 40])
    p('A q a0 %d %d' % (r.choice([1, t // 2, t - 1, t, t]), t))
    if r.random() < .2: p('A post a0 %d' % r.choice([1, 2, 3]))
    image(p, r, 'i0', 'a0', 'p0')
    if r.random() < .3: p('I fix i0 %s' % col(rcolor(r)))
    if r.random() < .4: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    # one attribute at a time around the threshold
    for q in r.sample(range(0, 101), 3):
        p('A q a0 %d %d' % (q, max(q, r.choice([q, 100]))))('Q r1 a0 i0')
    p('M r0 i0 remapped 0')('M r1 i0 remapped 0')
    return p

def foreign(r, pid):
    """remapping of images other than the one the palette was made for"""
    p = P(pid)
    w, h, pal = anyimage(p, r, 'p0')
    if r.random() < .5: pal = [near(r, c) for c in pal] + palette(r, 3)
    w2, h2 = (w, h) if r.random() < .3 else r.choice(DIMS)
    p.px('p1', w2, h2, paint(r, w2, h2, pal))
    attrs(p, r, 'a0', quality=False)
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', '0.55555']))
    image(p, r, 'i1', 'a0', 'p1', g=r.choice(['0', '0', '0.55555', '0.3']))
    if r.random() < .5: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    for _ in range(4):
        if r.random() < .3: p('R dith r0 %s' % r.choice(['0', '0', '1', '0.6']))
        if r.random() < .2: p('R gam r0 %s' % r.choice(OUTG))
        p('M r0 %s %s %d' % (r.choice(['i0', 'i1', 'i1']), r.choice(['remapped', 'vec', 'into', 'small']), r.choice([0, 1, 5])))
    return p

def background(r, pid):
    p = P(pid)
    w, h = r.choice([d for d in DIMS if d[0] * d[1] > 1])
    pal = palette(r, r.choice([2, 3, 5, 9, 30]), r.choice(['mix', 'opaque']))
    if r.random() < .6 and not any(c[3] == 0 for c in pal): pal.append((9, 9, 9, 0))
    fg = paint(r, w, h, pal)
    bgpal = [r.choice(pal) if r.random() < .6 else near(r, r.choice(pal)) for _ in range(4)] + palette(r, 2, 'opaque')
    if r.random() < .8: bgpal = [c for c in bgpal if c[3]] or [(1, 2, 3, 255)]
    bg = [c if r.random() < .4 and c[3] else r.choice(bgpal) for c in fg]
    if r.random() < .15: bg = list(fg)
    p.px('p0', w, h, fg).px('p1', w, h, bg)
    attrs(p, r, 'a0', quality=False, post=r.random() < .3)
    g = r.choice(['0', '0', '0.45455', '0.55555'])
    image(p, r, 'i0', 'a0', 'p0', g=g)
    image(p, r, 'i1', 'a0', 'p1', g=g if r.random() < .8 else '0.3')
    if r.random() < .3: p('I fix i0 00000000')
    early = r.random() < .6
    if early: p('I bg i0 i1')
    if r.random() < .4: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    if not early: p('I bg i0 i1')
    for _ in range(3):
        if r.random() < .6: p('R dith r0 %s' % r.choice(['0', '0', '1', '0.3']))
        p('M r0 i0 %s 0' % r.choice(['remapped', 'into']))
    return p

def importance(r, pid):
    """pairs of images that differ only where importance is 0"""
    p = P(pid)
    w, h = r.choice(DIMS)
    pal = anypal(r, r.choice([60, 60, 300]))
    a = paint(r, w, h, pal)
    z = r.choice([0, .3, .7, .95, 1])
    m = [0 if r.random() < z else r.choice([1, 2, 100, 255]) for _ in range(w * h)]
    other = palette(r, 5)
    b = [c if v else r.choice(other) for c, v in zip(a, m)]
    p.px('p0', w, h, a).px('p1', w, h, b).map('m0', m)
    p.map('m1', m[:-1] if r.random() < .5 else m + [1])
    attrs(p, r, 'a0', quality=r.random() < .3)
    for k, i in enumerate(('i0', 'i1')):
        image(p, r, i, 'a0', 'p%d' % k)
        if r.random() < .2: p('I imp %s m1' % i)
        p('I imp %s m0' % i)
        if r.random() < .2: p('I imp %s m1' % i)
        p('Q r%d a0 %s' % (k, i))
    if r.random() < .5:
        for k, i in enumerate(('i0', 'i1')):
            p('H new h%d a0' % k)('H img h%d a0 %s' % (k, i))
            if r.random() < .3: p('H img h%d a0 %s' % (k, i))
            p('HQ r%d a0 h%d' % (k, k))
    # the map is still the user's after everything
    for d in r.sample(['0', '1', '0.5'], 2):
        p('R dith r0 %s' % d)('M r0 i0 remapped 0')('R dith r1 %s' % d)('M r1 i1 remapped 0')
    p('Q r0 a0 i0')('M r0 i0 into 0')('I imp i0 m0')('Q r1 a0 i0')('M r1 i0 into 0')
    return p

def weights(r, pid):
    """popularity of colors follows importance / counts"""
    p = P(pid)
    n = r.choice([2, 3, 5, 9, 20, 60])
    pal = palette(r, n, r.choice(['mix', 'opaque', 'semi']))
    p('A new a0')
    p('A speed a0 %d' % r.choice([8, 9, 10, 4, 1]))
    if r.random() < .3: p('A lit a0 1')
    if r.random() < .5:
        w, h = r.choice([(20, 11), (16, 12), (3, 30), (31, 17)])
        px = paint(r, w, h, pal, r.choice(['skewed', 'random']))
        p.px('p0', w, h, px)
        image(p, r, 'i0', 'a0', 'p0')
        if r.random() < .6:
            bias = {c: r.choice([0, 1, 3, 50, 255]) for c in pal}
            p.map('m0', [bias[c] for c in px])('I imp i0 m0')
        if r.random() < .5: p('Q r0 a0 i0')
        p('H new h0 a0')('H img h0 a0 i0')
        if r.random() < .4: p('H img h0 a0 i0')
        p('HQ r1 a0 h0')
    else:
        p('H new h0 a0')
    counts = r.choice([[0, 1, 2, 7, 30, 1000], [0, 1, 2, 7, 30, 1000], [1, 2**31 - 1, 2**31, 2**32 - 1, 3 * 10**9, 5 * 10**8, 10**6, 0], [2**24 - 1, 2**24, 2**24 + 1000, 2**25, 2**28, 2**30]])
    for _ in range(r.choice([0, 1, 2, 4])):
        p('H col h0 %s %s' % (r.choice(['0', '0', '0.55555']), ','.join('%s:%d' % (col(r.choice(pal)), r.choice(counts)) for _ in range(r.randint(1, 12)))))
        if r.random() < .4: p('H fix h0 0 %s' % col(r.choice(pal)))
        p('HQ r1 a0 h0')
    p('HQ r1 a0 h0')
    return p

def near_colors(r, n):
    """colors that become the same when low bits are ignored"""
    out = []
    while len(out) < n:
        c = rcolor(r)
        if r.random() < .6: c = (c[0], c[1], c[2], 255)
        for _ in range(r.choice([1, 1, 2, 3, 6])): out.append(tuple(min(255, max(0, x + r.randint(0, r.choice([1, 3])))) if k < 3 or r.random() < .2 else x for k, x in enumerate(c)))
    return list(dict.fromkeys(out))[:n]

def merging(r, pid):
    """a histogram in which colors become the same, all at once or after they have been added"""
    p = P(pid)
    pal = near_colors(r, r.choice([4, 8, 20, 60]))
    p('A new a0')('A new a1')
    p('A speed a0 %d' % r.choice([4, 7, 8, 10]))
    p('A speed a1 %d' % r.choice([4, 7, 8, 10]))
    if r.random() < .7: p('A post a1 %d' % r.choice([1, 2, 3, 4]))
    if r.random() < .2: p('A lit a0 1')
    p('H new h0 %s' % r.choice(['a0', 'a0', 'a1']))
    w, h = r.choice([(3, 3), (5, 2), (12, 9), (31, 3)])
    for k in range(2):
        p.px('p%d' % k, w, h, paint(r, w, h, pal, r.choice(['skewed', 'random'])))
        image(p, r, 'i%d' % k, 'a0', 'p%d' % k, g='0')
        if r.random() < .4: p.map('m%d' % k, [r.choice([0, 1, 20, 255]) for _ in range(w * h)])('I imp i%d m%d' % (k, k))
    counts = r.choice([[1, 2, 7, 30, 1000], [1, 50, 51, 99, 100, 101], [2**31, 2**32 - 1, 3 * 10**9, 10**6], [10**7, 2 * 10**7, 3 * 10**7]])
    for _ in range(r.randint(1, 4)):
        if r.random() < .5: p('H img h0 %s i%d' % (r.choice(['a0', 'a1', 'a1']), r.randrange(2)))
        else: p('H col h0 0 %s' % ','.join('%s:%d' % (col(r.choice(pal)), r.choice(counts)) for _ in range(r.randint(1, 14))))
        p('HQ r1 a0 h0')
    p('H img h0 a1 i0')('HQ r1 a0 h0')('Q r0 a0 i0')
    return p

def hist(r, pid):
    p = P(pid)
    dims = r.choice(DIMS)
    pal = anypal(r, 60)
    for k in range(3): p.px('p%d' % k, *dims, paint(r, *dims, r.sample(pal, max(1, len(pal) // r.choice([1, 2, 3])))))
    attrs(p, r, 'a0', quality=r.random() < .3)
    p('A copy a1 a0')
    if r.random() < .3: p('A speed a1 %d' % r.choice([1, 7, 8, 10]))
    for k in range(3): image(p, r, 'i%d' % k, 'a0', 'p%d' % k, g=r.choice(['0', '0', '0.45455', '0.55555']))
    p('H new h0 a0')
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < .55: p('H img h0 %s i%d' % (r.choice(['a0', 'a1']), r.randrange(3)))
        elif k < .8: p('H col h0 %s %s' % (r.choice(['0', '0.45455', '0.55555', '1.0', '-0.1']), ','.join('%s:%d' % (col(r.choice(pal) if r.random() < .6 else rcolor(r)), r.choice([0, 1, 3, 500])) for _ in range(r.randint(0, 6))) or '-'))
        else: p('H fix h0 %s %s' % (r.choice(['0', '0', '1.0', 'nan']), col(r.choice(pal) if r.random() < .5 else rcolor(r))))
        if r.random() < .2: p('HQ r1 a1 h0')
    p('HQ r0 a0 h0')
    for k in range(3):
        if r.random() < .25: p('R clone r2 r0')('R pal r2')('M r2 i%d %s 0' % (r.randrange(3), r.choice(['remapped', 'into'])))('R pal r2')
        if r.random() < .5: p('R dith r0 %s' % r.choice(['0', '1']))
        p('M r0 i%d %s 0' % (k, r.choice(['remapped', 'into'])))('R pal r0')
    return p

def gammas(r, pid):
    p = P(pid)
    anyimage(p, r, 'p0')
    attrs(p, r, 'a0', quality=False, post=r.random() < .3)
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(GAMMAS))
    if r.random() < .4: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    for _ in range(5):
        k = r.random()
        if k < .5: p('R gam r0 %s' % r.choice(OUTG + OUTG + ['0.461', '0.461', '0.306', '0.306', '0', '1', '-1', 'nan', 'inf', '0.99', '1.00001']))
        elif k < .7: p('R dith r0 %s' % r.choice(['0', '1', '0.5']))
        elif k < .85: p('R pal r0')
        else: p('M r0 i0 remapped 0')
    p('R dith r0 0')('M r0 i0 remapped 0')
    return p

def representations(r, pid):
    """the same pixels in every representation"""
    p = P(pid)
    anyimage(p, r, 'p0')
    attrs(p, r, 'a0')
    g = r.choice(['0', '0.55555'])
    fx = [rcolor(r) for _ in range(r.choice([0, 0, 2]))]
    p('H new h0 a0')
    dith = r.choice(['0', '1', '0.7'])
    for k, rep in enumerate(r.sample(REPS, 7)):
        image(p, r, 'i0', 'a0', 'p0', rep, g)
        for c in fx: p('I fix i0 ' + col(c))
        if r.random() < .3: p('I clone i1 i0')('I drop i0')('I clone i0 i1')
        p('Q r0 a0 i0')
        p('R dith r0 %s' % dith)('M r0 i0 %s 0' % r.choice(['remapped', 'vec', 'into']))('M r0 i0 into 3')
    return p

def clones(r, pid):
    p = P(pid)
    tall = r.random() < .12
    dims = r.choice([(2, 150), (5, 131), (9, 140)] if tall else DIMS)
    pal = anypal(r, 40)
    p.px('p0', *dims, paint(r, *dims, pal)).px('p1', *dims, paint(r, *dims, pal))
    n = dims[0] * dims[1]
    p.map('m0', [r.choice([0, 1, 255]) for _ in range(n)]).map('m1', [r.choice([1, 9]) for _ in range(n)])
    attrs(p, r, 'a0', quality=False)
    if tall: p('A max a0 %d' % r.choice([3, 8]))('A speed a0 %d' % r.choice([1, 1, 1, 4, 7, 10]))
    image(p, r, 'i0', 'a0', 'p0')
    live = {'i0'}
    p('Q r0 a0 i0')
    res = {'r0'}
    for _ in range(14):
        i = r.choice(sorted(live))
        q = r.choice(sorted(res))
        k = r.random()
        if k < .2: j = r.choice(['i0', 'i1', 'i2']); p('I clone %s %s' % (j, i)); live.add(j)
        elif k < .28 and len(live) > 1: p('I drop %s' % i)('churn'); live.discard(i)
        elif k < .36: p('I fix %s %s' % (i, col(rcolor(r))))
        elif k < .44: p('I imp %s %s' % (i, r.choice(['m0', 'm1'])))
        elif k < .5: image(p, r, 'b', 'a0', 'p1'); p('I bg %s b' % i)
        elif k < .64: q = r.choice(['r0', 'r1']); p('Q %s a0 %s' % (q, i)); res.add(q)
        elif k < .72: j = r.choice(['r0', 'r1', 'r2']); p('R clone %s %s' % (j, q)); res.add(j)
        elif k < .78: p('R dith %s %s' % (q, r.choice(['0', '1', '.5'])))
        elif k < .82: p('R gam %s %s' % (q, r.choice(OUTG)))
        elif k < .85 and len(res) > 1: p('R drop %s' % q); res.discard(q)
        elif k < .88: p('R pal %s' % q)
        else: p('M %s %s %s 0' % (q, i, r.choice(['remapped', 'into'])))
    for i in sorted(live):
        for q in sorted(res): p('M %s %s remapped 0' % (q, i))
        p('Q r0 a0 %s' % i); res.add('r0')
    return p

def rawimages(r, pid, capi=False):
    """creation of images from valid and invalid parameters"""
    p = P(pid)
    p('A new a0')
    big = [2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**62, 2**63, 2**64 - 1, 2**64 - 2, 46341, 65536]
    for _ in range(40):
        rep = r.choice(['owned', 'borrowed', 'stride', 'sborrowed', 'fn'])
        w, h = r.choice([0, 1, 2, 3, 5, 9]), r.choice([0, 1, 1, 2, 3, 7])
        stride = r.choice([w, w, w + 1, w + 3, max(0, w - 1), 0])
        n = (h - 1) * stride + w if h else 0
        ln = max(0, r.choice([n, n, n, n - 1, n + 1, w * h, stride * h, 0, n + 9]))
        if r.random() < .25:
            k = r.randrange(3)
            if k == 0: w = r.choice(big)
            elif k == 1: h = r.choice(big)
            else: stride = r.choice(big)
            if r.random() < .3: w, h = r.choice(big), r.choice(big)
        g = r.choice(['0', '0', '0.45455', '1.0', '1.00001', '-0.00001', 'nan', 'inf', '-inf', '0.5'])
        if rep == 'fn' and not w * h < 2**60 and r.random() < .5: continue
        p('I raw i0 a0 %s %d %d %d %d %s' % (rep, min(ln, 3000), w, h, stride, g))
    return p

def rawimages_c(r, pid):
    p = P(pid, True)
    p('A new a0')
    big = [2**31 - 1, -1, -2**31, 46341, 65536, 32768, 16384, 536870911, 1 << 29]
    for _ in range(40):
        w, h = r.choice([0, 1, 2, 5, -1] + big[:1]), r.choice([0, 1, 3, -5])
        if r.random() < .3: w, h = r.choice(big + [1, 2, 3]), r.choice(big + [1, 2, 3])
        g = r.choice(['0', '0', '0.45455', '1.0', '1.00001', '-0.00001', 'nan', 'inf', '-inf'])
        if w > 0 and h > 0 and w * h > 4000:
            rep = r.choice(['custom', 'rgba'] + (['rows'] if h < 60 else []))
            p('I raw i0 a0 %s 0 %d %d 0 %s' % (rep, w, h, g))
        else:
            p('I raw i0 a0 %s %d %d %d 0 %s' % (r.choice(['rgba', 'rows', 'custom']), 4100, w, h, g))
    return p

def posterize(r, pid):
    p = P(pid)
    anyimage(p, r, 'p0')
    p('A new a0')
    b = r.choice([1, 2, 3, 4])
    p('A post a0 %d' % b)
    if r.random() < .6: p('A max a0 %d' % r.choice([2, 4, 16, 256]))
    if r.random() < .6: p('A speed a0 %d' % r.choice([1, 4, 8, 10]))
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0.55555', '0.3']))
    for _ in range(r.choice([0, 1, 4])): p('I fix i0 %s' % col(rcolor(r)))
    if r.random() < .4: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    p('R pal r0')
    if r.random() < .4: p('R gam r0 %s' % r.choice(OUTG))('R pal r0')
    remaps(p, r, 'r0', 'i0', 3)
    return p

def order(r, pid):
    """opaque and transparent colors, both orders of the palette"""
    p = P(pid)
    n = r.choice([2, 3, 5, 12, 40, 200])
    pal = palette(r, n, r.choice(['mix', 'any', 'semi']))
    if r.random() < .5: pal.append((0, 0, 0, 0))
    if r.random() < .5: pal.append(rcolor(r, 'opaque'))
    anyimage(p, r, 'p0', r.choice([(16, 16), (20, 11), (9, 3)]), pal)
    p('A new a0')
    if r.random() < .7: p('A lit a0 1')
    if r.random() < .2: p('A lit a0 1')('A lit a0 0')
    if r.random() < .7: p('A max a0 %d' % r.choice([2, 3, 4, 8, 40, 256]))
    p('A speed a0 %d' % r.choice([1, 4, 7, 8, 10]))
    image(p, r, 'i0', 'a0', 'p0')
    for _ in range(r.choice([0, 1, 3])): p('I fix i0 %s' % col(rcolor(r, r.choice(['mix', 'semi', 'any']))))
    if r.random() < .4: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    p('R dith r0 0')('M r0 i0 remapped 0')('R pal r0')
    return p

def abort(r, pid):
    p = P(pid)
    anyimage(p, r, 'p0')
    attrs(p, r, 'a0')
    image(p, r, 'i0', 'a0', 'p0')
    k = r.randint(1, 14)
    p('A prog a0 %s %d' % (r.choice(['persist', 'once', 'none']), k))
    p('H new h0 a0')
    p('Q r0 a0 i0')('H img h0 a0 i0')('HQ r0 a0 h0')
    p('A prog a0 none 1')('Q r0 a0 i0')('HQ r1 a0 h0')
    p('R prog r0 %s %d' % (r.choice(['persist', 'once']), r.randint(1, 9)))
    if r.random() < .5: p('R dith r0 0')
    p('M r0 i0 %s 0' % r.choice(['remapped', 'into']))('R prog r0 none 1')('M r0 i0 into 0')
    return p

def gradients(r, pid, big=False):
    """larger images made by a recipe"""
    p = P(pid)
    w, h = r.choice([(64, 48), (40, 130), (33, 70), (150, 20)]) if not big else r.choice([(256, 200), (300, 300), (97, 400), (64, 513), (700, 130)])
    kind, k = r.choice([('grad', 0), ('agrad', 0), ('noise', 300), ('noise', 3000), ('rand', 0), ('many', 5000), ('bands', 400), ('grad', 0)])
    p.gen('p0', w, h, kind, r.randrange(1, 1000), k)
    attrs(p, r, 'a0', speeds=(1, 3, 4, 5, 8, 10) if not big else (3, 4, 5, 7, 10))
    image(p, r, 'i0', 'a0', 'p0')
    if r.random() < .3: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    remaps(p, r, 'r0', 'i0', 2)
    p('R dith r0 0')('M r0 i0 into 0')
    return p

def soak(r, pid, nops=30, capi_ops=False):
    """random walk over the whole API"""
    p = P(pid)
    dims = {}
    base = (r.randint(1, 24), r.randint(1, 16))
    for k in range(r.randint(1, 3)):
        w, h = base if r.random() < .7 else (r.randint(1, 20), r.randint(1, 20))
        dims['p%d' % k] = (w, h)
        p.px('p%d' % k, w, h, paint(r, w, h, palette(r, r.choice([1, 2, 3, 5, 8, 17, 40, 300]), r.choice(['mix', 'opaque', 'any']))))
    maps = {}
    for k in range(2):
        w, h = r.choice(list(dims.values()))
        n = w * h if r.random() < .8 else w * h + r.choice([-1, 1])
        z = r.random()
        maps['m%d' % k] = n
        p.map('m%d' % k, [0 if r.random() < z else r.choice([1, 80, 255, r.randrange(256)]) for _ in range(n)])
    p(r.choice(['A new a0', 'A new a0', 'A new a0 default']))
    A, I, H, R = {'a0'}, {'i0'}, set(), set()
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(GAMMAS[:2] + GAMMAS))
    for _ in range(nops):
        k = r.random()
        a, i = r.choice(sorted(A)), r.choice(sorted(I))
        q = r.choice(sorted(R)) if R else None
        na, ni, nr = r.choice(['a0', 'a1']), r.choice(['i0', 'i1', 'i2']), r.choice(['r0', 'r1'])
        if k < .03:
            if len(A) > 1: p('A drop %s' % a); A.discard(a)
            else: p('A new %s' % na); A.add(na)
        elif k < .07: p('A copy %s %s' % (na, a)); A.add(na)
        elif k < .18:
            what = r.choice(['max', 'q', 'speed', 'post', 'lit', 'speed', 'max'])
            if what == 'max': p('A max %s %d' % (a, r.choice([2, 3, 4, 8, 16, 255, 256, 1, 0, 257, r.randrange(400)])))
            if what == 'q': p('A q %s %d %d' % (a, r.choice([0, 0, 10, 50, 90, 101]), r.choice([100, 100, 0, 60, 95, 101, 255])))
            if what == 'speed': p('A speed %s %d' % (a, r.choice([1, 3, 4, 7, 8, 10, 0, 11, -1])))
            if what == 'post': p('A post %s %d' % (a, r.choice([0, 0, 0, 1, 2, 4, 5])))
            if what == 'lit': p('A lit %s %d' % (a, r.randrange(2)))
        elif k < .21: p('A prog %s %s %d' % (a, r.choice(['none', 'once', 'persist']), r.randint(1, 12)))
        elif k < .23: p('A log %s %s t%d' % (a, r.choice(['log', 'flush']), r.randrange(9)))
        elif k < .31:
            g = r.choice(GAMMAS + ['0'] * 4 + ['1.5', 'nan', '-1'])
            image(p, r, ni, a, r.choice(list(dims)), g=g)
            if g not in GAMMAS: I.discard(ni)
            else: I.add(ni)
            if not I: image(p, r, 'i0', a, 'p0'); I.add('i0')
        elif k < .35: p('I clone %s %s' % (ni, i)); I.add(ni)
        elif k < .37:
            if len(I) > 1: p('I drop %s' % i); I.discard(i)
        elif k < .42: p('I imp %s %s' % (i, r.choice(list(maps))))
        elif k < .47: p('I fix %s %s' % (i, col(rcolor(r))))
        elif k < .5:
            if len(I) > 1: b = r.choice(sorted(I - {i})); p('I bg %s %s' % (i, b)); I.discard(b)
        elif k < .53 or (k < .62 and not H): p('H new h0 %s' % a); H.add('h0')
        elif k < .57: p('H img h0 %s %s' % (a, i))
        elif k < .6: p('H col h0 %s %s' % (r.choice(['0', '0', '0.45455', '0.55555', '1.0', 'nan']), ','.join('%s:%d' % (col(rcolor(r)), r.choice([0, 1, 5, 1000, r.randrange(100000)])) for _ in range(r.randint(0, 6))) or '-'))
        elif k < .62: p('H fix h0 %s %s' % (r.choice(['0', '0.45455', '1.5']), col(rcolor(r))))
        elif k < .7 or not q: p('Q %s %s %s' % (nr, a, i)); R.add(nr)
        elif k < .75:
            if H: p('HQ %s %s h0' % (nr, a)); R.add(nr)
        elif k < .79: p('R dith %s %s' % (q, r.choice(['0', '0', '1', '0.5', '-0.1', '1.1', 'nan'])))
        elif k < .81: p('R gam %s %s' % (q, r.choice(OUTG + ['0', '1', 'nan', '-1'])))
        elif k < .83: p('R clone %s %s' % (nr, q)); R.add(nr)
        elif k < .835: p('R drop %s' % q); R.discard(q)
        elif k < .86: p('R prog %s %s %d' % (q, r.choice(['none', 'once', 'persist']), r.randint(1, 4)))
        elif k < .88: p('R pal %s' % q)
        elif capi_ops and k < .91:
            p(r.choice(['I own %s %s' % (i, r.choice(['r', 'p', 'rp', 'c', '0', 'x', 'pc'])), 'A prog %s clear 0' % a, 'R prog %s clear 0' % q,
                        'A log %s %s -' % (a, r.choice(['log', 'flush'])), 'I imp %s %s %s' % (i, r.choice(list(maps)), r.choice(['own', 'bad', 'null'])),
                        'I own %s rp' % i, 'Q %s %s %s old' % (q, a, i), 'M %s %s rows 3' % (q, i)]))
        else: p('M %s %s %s %d' % (q, i, r.choice(['remapped', 'vec', 'into', 'small']), r.choice([0, 1, 7])))
    return p

# ---------------------------------------------------------------- programs generated from spec/GenLiq.tla
def concretize(r, pid, focus, body):
    p = P(pid)
    style = r.choice(['few', 'many', 'alpha'])
    pal = palette(r, {'few': 4, 'many': 40, 'alpha': 12}[style], {'few': 'mix', 'many': 'opaque', 'alpha': 'any'}[style])
    w, h = r.choice([(6, 5), (8, 8), (3, 3), (11, 4)])
    px = [paint(r, w, h, pal), paint(r, w, h, pal[:max(1, len(pal) // 2)] + palette(r, 2)), paint(r, w + 1, h, pal)]
    px[1] = [a if r.random() < .3 else b for a, b in zip(px[0], px[1])]
    tok = {'p0': 'p0', 'p1': 'p1', 'p2': 'p2', 'm0': 'm0', 'mz': 'mz', 'mh': 'mh', 'mw': 'mw',
           'c0': col(r.choice(pal)), 'c1': col(rcolor(r, 'opaque')), 'c2': col(near(r, r.choice(pal))), 't0': '0a0b0c00'}
    es = [','.join('%s:%d' % (col(r.choice(pal) if r.random() < .6 else rcolor(r)), r.choice([1, 3, 500])) for _ in range(4)) for _ in range(2)]
    tok.update(e0=es[0], e1=es[1], ez='%s:0' % col(rcolor(r)))
    text = ' '.join(body)
    maps = focus in ('image', 'own')
    if focus != 'attr':
        for k in range(3): p.px('p%d' % k, w + (k == 2), h, px[k])
    if maps:
        p.map('m0', [r.choice([1, 40, 255]) for _ in range(w * h)]).map('mz', [0] * (w * h)).map('mh', [r.choice([0, 0, 200]) for _ in range(w * h)]).map('mw', [1] * (w * h - 1))
    if focus != 'attr' or 'a0' not in body[0]: pass
    p('A new a0')
    if focus in ('result', 'image', 'hist', 'abort', 'own'):
        if r.random() < .7: p('A max a0 %d' % r.choice([2, 3, 5, 16, 256]))
        if r.random() < .6: p('A speed a0 %d' % r.choice([1, 3, 4, 5, 8, 10]))
        if r.random() < .2: p('A post a0 %d' % r.choice([1, 2]))
        if r.random() < .3: p('A lit a0 1')
    if focus == 'image':
        p('A copy a8 a0')('A speed a8 %d' % r.choice([8, 10, 1]))
        image(p, r, 'i0', 'a0', 'p0', r.choice(REPS))
        image(p, r, 'i1', 'a0', 'p1', r.choice(REPS))
    if focus in ('result', 'hist', 'abort', 'log'):
        for k in range(3): image(p, r, 'i%d' % k, 'a0', 'p%d' % k, r.choice(REPS))
    if focus in ('result', 'abort'):
        p('H new h0 a0')('H img h0 a0 i0')
        if r.random() < .3: p('I fix i0 ' + tok['c1'])
    for l in body:
        if '$rep' in l:
            rep = r.choice(REPS)
            l = l.replace('$rep', rep) + (' 2' if 's' in rep else ' 0')
        for k in sorted(tok, key=len, reverse=True): l = l.replace('$' + k, tok[k])
        p(l)
    if focus == 'result':
        for q in ('r0', 'r1'): p('R pal %s' % q)('R dith %s 0' % q)('M %s i0 into 0' % q)('M %s i1 into 0' % q)
    if focus == 'image':
        for i in ('i0', 'i1', 'i2'): p('Q r9 a0 %s' % i)('R dith r9 0')('M r9 %s into 0' % i)
    if focus == 'hist':
        p('HQ r0 a0 h0')('R pal r0')('R dith r0 0')('M r0 i1 into 0')
    if focus == 'abort':
        p('A prog a0 none 1')('Q r0 a0 i0')('HQ r1 a0 h0')('M r0 i0 into 0')
    if focus == 'log':
        p('A drop a0')('A drop a1')
    return p

# ---------------------------------------------------------------- special pools
def as_c(p):
    p.capi = True
    return p
def foreign_c(r, pid):
    p = as_c(foreign(r, pid))
    p('M r0 i1 rows 3')('M r0 i0 rows 0')('M r0 i0 small 2')('M r0 i1 small 1')
    return p
def quality_c(r, pid): return as_c(quality(r, pid))
def background_c(r, pid): return as_c(background(r, pid))
def handed_over(p, r):
    """importance maps may be given to the library for good"""
    p.lines = [l + r.choice([' own', ' copy', '']) if l.startswith('I imp ') and len(l.split()) == 4 else l for l in p.lines]
    return p
def importance_c(r, pid): return handed_over(as_c(importance(r, pid)), r)

def largepal(r, pid):
    """palettes of more than 256 colors (large_palettes feature): cannot be remapped to bytes"""
    p = P(pid)
    n = r.choice([200, 256, 257, 400, 700])
    w, h = 30, 25
    p.px('p0', w, h, paint(r, w, h, palette(r, n, r.choice(['opaque', 'any']))))
    p('A new a0')
    if r.random() < .3: p('A max a0 256')
    p('A speed a0 %d' % r.choice([4, 8, 10]))
    image(p, r, 'i0', 'a0', 'p0')
    p('Q r0 a0 i0')('R pal r0')
    for d in r.sample(['0', '1', '0.5'], 2):
        p('R dith r0 %s' % d)('M r0 i0 %s 0' % r.choice(['remapped', 'into', 'vec']))
    p('R pal r0')
    return p

def fixed_large(r, pid):
    p = P(pid)
    p.px('p0', 5, 4, paint(r, 5, 4, palette(r, 6)))
    p('A new a0')
    image(p, r, 'i0', 'a0', 'p0')
    for c in palette(r, r.choice([257, 300, 500]), 'any'): p('I fix i0 %s' % col(c))
    p('Q r0 a0 i0')
    return p

INTS = [0, 1, 2, 3, 4, 5, 10, 11, 50, 99, 100, 101, 127, 128, 254, 255, 256, 257, 258, 260, 300, 356, 511, 512, 513, 1000, 65535, 65536, 65538, 1 << 24, 2**31 - 1, 2**31, 2**32 - 1]
def setters(r, pid):
    """every setter with all kinds of values"""
    p = P(pid)
    p('A new a0')('A copy a1 a0')
    for _ in range(60):
        a, what = r.choice(['a0', 'a1']), r.choice(['max', 'q', 'speed', 'post', 'lit'])
        if what == 'max': p('A max %s %d' % (a, r.choice(INTS[:-3] + list(range(0, 260, 7)))))
        if what == 'q': p('A q %s %d %d' % (a, r.randrange(0, 256) if r.random() < .3 else r.randrange(0, 104), r.randrange(0, 256) if r.random() < .2 else r.randrange(0, 104)))
        if what == 'speed': p('A speed %s %d' % (a, r.choice([-2**31, -1000, -256, -1, 0, 1, 2, 5, 9, 10, 11, 12, 100, 257, 260, 1025, 65537, 2**31 - 1])))
        if what == 'post': p('A post %s %d' % (a, r.choice([0, 1, 2, 3, 4, 5, 6, 8, 127, 128, 255])))
        if what == 'lit': p('A lit %s %d' % (a, r.randrange(2)))
        if r.random() < .1: p('A copy %s %s' % (a, 'a1' if a == 'a0' else 'a0'))
    return p

def setters_c(r, pid):
    p = P(pid, True)
    p('A new a0')('A copy a1 a0')
    ints = [-2**31, -2**31 + 1, -65536, -257, -256, -255, -128, -1] + INTS[:-2] + list(range(0, 120, 7))
    for _ in range(80):
        a, what = r.choice(['a0', 'a1']), r.choice(['max', 'q', 'speed', 'post', 'lit'])
        if what == 'q':
            v = r.choice(ints), r.choice(ints)
            if r.random() < .5: v = r.randrange(0, 104), r.randrange(0, 104)
            p('A q %s %d %d' % (a, *v))
        elif what == 'lit': p('A lit %s %d' % (a, r.choice([0, 1, 2, -1, 256])))
        else: p('A %s %s %d' % (what, a, r.choice(ints + list(range(0, 12)))))
        if r.random() < .1: p('A copy %s %s' % (a, 'a1' if a == 'a0' else 'a0'))
    return p

def lossless_big(r, pid):
    """many pixels, few colors; also rows above and below sizes at which the library changes its strategy"""
    p = P(pid)
    w, h = r.choice([(300, 200), (64, 300), (1000, 5), (128, 129), (90, 513)])
    k = r.choice([2, 50, 200, 256])
    p.gen('p0', w, h, r.choice(['noise', 'bands', 'many']), r.randrange(1, 1000), k)
    p('A new a0')('A speed a0 %d' % r.choice([1, 4, 5, 7, 10]))
    image(p, r, 'i0', 'a0', 'p0')
    p('Q r0 a0 i0')
    for d in r.sample(['0', '1', '0.5'], 2): p('R dith r0 %s' % d)('M r0 i0 %s 0' % r.choice(['remapped', 'into']))
    return p

def nearest(r, pid):
    """large palettes with clusters of nearly identical colors, transparent colors, and images that are far from the palette"""
    p = P(pid)
    n = r.choice([20, 64, 150, 256])
    pal = (neighbours if r.random() < .5 else palette)(r, n, r.choice(['mix', 'opaque', 'any', 'semi']))
    w, h = 20, 20
    p.px('p0', w, h, paint(r, w, h, pal))
    p.px('p1', w, h, paint(r, w, h, [near(r, c) for c in pal] + palette(r, 60, r.choice(['mix', 'any']))))
    p('A new a0')
    if r.random() < .3: p('A max a0 %d' % r.choice([7, 30, 100]))
    p('A speed a0 %d' % r.choice([1, 4, 8]))
    image(p, r, 'i0', 'a0', 'p0')
    image(p, r, 'i1', 'a0', 'p1', g=r.choice(['0', '0', '0.55555']))
    p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')('R dith r0 0')('M r0 i1 into 0')('M r0 i0 remapped 0')
    return p

def nearest_big(r, pid):
    p = P(pid)
    p.gen('p0', 300, 200, r.choice(['rand', 'grad', 'agrad']), r.randrange(1, 1000), 0)
    p('A new a0')('A speed a0 %d' % r.choice([4, 7, 10]))
    image(p, r, 'i0', 'a0', 'p0')
    p('Q r0 a0 i0')('R dith r0 0')('M r0 i0 into 0')
    return p

def gradients_abort(r, pid):
    p = P(pid)
    w, h = r.choice([(64, 48), (40, 260), (300, 300)])
    p.gen('p0', w, h, r.choice(['grad', 'noise', 'rand']), r.randrange(1, 1000), 2000)
    p('A new a0')('A speed a0 %d' % r.choice([3, 4, 7, 10]))
    image(p, r, 'i0', 'a0', 'p0')
    p('A prog a0 %s %d' % (r.choice(['persist', 'once']), r.choice([1, 2, 3, 4, 6, 9, 15, 25])))('Q r0 a0 i0')
    p('A prog a0 none 1')('Q r0 a0 i0')
    for d in r.sample(['0', '1'], 2):
        p('R dith r0 %s' % d)('R prog r0 %s %d' % (r.choice(['persist', 'once']), r.choice([1, 2, 3, 4, 8, 30])))('M r0 i0 into 0')
    p('R prog r0 none 1')('M r0 i0 into 0')
    return p

def schedules(r, pid):
    """images large enough for work to be divided between threads"""
    p = P(pid)
    w, h = r.choice([(300, 260), (513, 200), (64, 700), (1000, 150), (400, 128), (128, 127)])
    kind, k = r.choice([('grad', 0), ('agrad', 0), ('noise', 3000), ('rand', 0), ('many', 20000), ('bands', 300)])
    p.gen('p0', w, h, kind, r.randrange(1, 1000), k)
    p('A new a0')('A speed a0 %d' % r.choice([3, 4, 5, 7, 8, 10]))
    if r.random() < .4: p('A max a0 %d' % r.choice([2, 7, 16, 100]))
    if r.random() < .2: p('A q a0 0 %d' % r.choice([60, 80, 90]))
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0.55555']))
    if r.random() < .3: p('gmap m0 %d %d' % (w * h, r.randrange(1000)))('I imp i0 m0')
    if r.random() < .3:
        p.gen('p1', w, h, 'grad', r.randrange(1, 1000), 0)
        image(p, r, 'i1', 'a0', 'p1')
        p('I fix i0 00000000')('I bg i0 i1')
    if r.random() < .3: p('H new h0 a0')('H img h0 a0 i0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    for d in r.sample(['0', '1', '0.5'], 2): p('R dith r0 %s' % d)('M r0 i0 %s 0' % r.choice(['remapped', 'into']))
    return p

def extremes(r, pid):
    """unusual shapes, colors and settings"""
    p = P(pid)
    w, h = r.choice([(1, 1), (1, 1), (1, 5000), (5000, 1), (2, 300), (300, 2), (3, 4), (4, 3), (4, 4), (1, 129), (129, 1), (17, 257), (256, 256)])
    k = r.choice(['flat0', 'flat', 'alpha0', 'alphas', 'rand', 'gray', 'two', 'near'])
    n = w * h
    if n > 5000: p.gen('p0', w, h, r.choice(['rand', 'flat', 'many', 'agrad', 'grad']), r.randrange(1, 999), r.choice([1, 255, 256, 5000, 70000]))
    else:
        base = rcolor(r)
        px = {'flat0': lambda i: (0, 0, 0, 0), 'flat': lambda i: base, 'alpha0': lambda i: (r.randrange(256), i % 256, 3, 0), 'alphas': lambda i: base[:3] + (i % 256,),
              'rand': lambda i: rcolor(r, 'any'), 'gray': lambda i: (i % 256,) * 3 + (255,), 'two': lambda i: (255, 255, 255, 255) if i % 3 else (0, 0, 0, 0), 'near': lambda i: near(r, base)}[k]
        p.px('p0', w, h, [px(i) for i in range(n)])
    attrs(p, r, 'a0', max_=r.choice([None, 2, 256]))
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(GAMMAS + ['0.00001', '0.01', '0.99999']))
    if r.random() < .3: p('gmap m0 %d %d' % (n, r.randrange(99)))('I imp i0 m0')
    for _ in range(r.choice([0, 0, 1, 256])): p('I fix i0 %s' % col(rcolor(r, 'any')))
    if r.random() < .5:
        p('H new h0 a0')
        if r.random() < .7: p('H img h0 a0 i0')
        if r.random() < .7: p('H col h0 %s %s' % (r.choice(['0', '0.00001', '0.99999', '1.0']), ','.join('%s:%d' % (col(rcolor(r, 'any')), r.choice([0, 1, 2**31, 2**32 - 1])) for _ in range(5))))
        p('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    p('R gam r0 %s' % r.choice(['0.00001', '0.99999', '0.45455']))
    for _ in range(3): p('R dith r0 %s' % r.choice(['0', '1', '0.00001', '0.5']))('M r0 i0 %s %d' % (r.choice(['remapped', 'into', 'vec', 'small']), r.choice([0, 1])))
    return p

def hist_big(r, pid):
    """histograms of more colors than the library wants to keep, and of huge counts"""
    p = P(pid)
    p('A new a0')('A speed a0 %d' % r.choice([8, 10, 10, 9]))
    if r.random() < .5:
        p.gen('p0', r.choice([300, 500]), r.choice([300, 400]), r.choice(['rand', 'many']), r.randrange(1, 99), 200000)
        p('I new i0 a0 p0 owned 0 0')('H new h0 a0')('H img h0 a0 i0')
        if r.random() < .5: p('H img h0 a0 i0')
    else:
        p('H new h0 a0')
    for _ in range(3): p('H col h0 0 %s' % ','.join('%s:%d' % (col(rcolor(r, 'any')), r.choice([1, 1000, 2**31, 2**32 - 1])) for _ in range(200)))
    p('HQ r0 a0 h0')('R pal r0')
    return p

def tall(r, pid):
    """heights around and above the size at which dithering is divided into chunks"""
    p = P(pid)
    h = r.choice([127, 128, 129, 130, 131, 135, 143, 161, 193, 200, 255, 257, 299])
    w = r.choice([1, 2, 3, 4, 7, 10, 12])
    pal = anypal(r, r.choice([4, 20, 90, 300]))
    p.px('p0', w, h, paint(r, w, h, pal))
    attrs(p, r, 'a0', speeds=(1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 10))
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', '0.55555']))
    if r.random() < .3:
        p.px('p1', w, h, paint(r, w, h, pal[:5] + [(9, 99, 9, 255)]))
        image(p, r, 'i1', 'a0', 'p1')
        p('I fix i0 00000000')('I bg i0 i1')
    if r.random() < .3: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    for d in r.sample(['0', '1', '0.5', '0.01'], 3): p('R dith r0 %s' % d)('M r0 i0 %s %d' % (r.choice(['into', 'into', 'vec', 'remapped']), r.choice([0, 1, 9])))
    p('R pal r0')
    return p
def tall_c(r, pid):
    p = as_c(tall(r, pid))
    p('M r0 i0 rows 2')
    return p

def huge(r, pid):
    """so many pixels that they are not kept in memory in the working format; too many for a dithering map"""
    p = P(pid)
    w, h = r.choice([(2100, 2050), (4300, 1000), (900, 4700), (2001, 2101)])
    k = r.choice([3, 40, 150, 200])
    p.gen('p0', w, h, r.choice(['noise', 'noise', 'many', 'bands']), r.randrange(1, 1000), k)
    p('A new a0')
    if r.random() < .6: p('A max a0 %d' % r.choice([2, 5, 16, 100, 256]))
    p('A speed a0 %d' % r.choice([8, 9, 10, 10, 7, 5]))
    image(p, r, 'i0', 'a0', 'p0', r.choice(REPS), g=r.choice(['0', '0.7', '0.3', '0.7', '0.55555']))
    bg = r.random() < .3
    if bg:
        p.gen('p1', w, h, 'noise', r.randrange(1, 1000), 5)
        image(p, r, 'i1', 'a0', 'p1')
        p('I fix i0 00000000')('I bg i0 i1')
    if r.random() < .3: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    for d in r.sample(['0', '1'], 2): p('R dith r0 %s' % d)('M r0 i0 %s 0' % r.choice(['remapped', 'into']))
    return p

def huge_reps(r, pid):
    p = P(pid)
    w, h = r.choice([(2100, 2050), (4300, 1000)])
    p.gen('p0', w, h, r.choice(['noise', 'bands']), r.randrange(1, 1000), r.choice([5, 300]))
    p('A new a0')('A max a0 %d' % r.choice([3, 60]))('A speed a0 %d' % r.choice([8, 10, 9, 5]))
    # whether pixels are kept in memory depends on settings that the image was created with
    p('A new a1')('A speed a1 %d' % r.choice([8, 9, 10]))('A new a2')('A speed a2 4')
    g, d = r.choice(['0', '0.7', '0.3', '0.7']), r.choice(['0', '1', '1'])
    for a, rep in zip(r.sample(['a0', 'a1', 'a2'], 3), r.sample(REPS, 3)):
        image(p, r, 'i0', a, 'p0', rep, g)
        p('Q r0 a0 i0')('R dith r0 %s' % d)('M r0 i0 into 0')
    return p

def clusters(r, pid):
    """colors in a narrow part of the color space, unevenly used"""
    p = P(pid)
    lo = [r.randrange(0, 230) for _ in range(4)]
    hi = [min(255, v + r.choice([3, 10, 30, 60, 120])) for v in lo]
    if r.random() < .6: lo[3] = hi[3] = 255
    elif r.random() < .3: lo[3] = max(1, lo[3]); hi[3] = max(lo[3], hi[3])
    n = r.choice([4, 6, 9, 17, 30, 66, 150])
    pal = list(dict.fromkeys(tuple(r.randint(a, b) for a, b in zip(lo, hi)) for _ in range(n)))
    if r.random() < .25: pal.append((0, 0, 0, 0))
    w, h = r.choice([(7, 6), (13, 5), (16, 12), (24, 16), (31, 17), (20, 20)])
    p('A new a0')('A max a0 %d' % r.choice([2, 3, 4, 5, 8, 16]))('A speed a0 %d' % r.randint(1, 10))
    if r.random() < .2: p('A q a0 0 %d' % r.choice([99, 90, 60]))
    if r.random() < .15: p('A post a0 %d' % r.choice([1, 2]))
    k = r.random()
    if k < .6:
        p.px('p0', w, h, paint(r, w, h, pal, r.choice(['skewed', 'skewed', 'random', None])))
        image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', '0.55555', '0.3', '0.7']))
        if r.random() < .2: p('gmap m0 %d %d' % (w * h, r.randrange(99)))('I imp i0 m0')
        if r.random() < .2: p('I fix i0 %s' % col(r.choice(pal)))
        if k < .15: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
        else: p('Q r0 a0 i0')
        p('R dith r0 %s' % r.choice(['0', '1']))('M r0 i0 remapped 0')
    else:
        p('H new h0 a0')('H col h0 0 %s' % ','.join('%s:%d' % (col(c), r.choice([1, 2, 10, 100, 3000, 10**6])) for c in pal))
        if r.random() < .2: p('H fix h0 0 %s' % col(r.choice(pal)))
        p('HQ r0 a0 h0')
    p('R pal r0')
    return p

def abort_atomic(r, pid):
    """a call that was told to stop, or was refused, against the same history without the call"""
    p = P(pid)
    dims = r.choice(DIMS)
    pal = anypal(r, 50)
    p.px('p0', *dims, paint(r, *dims, pal)).px('p1', *dims, paint(r, *dims, pal[:3] + palette(r, 4)))
    attrs(p, r, 'a0')
    p('A copy a1 a0')
    g = r.choice(['0', '0.55555', '0.3'])
    for k in range(2):
        image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', g]) if k == 0 else None or '0')
    image(p, r, 'i1', 'a0', 'p1', g=g)
    for _ in range(r.choice([0, 1, 3])): p('I fix i1 %s' % col(rcolor(r)))
    if r.random() < .5: p('I fix i0 %s' % col(rcolor(r)))
    start = r.choice([[], ['H img %s a1 i0'], ['H img %s a1 i0', 'H col %s 0 %s:5' % ('%s', col(rcolor(r)))], ['H fix %s 0 ' + col(rcolor(r))]])
    for h in ('h0', 'h1'):
        p('H new %s a1' % h)
        for l in start: p(l % h)
        if h == 'h0':
            k = r.random()
            if k < .6: p('A prog a0 %s 1' % r.choice(['persist', 'once']))('H img h0 a0 i1')('A prog a0 none 1')
            elif k < .8: p('H col h0 %s %s:9' % (r.choice(['1.0', 'nan', '-1', '1.5']), col(rcolor(r))))('H fix h0 %s %s' % (r.choice(['1.0', 'nan', '-0.1']), col(rcolor(r))))
            else: p('H col h0 0.3 -')('H col h0 0 %s:0' % col(rcolor(r)))
        if r.random() < .7: p('HQ r0 a1 h0') if h == 'h0' else p('HQ r1 a1 h1')
    if r.random() < .6:
        for h in ('h0', 'h1'): p('H img %s a1 i1' % h)('HQ r1 a1 %s' % h)
    # the same for images
    image(p, r, 'i2', 'a0', 'p0')
    p('A prog a0 %s %d' % (r.choice(['persist', 'once']), r.choice([1, 2, 3, 4, 6, 9])))('Q r2 a0 i2')('A prog a0 none 1')('Q r2 a0 i2')
    image(p, r, 'i3', 'a0', 'p0')
    p('Q r3 a0 i3')('R dith r2 0')('R dith r3 0')
    p('R prog r2 %s %d' % (r.choice(['persist', 'once']), r.choice([1, 2, 3])))('M r2 i2 into 0')('R pal r2')('R prog r2 none 1')('M r2 i2 into 0')('M r3 i3 into 0')
    return p

def nobg(r, pid):
    """a background without a color to show it, a refused background, against no background"""
    p = P(pid)
    w, h = r.choice([d for d in DIMS if d[0] * d[1] > 1] + [(9, 140)])
    pal = palette(r, r.choice([2, 3, 9, 30, 200]), 'opaque')
    if r.random() < .3: pal += [(9, 99, 9, r.randrange(20, 250))]
    if r.random() < .25: pal += [(200, 9, 90, r.choice([1, 1, 2, 3, 4]))]
    if r.random() < .15: pal += [(0, 0, 0, 0)]
    fg = paint(r, w, h, pal)
    p.px('p0', w, h, fg).px('p1', w, h, [c if r.random() < .5 else r.choice(pal) for c in fg]).px('p2', h, w + 1, paint(r, h, w + 1, pal))
    attrs(p, r, 'a0', quality=False)
    for i in ('i0', 'i1', 'i2'): image(p, r, i, 'a0', 'p0')
    image(p, r, 'b', 'a0', 'p1')
    image(p, r, 'c', 'a0', 'p2')
    early = r.random() < .5
    if early: p('I bg i1 b')('I bg i2 c')
    if r.random() < .4: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('Q r0 a0 i0')
    if not early: p('I bg i1 b')('I bg i2 c')
    for d in r.sample(['0', '1', '0.4'], 2):
        p('R dith r0 %s' % d)
        for i in r.sample(['i0', 'i1', 'i2'], 3): p('M r0 %s %s 0' % (i, r.choice(['into', 'remapped'])))
    return p

def allmax(r, pid):
    """a map of maximal importance against no map; a map of proportional importance"""
    p = P(pid)
    w, h = r.choice(DIMS + [(2, 90), (3, 40), (30, 3)])
    pal = anypal(r, 300)
    p.px('p0', w, h, paint(r, w, h, pal)).map('m0', [255] * (w * h)).map('m1', [r.choice([1, 255])] * (w * h - 1) + [254])
    attrs(p, r, 'a0', speeds=(8, 9, 10) if w > 3 and h > 3 else (1, 3, 5, 8, 10))
    if w > 3 and h > 3: p('A speed a0 %d' % r.choice([8, 9, 10]))
    for k in r.sample([0, 1, 2], 3):
        image(p, r, 'i%d' % k, 'a0', 'p0')
        if k == 1: p('I imp i1 m0')
        if k == 2: p('I imp i2 m1')('I imp i2 m0')
        p('Q r%d a0 i%d' % (k, k))
        p('H new h%d a0' % k)('H img h%d a0 i%d' % (k, k))('HQ r%d a0 h%d' % (k, k))
    return p

def gate(r, pid):
    """quantization that fails because of its quality, and what others see of it"""
    p = P(pid)
    anyimage(p, r, 'p0')
    p('A new a0')('A max a0 %d' % r.choice([2, 3, 4, 8, 20]))('A speed a0 %d' % r.choice([1, 3, 4, 5, 7, 8, 10]))
    if r.random() < .3: p('A lit a0 1')
    p('A copy a1 a0')
    t = r.choice([100, 99, 95, 80])
    p('A q a1 %d %d' % (r.choice([t, t - 1, t - 10]), t))
    g = r.choice(['0', '0', '0.55555'])
    for k in range(3): image(p, r, 'i%d' % k, 'a0', 'p0', g=g)
    order = [('Q r0 a1 i0', 'Q r1 a0 i0'), ('Q r2 a0 i1', 'Q r3 a1 i1')]
    p('H new h0 a0')('H img h0 a0 i2')('H new h1 a0')('H img h1 a0 i2')
    for a, b in order: p(a)(b)
    p('HQ r4 a1 h0')('HQ r5 a0 h0')('HQ r6 a0 h1')('HQ r7 a1 h1')
    if r.random() < .5: p('A q a1 0 %d' % t)('Q r3 a1 i0')('A q a0 0 %d' % t)('Q r2 a0 i1')
    for q, i in (('r1', 'i0'), ('r2', 'i1'), ('r5', 'i2'), ('r6', 'i2')): p('M %s %s into 0' % (q, i))
    return p

def thresholds(r, pid):
    """every minimum quality around the one that can be reached"""
    p = P(pid)
    n = r.choice([9, 60, 260, 270, 300])   # (limits are tighter when there are up to 256 colors)
    mx = r.choice([2, 3, 4, 8, 20, 40])
    if n > 256:
        pal = set()
        base = palette(r, r.choice([mx, mx, mx + 1, 3 * mx]), 'opaque')
        d = r.choice([4, 9, 20, 50])
        while len(pal) < n: pal.add(tuple(max(0, min(255, v + r.randint(-d, d))) for v in r.choice(base)[:3]) + (255,))
        pal = sorted(pal)
    else: pal = (neighbours if r.random() < .3 else palette)(r, n, r.choice(['opaque', 'opaque', 'opaque', 'any']))
    p('A new a0')('A max a0 %d' % mx)('A speed a0 %d' % r.choice([7, 8, 8, 9, 10]))
    p('H new h0 a0')('H col h0 0 %s' % ','.join('%s:%d' % (col(c), r.choice([1, 2, 5, 300])) for c in pal))
    same = r.random() < .5
    lo = r.choice([1, 1, 20, 40, 60, 75])
    for q in range(lo, min(101, lo + 41), r.choice([1, 1, 2])): p('A q a0 %d %d' % (q, q if same else 100))('HQ r0 a0 h0')
    return p

BADSET = ['A max %s 1', 'A max %s 257', 'A max %s 0', 'A q %s 80 70', 'A q %s 0 101', 'A q %s 101 101', 'A speed %s 0', 'A speed %s 11', 'A post %s 5', 'A post %s 255']
def settings_used(r, pid):
    """accepted and refused settings, in any order, against only the last accepted ones: what quantization does with them"""
    p = P(pid)
    anyimage(p, r, 'p0', pal=anypal(r, 60))
    v = dict(max=r.choice([2, 3, 7, 256]), speed=r.choice([1, 4, 7, 8, 10]), post=r.choice([0, 0, 1, 2]), q=r.choice([(0, 100), (0, 80), (0, 95), (20, 90)]), lit=r.randrange(2))
    def sets(a, final):
        ks = list(v)
        r.shuffle(ks)
        for k in ks:
            x = v[k] if final else {'max': r.choice([2, 9, 200]), 'speed': r.randint(1, 10), 'post': r.randint(0, 4), 'q': r.choice([(0, 50), (90, 100)]), 'lit': r.randrange(2)}[k]
            p('A %s %s %s' % (k, a, '%d %d' % x if k == 'q' else x))
            if r.random() < .5: p(r.choice(BADSET) % a)
    p('A new a0')('A new a1')
    if r.random() < .7: sets('a1', False)
    if r.random() < .3: p('A copy a2 a1')('A copy a1 a2')('A max a2 5')
    for a in ('a0', 'a1'): sets(a, True)
    p('A copy a3 a1')('A max a1 4')('A speed a1 10')
    for k, a in enumerate(r.sample(['a0', 'a3'], 2)):
        image(p, r, 'i%d' % k, a, 'p0', g='0')
        p('Q r%d %s i%d' % (k, a, k))('M r%d i%d into 0' % (k, k))
        for _ in range(2):
            if r.random() < .5: p('R dith r%d %s' % (k, r.choice(['-0.1', '1.1', 'nan', 'inf'])))
            if r.random() < .5: p('R gam r%d %s' % (k, r.choice(['0', '1', '-1', 'nan', '1.5'])))
        p('R dith r%d %s' % (k, '0' if k == 0 else '0'))('M r%d i%d into 0' % (k, k))
    return p

def lit_c(r, pid):
    """any non-zero int means yes"""
    p = P(pid, True)
    pal = palette(r, r.choice([3, 6, 20]), r.choice(['mix', 'any'])) + [(0, 0, 0, 0), (1, 2, 3, 255)]
    anyimage(p, r, 'p0', (9, 7), pal)
    p('A new a0')
    if r.random() < .4: p('A max a0 %d' % r.choice([2, 4, 8]))
    for v in r.sample([0, 1, 2, -1, 256, 65536, -2**31, 2**31 - 1], 4):
        p('A lit a0 %d' % v)
        image(p, r, 'i0', 'a0', 'p0')
        p('Q r0 a0 i0')('R dith r0 0')('M r0 i0 into 0')
    return p

def longsearch(r, pid):
    """many trials of the palette search, in which weights of colors grow"""
    p = P(pid)
    far = [(255, 255, 0, 255), (0, 0, 255, 255), (255, 0, 255, 255), (0, 255, 0, 255), (0, 0, 0, 255), (255, 255, 255, 255), (255, 0, 0, 255), (0, 255, 255, 255), (255, 255, 255, 9), (0, 0, 0, 128), (0, 0, 0, 0)]
    pal = [rcolor(r) if r.random() < .3 else r.choice(far) for _ in range(r.choice([3, 3, 4, 6, 20, 90]))]
    w, h = r.choice([(4, 4), (7, 5), (31, 17)])
    p.px('p0', w, h, paint(r, w, h, pal))
    p('A new a0')('A speed a0 %d' % r.choice([1, 1, 1, 2, 3]))('A max a0 %d' % r.choice([2, 2, 3, 16, 64, 256]))
    p('A q a0 0 %d' % r.choice([0, 0, 0, 1, 5, 20, 60, 90, 99, 100]))
    if r.random() < .4: p('A post a0 %d' % r.choice([1, 2, 3, 4]))
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', '0.9', '0.2']))
    for _ in range(r.choice([0, 1, 2, 5])): p('I fix i0 %s' % col(r.choice(far) if r.random() < .5 else rcolor(r)))
    p('Q r0 a0 i0')('R dith r0 %s' % r.choice(['0', '1']))('M r0 i0 remapped 0')
    return p

# ---------------------------------------------------------------- error diffusion
def smooth(r, w, h, corners, noise=0):
    out = []
    for y in range(h):
        for x in range(w):
            u, v = (x / (w - 1) if w > 1 else 0), (y / (h - 1) if h > 1 else 0)
            c = [sum(k[j] * f for k, f in zip(corners, ((1 - u) * (1 - v), u * (1 - v), (1 - u) * v, u * v))) for j in range(4)]
            out.append(tuple(max(0, min(255, int(round(t + (r.randint(-noise, noise) if noise else 0))))) for t in c))
    return out

def ditherable(r, w, h):
    """pixels that a small palette can't express exactly"""
    alpha = r.choice(['opaque', 'opaque', 'mix', 'any'])
    k = r.random()
    if k < .5: return smooth(r, w, h, [rcolor(r, alpha) for _ in range(4)], r.choice([0, 0, 0, 3, 20]))
    if k < .65: return [rcolor(r, alpha)] * (w * h)
    if k < .75: return smooth(r, w, h, [rcolor(r, alpha)] * 4, r.choice([1, 2, 6]))
    return paint(r, w, h, anypal(r, r.choice([4, 20, 90, 300])))

def dither(r, pid, dims=None, speeds=None, bg=None, read=0, make=None):
    p = P(pid)
    dims = dims or [(12, 9), (16, 12), (9, 14), (20, 8), (4, 4), (5, 5), (24, 12), (17, 17), (1, 30), (2, 40), (3, 25), (30, 3), (40, 1), (50, 2)]
    w, h = r.choice(dims)
    px = (make or ditherable)(r, w, h)
    p.px('p0', w, h, px)
    p('A new a0')('A max a0 %d' % r.choice([2, 2, 3, 4, 5, 8, 16, 40, 256]))
    p('A speed a0 %d' % r.choice(speeds or ((7, 7, 8, 9, 10) if min(w, h) >= 4 and r.random() < .9 else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10))))
    if r.random() < .2: p('A post a0 %d' % r.choice([1, 2, 3, 4]))
    if r.random() < .2: p('A q a0 0 %d' % r.choice([100, 80, 40, 5]))
    if r.random() < .2: p('A lit a0 1')
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', '0', '0.3', '0.7', '1.0']))
    bg = r.random() < .25 if bg is None else bg
    if bg:
        q, amp = r.random(), r.choice([3, 10, 25, 50])
        shift = [r.randint(-amp, amp) for _ in range(3)] + [0]
        if q < .2: b = [near(r, c) if r.random() < .5 else c for c in px]
        elif q < .4: b = [tuple(max(0, min(255, v + d)) for v, d in zip(c, shift)) for c in px]
        elif q < .5: b = [tuple(max(0, min(255, v + d * r.choice([0, 1, 1, -1]))) for v, d in zip(c, shift)) for c in px]
        elif q < .7: b = ditherable(r, w, h)
        else: b = [c if r.random() < .4 else rcolor(r) for c in px]
        p.px('p1', w, h, b)
        image(p, r, 'i1', 'a0', 'p1', g=r.choice(['0', '0', '0', '0.7']))
        if r.random() < .9: p('I fix i0 00000000')
        p('I bg i0 i1')
    if r.random() < .3:
        m = [r.choice([0, 1, 9, 255]) for _ in range(w * h)]
        m[0] = 255
        p.map('m0', m)('I imp i0 m0')
    k = r.random()
    if k < .55:
        for _ in range(r.choice([0, 0, 1, 2])): p('I fix i0 %s' % col(rcolor(r)))
        p('Q r0 a0 i0')
    elif k < .8:
        # arbitrary palette, unrelated to the image
        p('H new h0 a0')
        for c in palette(r, r.choice([2, 3, 5, 12]), r.choice(['opaque', 'mix', 'any'])) + ([(0, 0, 0, 0)] if bg else []): p('H fix h0 0 %s' % col(c))
        p('A max a0 %d' % 20)('HQ r0 a0 h0')
    else: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    for d in r.sample(['1', '1', '1', '0.5', '0.25', '0.75', '0.125', '0.875', '0'], 2):
        if d != '1' or r.random() < .5: p('R dith r0 %s' % d)
        if r.random() < .15: p('R gam r0 %s' % r.choice(['0.3', '0.7']))
        if read: p('R pal r0')
        p('M r0 i0 %s %d' % (r.choice(['into', 'into', 'vec', 'remapped']), r.choice([0, 1, 9])))
    return p
def halfnoisy(r, w, h):
    """a noisy area next to a smooth one"""
    s = smooth(r, w, h, [rcolor(r, 'opaque') for _ in range(4)] if r.random() < .7 else [rcolor(r, 'opaque')] * 4, r.choice([0, 0, 2]))
    amp = r.choice([10, 25, 50, 90])
    at = r.randrange(1, w) if r.random() < .5 else None
    row = r.randrange(1, h)
    def noisy(c): return tuple(max(0, min(255, v + r.randint(-amp, amp))) for v in c[:3]) + (c[3],)
    return [noisy(c) if (k % w < at if at else k // w < row) else c for k, c in enumerate(s)]
def dither_map(r, pid):
    """slow speeds, at which edges and noise are dithered less"""
    if r.random() < .4:
        return dither(r, pid, [(14, 14), (20, 10), (10, 20), (24, 12), (12, 24), (30, 9), (18, 18)], (1, 2, 3, 4, 4, 5, 6), read=1, make=halfnoisy)
    return dither(r, pid, [(4, 4), (5, 4), (4, 9), (6, 6), (7, 7), (8, 8), (9, 12), (12, 9), (16, 12), (10, 20), (24, 12), (30, 7), (7, 30)], (1, 2, 3, 4, 4, 5, 6), read=1)
def dither_map_c(r, pid): return as_c(dither_map(r, pid))
def dither_c(r, pid): return as_c(dither(r, pid))
def dither_tall(r, pid):
    return dither(r, pid, [(1, 129), (2, 129), (3, 130), (3, 131), (2, 200), (1, 300), (4, 137), (5, 129), (7, 150)], None)
def dither_bg(r, pid): return dither(r, pid, bg=True) if r.random() < .7 else dither_static(r, pid)
def dither_static(r, pid):
    """slightly changing frames of an animation, and a palette in which only one color is close"""
    p = P(pid)
    w, h = r.choice([(12, 9), (60, 2), (40, 8), (2, 40), (120, 1), (200, 1), (90, 3)])
    def off(c, d): return tuple(max(0, min(255, v + r.choice([-1, 1]) * r.randint(d // 2, d))) for v in c[:3]) + (255,)
    x = rcolor(r, 'opaque')
    n = r.choice([0, 0, 1, 3, 8])
    p.px('p0', w, h, smooth(r, w, h, [x] * 4, n))
    d = r.choice([6, 12, 25, 40])
    p.px('p1', w, h, smooth(r, w, h, [off(x, int(d * r.choice([1, 1.3, 1.6, 2, 2.5])))] * 4, r.choice([0, 1, 5])))
    p('A new a0')('A speed a0 %d' % (r.choice([7, 8, 10]) if min(w, h) > 3 else r.randint(1, 10)))
    image(p, r, 'i0', 'a0', 'p0')
    image(p, r, 'i1', 'a0', 'p1')
    p('I bg i0 i1')('H new h0 a0')('H fix h0 0 %s' % r.choice(['00000000'] * 5 + ['30a05001', '30a05002', '30a05003']))
    for k in range(r.choice([1, 1, 2])): p('H fix h0 0 %s' % col(off(x, d)))
    for k in range(r.choice([1, 2, 3])): p('H fix h0 0 %s' % col(off(x, d * 3)))
    p('HQ r0 a0 h0')
    for v in ('1', r.choice(['0.75', '0.5', '0.875'])): p('R dith r0 %s' % v)('M r0 i0 into 0')
    return p

# ---------------------------------------------------------------- improvement of the palette
def refine(r, pid):
    """first dithered remapping of an image at slow speeds"""
    p = P(pid)
    w, h = r.choice([(12, 9), (16, 12), (9, 14), (20, 8), (4, 4), (24, 12), (17, 17), (2, 40), (3, 25), (30, 3), (40, 1), (3, 150)])
    px = ditherable(r, w, h)
    p.px('p0', w, h, px)
    p('A new a0')('A max a0 %d' % r.choice([2, 2, 3, 4, 5, 8, 16]))('A speed a0 %d' % r.choice([1, 2, 3, 4, 5, 6, 6, 7, 8]))
    if r.random() < .15: p('A post a0 %d' % r.choice([1, 2, 3]))
    if r.random() < .2: p('A lit a0 1')
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', '0', '0.3', '0.7']))
    p.dims = (w, h)
    weigh(p, r, 'i0', .6)
    image(p, r, 'i1', 'a0', 'p0', g=r.choice(['0', '0', '0.7']))
    if r.random() < .5: p('I clone i1 i0')
    k = r.random()
    if k < .3:
        for _ in range(r.choice([0, 0, 1, 2])): p('I fix i0 %s' % col(rcolor(r)))
        p('Q r0 a0 i0')
    elif k < .5: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else:
        # a palette of the image, but not the best
        p('H new h0 a0')('H col h0 0 %s' % ','.join('%s:%d' % (col(near(r, c) if r.random() < .7 else c), r.choice([1, 5, 90])) for c in r.sample(px, min(len(px), r.choice([2, 4, 9, 30])))))
        if r.random() < .3: p('H fix h0 0 %s' % col(rcolor(r)))
        if r.random() < .4: p('A max a0 %d' % r.choice([20, 64, 256]))
        p('HQ r0 a0 h0')
    if r.random() < .2: p('R gam r0 %s' % r.choice(['0.3', '0.7']))
    if r.random() < .3: p('R clone r1 r0')
    p('R pal r0')
    for i in r.sample(['i0', 'i1'], 2):
        p('R dith r0 %s' % r.choice(['1', '1', '1', '0.5', '0']))('R pal r0')('M r0 %s %s 0' % (i, r.choice(['into', 'vec'])))('R pal r0')
        if r.random() < .4: p('M r0 %s into 0' % i)
    return p

def opaque_edge(r, pid):
    """averages of opaque and almost opaque colors"""
    p = P(pid)
    n = r.choice([11, 20, 40])
    p('A new a0')('A max a0 %d' % n)('A speed a0 %d' % r.choice([7, 8, 9, 10, 10]))
    if r.random() < .5: p('A lit a0 1')
    p('H new h0 a0')
    out = []
    for _ in range(n):
        c = rcolor(r, 'opaque')[:3]
        a, b = r.choice([(255, 1), (255, 1), (254, 1), (256, 1), (510, 2), (100, 1), (3, 1)])
        out += ['%s:%d' % (col(c + (254,)), a), '%s:%d' % (col(tuple(max(0, min(255, v + r.choice([-1, 0, 1]))) for v in c) + (255,)), b)]
    p('H col h0 0 %s' % ','.join(out))('HQ r0 a0 h0')
    return p

# ---------------------------------------------------------------- importance made from noise
def noise(r, pid):
    """few colors in flat and noisy areas, at speeds that tell them apart"""
    p = P(pid)
    w, h = r.choice([(20, 20), (18, 16), (12, 9), (9, 14), (25, 16), (16, 25), (8, 8), (7, 7), (6, 30), (40, 6), (40, 10), (4, 50)])
    n = min(r.choice([12, 15, 20, 30, 60]), w * h // 3)
    base = rcolor(r, 'opaque')
    amp = r.choice([3, 10, 30, 70, 300])
    pal = set()
    while len(pal) < n: pal.add(tuple(max(0, min(255, v + r.randint(-amp, amp))) for v in base[:3]) + (255 if r.random() < .9 else r.randrange(1, 256),))
    pal = sorted(pal)
    r.shuffle(pal)
    a, b = paint(r, w, h, pal, 'random'), paint(r, w, h, pal, r.choice(['blocks', 'stripes']))
    cut, vert = r.random(), r.random() < .5
    px = [x if ((k % w) / w if vert else (k // w) / h) < cut else y for k, (x, y) in enumerate(zip(a, b))]
    p.px('p0', w, h, px)
    p('A new a0')('A speed a0 %d' % r.choice([1, 2, 3, 4, 4, 5, 6, 7, 7]))
    if r.random() < .2: p('A lit a0 1')
    if r.random() < .5: p('A max a0 %d' % r.choice([n, n + 5, 64, 256] if r.random() < .7 else [max(2, n // 2), 5]))
    image(p, r, 'i0', 'a0', 'p0', g=r.choice(['0', '0', '0', '0.3', '0.7']))
    k = r.random()
    if k < .2: p('I fix i0 %s' % col(r.choice(pal)))
    if k < .5: p('Q r0 a0 i0')
    elif k < .6: p('Q r0 a0 i0')('A speed a0 %d' % r.choice([8, 10]))('Q r1 a0 i0')
    elif k < .7: p('I clone i1 i0')('Q r0 a0 i1')
    elif k < .85: p('H new h0 a0')('H img h0 a0 i0')('HQ r0 a0 h0')
    else: p('H new h0 a0')('H img h0 a0 i0')('H img h0 a0 i0')('HQ r0 a0 h0')
    if r.random() < .5: p('R pal r0')('M r0 i0 into 0')('R pal r0')
    return p
def noise_c(r, pid): return as_c(noise(r, pid))
