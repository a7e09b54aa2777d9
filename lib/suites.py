"""Which programs are executed for which property. Only inputs are chosen here."""
import random
import core, progs
from core import Run

class Ctx:
    def __init__(self, prop, seed, tier, wd):
        self.prop, self.seed, self.tier, self.wd = prop, seed, tier, wd
        self.gen_states = self.gen_trans = 0
        self.thorough = tier == 'thorough'

    def r(self, name):
        return random.Random('%s/%s/%s' % (self.seed, self.prop, name))

    def n(self, quick, thorough=None):
        return (thorough or quick * 12) if self.thorough else quick

    def pool(self, name, quick, thorough=None, **kw):
        f, r = getattr(progs, name), self.r(name)
        tag = name + ''.join(str(v) for v in kw.values())
        return [f(r, '%s%d' % (tag, k), **kw) for k in range(self.n(quick, thorough))]

    def gen(self, focus, depth, limit, walks=0, walk_len=25, tdepth=None, tlimit=None):
        """all calls in all abstract states up to the depth (a random part of them if there are too many), and long walks"""
        r = self.r('gen' + focus)
        if self.thorough:
            depth, limit, walks = tdepth or depth + 1, tlimit or limit * 12, walks * 12
        bodies, s, t = core.generate(focus, depth, False, 0, 0, self.wd)
        self.gen_states += s
        self.gen_trans += t
        # a program that is a beginning of another one adds nothing
        keys = {';'.join(b[:-1]) for b in bodies}
        bodies = [b for b in bodies if ';'.join(b) not in keys]
        if len(bodies) > limit:
            bodies = r.sample(bodies, limit)
        out = [progs.concretize(r, '%s-b%d' % (focus, k), focus, b) for k, b in enumerate(bodies)]
        if walks:
            w, s, t = core.generate(focus, walk_len, True, walks, self.seed, self.wd)
            self.gen_states += s
            self.gen_trans += t
            # simulation shows all the possible last steps of a walk
            by = {}
            for b in w: by.setdefault(';'.join(b[:-1]), []).append(b)
            w = [r.choice(v) for v in by.values()]
            out += [progs.concretize(r, '%s-w%d' % (focus, k), focus, b) for k, b in enumerate(w)]
        return out

def C(ps, first=()):
    return [p.as_(True, first) for p in ps]
def D(ps):
    return [p.as_(p.capi, ('direct',)) for p in ps]
def some(ps, n):
    return ps[::max(1, len(ps) // n)][:n]

def s_C01(c):
    a = c.pool('quant', 600) + c.pool('fixed', 400) + c.pool('hist', 600) + c.pool('posterize', 300) + c.pool('soak', 700) + c.pool('clusters', 200) + c.pool('longsearch', 200) + c.gen('result', 3, 1500, 100)
    return [Run('thr', a), Run('large', c.pool('largepal', 20)), Run('nothr', C(renamed('c-', some(a, 400))))]
def s_C02(c):
    a = c.pool('foreign', 1000) + c.pool('quant', 400) + c.pool('gradients', 40) + c.gen('result', 3, 1500, 100) + c.pool('soak', 700) + c.pool('tall', 40)
    b = c.pool('foreign_c', 600) + c.pool('tall_c', 40)
    return [Run('thr', a), Run('nothr', b), Run('large', c.pool('largepal', 40)), Run('rel', c.pool('huge', 5))]
def s_C03(c):
    return [Run('thr', c.pool('lossless', 1800) + c.pool('hist', 500) + c.pool('fixed', 300) + c.gen('image', 2, 300) + c.gen('hist', 3, 700) + c.pool('tall', 30)),
            Run('nothr', c.pool('lossless_big', 60)), Run('rel', c.pool('huge', 8))]
def s_C04(c):
    return [Run('thr', c.pool('fixed', 1500) + c.gen('image', 3, 1200) + c.gen('hist', 3, 1200, 80) + c.pool('posterize', 300)), Run('large', c.pool('fixed_large', 15))]
def s_C05(c):
    return [Run('thr', c.pool('quality', 2000) + c.pool('soak', 500) + c.pool('gradients', 40) + c.pool('gate', 300) + c.pool('thresholds', 400) + c.pool('longsearch', 300)), Run('nothr', c.pool('quality_c', 500))]
def s_C06(c):
    g = c.gen('attr', 3, 2500, 120, 40)
    res = c.gen('result', 3, 1000, 80)
    v = c.pool('setters', 80)
    u = c.pool('settings_used', 300)
    return [Run('thr', g + res + v + u), Run('nothr', C(renamed('c-', some(g, 1200) + v + some(res, 500) + some(u, 150))) + c.pool('setters_c', 80) + c.pool('lit_c', 60))]
def renamed(prefix, ps):
    out = []
    for p in ps:
        q = p.as_(p.capi)
        q.id = prefix + p.id
        out.append(q)
    return out
def s_C07(c):
    return [Run('thr', c.pool('quant', 700) + c.pool('foreign', 700) + c.pool('gradients', 40) + c.gen('result', 3, 600) + c.pool('nearest', 120) + c.pool('tall', 30)),
            Run('rel', c.pool('nearest_big', 10) + c.pool('huge', 6)), Run('nothr', c.pool('foreign_c', 200))]
def s_C08(c):
    q = c.pool('quant', 700) + c.pool('foreign', 500) + c.pool('quality', 400) + c.pool('background', 400) + c.pool('gradients', 40) + c.pool('hist', 300) + c.pool('thresholds', 80) + c.gen('result', 3, 500)
    return [Run('thr', q + c.pool('tall', 30)), Run('nothr', C(renamed('c-', some(q, 400)))), Run('rel', c.pool('huge', 8))]
def s_C09(c):
    return [Run('thr', c.pool('background', 1600) + c.pool('nobg', 400) + c.gen('image', 3, 1500) + c.pool('soak', 400) + c.pool('tall', 30)), Run('nothr', c.pool('background_c', 300)), Run('rel', c.pool('huge', 8))]
def s_C10(c):
    return [Run('thr', c.pool('importance', 1500) + c.pool('weights', 500) + c.pool('allmax', 200) + c.gen('image', 3, 1500)), Run('nothr', c.pool('importance_c', 300))]
def s_C11(c):
    return [Run('thr', c.pool('hist', 1200) + c.pool('foreign', 500) + c.pool('gammas', 300) + c.gen('hist', 3, 1500, 100) + c.gen('result', 3, 1000))]
def s_C12(c):
    o = c.pool('order', 1800) + c.pool('opaque_edge', 400) + c.pool('fixed', 400) + c.pool('hist', 400) + c.gen('hist', 3, 700)
    return [Run('thr', o), Run('nothr', C(renamed('c-', some(o, 500))) + c.pool('lit_c', 60))]
def s_C13(c):
    return [Run('thr', c.pool('posterize', 1500) + c.pool('gammas', 300) + c.pool('hist', 300) + c.pool('soak', 500) + c.gen('hist', 3, 700) + c.pool('tall', 30))]
def s_C14(c):
    g = c.gen('abort', 3, 2000, 100)
    a = c.pool('abort', 600) + c.pool('abort_atomic', 300)
    return [Run('thr', g + a + c.pool('gradients_abort', 20)), Run('nothr', [p.as_(True) for p in renamed('c-', some(g, 800) + some(a, 300))])]
def s_C15(c):
    a = c.pool('representations', 300)
    return [Run('thr', D(a)), Run('nothr', C(D(a))), Run('rel', D(c.pool('huge_reps', 8)))]
def s_C16(c):
    return [Run('thr', c.pool('clones', 1300) + c.gen('image', 3, 1200) + c.gen('result', 3, 1200, 80), LIQDRV_POISON=165)]
def s_C17(c):
    a = c.pool('gradients', 6) + c.pool('schedules', 10) + c.pool('quant', 60) + c.pool('soak', 100) + c.pool('hist', 40) + c.pool('background', 40) + c.pool('tall', 12)
    h = c.pool('huge', 2)
    return [Run('thr', a, jobs=8, LIQDRV_POISON=90), Run('thr', a, jobs=1, RAYON_NUM_THREADS=1, LIQDRV_POISON=255), Run('rel', a + h, jobs=2, RAYON_NUM_THREADS=3), Run('rel', a + h, jobs=1, RAYON_NUM_THREADS=8), Run('nothr', a, jobs=8)]
def s_C18(c):
    g = c.gen('own', 3, 2000, 200)
    s = c.pool('soak', 500, capi_ops=True)
    return [Run('thr', C(g) + C(s)), Run('nothr', [p.as_('leak') for p in renamed('leak-', some(g, 600) + some(s, 200))], jobs=1)]
def s_C19(c):
    s = c.pool('soak', 700, capi_ops=True) + c.pool('lit_c', 60)
    g = c.gen('attr', 2, 400) + c.gen('result', 3, 400)
    n = progs.P('null', True)
    n('null')
    return [Run('thr', D(s + g)), Run('nothr', C(D(s + g))), Run('plain', [n])]
def s_C20(c):
    e = c.pool('extremes', 400)
    s = c.pool('soak', 1300)
    return [Run('thr', s + e + c.pool('gradients', 30) + c.pool('tall', 30) + c.pool('longsearch', 1500)), Run('rel', renamed('rel-', some(s, 500) + e) + c.pool('huge', 5)), Run('large', renamed('large-', some(s, 300))), Run('nothr', [p.as_(True) for p in renamed('c-', some(s, 400))])]
def s_C21(c):
    return [Run('thr', c.pool('rawimages', 500) + c.pool('quant', 80)), Run('nothr', c.pool('rawimages_c', 500))]
def s_C22(c):
    h = c.pool('weights', 1000) + c.pool('hist', 800) + c.pool('merging', 800)
    return [Run('thr', h + c.pool('abort_atomic', 200) + c.gen('hist', 3, 1500, 120) + c.pool('hist_big', 40)), Run('nothr', C(renamed('c-', some(h, 400))))]
def s_C23(c):
    return [Run('thr', c.pool('quant', 800) + c.pool('hist', 500) + c.pool('posterize', 400) + c.pool('gammas', 300) + c.pool('soak', 400) + c.pool('clusters', 600) + c.pool('longsearch', 300))]
def s_C24(c):
    a = c.pool('dither', 240) + c.pool('dither_bg', 100) + c.pool('dither_static', 250) + c.pool('dither_tall', 50) + c.pool('dither_map', 240)
    return [Run('thr', a, LIQDRV_RAW=1), Run('nothr', c.pool('dither_c', 80) + c.pool('dither_map_c', 60), LIQDRV_RAW=1)]
def s_C25(c):
    g = c.gen('log', 4, 2000, 100)
    return [Run('thr', g + c.pool('soak', 400)), Run('nothr', [p.as_(True) for p in renamed('c-', some(g, 1000))])]
def s_C26(c):
    return [Run('thr', c.pool('gammas', 1200) + c.gen('result', 3, 1500, 100) + c.pool('soak', 400))]
def s_C27(c):
    a = c.pool('refine', 700) + c.pool('foreign', 300) + c.pool('hist', 200) + c.pool('clones', 200) + c.pool('soak', 300) + c.pool('tall', 20)
    return [Run('thr', a), Run('nothr', C(renamed('c-', some(a, 400))))]
def s_C28(c):
    a = c.pool('noise', 700) + c.pool('refine', 200) + c.pool('quant', 100) + c.pool('weights', 200) + c.pool('merging', 150)
    return [Run('thr', a), Run('nothr', c.pool('noise_c', 150))]

MEMO = {'C05', 'C06', 'C10', 'C14', 'C22', 'C15', 'C16', 'C17', 'C19'}
