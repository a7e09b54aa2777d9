"""Exhaustive exploration of small instances of the specification (MCLiq) and of the design of parallel
remapping (ParRemap). They say nothing about the code by themselves; a failure means that the
specification is wrong, so it is an error of the machinery and not a violation."""
import re
import core

def mc(focus, quick, thorough):
    def run(ctx):
        depth = thorough if ctx.tier == 'thorough' else quick
        rc, out, states, trans = core.tlc('MCLiq', 'MCLiq.cfg', ctx.wd,
            dict(LIQ_TABLES=core.SPEC + '/lut.json', LIQ_MEMO='1', LIQ_FOCUS=focus, LIQ_DEPTH=str(depth)), workers=1, heap='4g')
        if rc != 0 or 'No error has been found' not in out:
            raise core.ToolError('MCLiq %s: the specification is wrong:\n%s' % (focus, out[-4000:]))
        m = re.search(r'<< ?"RULED",(.*?)\} ?>>', out, re.S)
        ruled = sorted({'%s %s' % x for x in re.findall(r'<<\s*"(\w+)",\s*"([^"]+)"\s*>>', m.group(1))}) if m else []
        return dict(name='MCLiq %s, all histories of up to %d calls' % (focus, depth), states=states, transitions=trans, clauses_that_ruled_something_out=ruled)
    return run

FLAWS = ['publish', 'shared-temp', 'double', 'no-join', 'first-thread', 'shared-diffusion', 'warm-from-output', 'guess', 'overrun', 'last-row']

def par(ctx):
    def one(h, w, c, flaw, workers):
        rc, out, states, trans = core.tlc('ParRemap', 'ParRemap.cfg', ctx.wd, dict(PAR_H=str(h), PAR_W=str(w), PAR_C=str(c), PAR_FLAW=flaw), workers=workers, heap='4g')
        ok = rc == 0 and 'No error has been found' in out
        if not ok and 'violated' not in out: raise core.ToolError('ParRemap %s: %s' % (flaw, out[-3000:]))
        return ok, states, trans
    sizes = [(9, 2, 3), (6, 3, 2), (8, 2, 4)] if ctx.tier == 'thorough' else [(6, 2, 2)]
    states = trans = 0
    for h, w, c in sizes:
        ok, s, t = one(h, w, c, 'none', 4)
        states, trans = states + s, trans + t
        if not ok: raise core.ToolError('ParRemap: the model does not have its properties')
    flaws = FLAWS if ctx.tier == 'thorough' else FLAWS[ctx.seed % 5::5]
    for f in flaws:
        if one(6, 2, 2, f, 2)[0]: raise core.ToolError('ParRemap: flaw %s is not noticed' % f)
    return dict(name='ParRemap, all schedules of (rows, workers, chunks) = %s' % sizes, states=states, transitions=trans, flaws_noticed=flaws)

pal, hist, own, log = mc('pal', 2, 3), mc('hist', 4, 5), mc('own', 2, 3), mc('log', 4, 5)
FOR = {}
for m, ps in ((pal, 'C01 C02 C03 C04 C05 C07 C08 C09 C10 C12 C16 C17'), (hist, 'C04 C11 C13 C22 C23 C26'), (own, 'C18'), (log, 'C06 C25'), (par, 'C02 C14 C17 C20')):
    for p in ps.split(): FOR.setdefault(p, []).append(m)
