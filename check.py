#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree. See DESIGN.md."""
import concurrent.futures, json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import core, suites, models

def main():
    t0 = time.time()
    prop = sys.argv[1]
    if prop == '--setup':
        stamp = core.repo_hash()
        with concurrent.futures.ThreadPoolExecutor(5) as ex:
            for f in [ex.submit(core.build, t, stamp) for t in core.BUILDS]: print(f.result())
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    wd = '%s/work/%s-%d' % (core.VERIF, prop, os.getpid())
    os.makedirs(wd, exist_ok=True)
    try:
        rc = check(prop, tier, seed, wd, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return rc

def chunks(merged):
    """traces in pieces of similar size, each read by its own TLC"""
    size = sum(len(v) for v in merged.values())
    n = max(1, min(8, size // 300000)) if size < 160000000 else size // 20000000 + 1
    parts, load = [{} for _ in range(n)], [0] * n
    for k, v in sorted(merged.items(), key=lambda x: -len(x[1])):
        b = load.index(min(load))
        parts[b][k] = v
        load[b] += len(v) + 2000
    return parts

def check(prop, tier, seed, wd, t0):
    ctx = suites.Ctx(prop, seed, tier, wd)
    stamp = core.repo_hash()
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        mc = [ex.submit(m, ctx) for m in models.FOR.get(prop, [])]
        runs = getattr(suites, 's_' + prop)(ctx)
        exes = {t: ex.submit(core.build, t, stamp) for t in {r.tag for r in runs}}
        exes = {t: f.result() for t, f in exes.items()}
        mc = [f.result() for f in mc]
    merged, texts = {}, {}
    for n, r in enumerate(runs):
        got = r.execute(exes[r.tag], wd, n)
        for p in r.progs:
            if p.id in got:
                merged[p.id] = merged[p.id] + ',' + got[p.id] if p.id in merged else got[p.id]
                texts.setdefault(p.id, []).append((r.tag, r.env, r.jobs, p.text()))
    t1 = time.time()
    parts = chunks(merged)
    memo = prop in suites.MEMO
    bad, states, trans = None, 0, 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(core.validate, prop, memo, part, wd, 1) for part in parts]
        for f in fs:
            b, s, t = f.result()
            bad = bad or b
            states += s
            trans += t
    nev = sum(v.count('"op":') for v in merged.values())
    ops = {}
    for v in merged.values():
        for piece in v.split('{"op":"')[1:]:
            o = piece[:piece.index('"')]
            ops[o] = ops.get(o, 0) + 1
    ids = list(merged)
    samples = []
    for i in (ids[0], ids[len(ids) // 2], ids[-1]):
        samples.append(dict(program=i, calls=[l[:120] for l in texts[i][0][3].splitlines()[:25]], runs=len(texts[i])))
    violations = 1 if bad else 0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=states + ctx.gen_states + sum(m['states'] for m in mc), transitions=trans + ctx.gen_trans + sum(m['transitions'] for m in mc),
                            traces_validated_against_impl=len(merged), samples=samples,
                            recorded_events=nev, events_by_call=ops, executions=sum(len(x) for x in texts.values()),
                            builds=sorted({r.tag for r in runs}), trace_states=states,
                            generator_states=ctx.gen_states, generator_transitions=ctx.gen_trans,
                            models=mc),
              assumptions=['the driver reports faithfully what the library returned', 'TLC evaluates the specification correctly'] ,
              wall_s=round(time.time() - t0, 1), violations=violations)
    os.makedirs(core.VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (core.VERIF, prop), 'w'), indent=1)
    for k in known():
        if k.get('property') == prop and k.get('status') == 'open': print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if bad:
        rd = '%s/work/replay/%s' % (core.VERIF, prop)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        for n, (tag, env, jobs, text) in enumerate(texts[bad['prog']]):
            open('%s/%d-%s.prog' % (rd, n, tag), 'w').write(text)
        open(rd + '/trace.ndjson', 'w').write('{"id":"%s","ev":[%s]}\n' % (bad['prog'], merged[bad['prog']]))
        json.dump(dict(bad, property=prop, clause=bad['bad'], runs=[dict(build=t, env=e) for t, e, j, x in texts[bad['prog']]]), open(rd + '/violation.json', 'w'), indent=1)
        print('program %s event %d: %s' % (bad['prog'], bad['event'], bad['bad']))
        print('VIOLATION property=%s replay=%s' % (prop, rd))
        return 1
    print('ok property=%s traces=%d events=%d states=%d wall=%.1fs (build+run %.1fs)' % (prop, len(merged), nev, ev['coverage']['states'], time.time() - t0, t1 - t0))
    return 0

def known():
    f = core.VERIF + '/known_findings.json'
    return json.load(open(f)).get('findings', []) if os.path.exists(f) else []

if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
