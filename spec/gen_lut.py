#!/usr/bin/env python3
"""Writes lut.json: the constant tables the specification reads (TLC has no real numbers).
lut[g][i]  = 20000 * (i/255)^(0.57/g): channel intensity in the library's documented working gamma, per gamma (x1e5)
qual[q]    = quality threshold: greatest mean square error (x1e4, in the units of *_error()) that counts as quality q"""
import json
lut = {}
for g in (0.45455, 0.55555, 0.3, 0.7, 0.2, 0.9, 0.5, 1.0, 0.461, 0.306):
    lut[str(round(g * 1e5))] = [round(20000 * (i / 255) ** (0.57 / g)) for i in range(256)]
def q2m(q):
    if q == 0: return 1e20
    if q >= 100: return 0.
    f = max(0.016 / (0.001 + q) - 0.001, 0.)
    return 0.45 * (f + 2.5 / (210. + q) ** 1.2 * (100.1 - q) / 100.)
std = 65536. / 6. / 0.45
qual = [min(2000000000, round((q2m(q) + (0.000001 if q else 0)) * std * 1e4)) for q in range(101)]
# the same as lut, scaled by 2^22
fine = {str(round(g * 1e5)): [round(2 ** 22 * (i / 255) ** (0.57 / g)) for i in range(256)] for g in (0.45455, 0.3, 0.7, 1.0)}
json.dump({"fine": fine, "lut": lut, "qual": qual}, open("lut.json", "w"), separators=(",", ":"))
