#!/usr/bin/env python3
"""Exhaustive check of lemmas L1 and L2 (DESIGN.md) at width 8; the general proofs are in DESIGN.md."""
W = 8; N = 1 << W; H = N // 2
def s(v): v &= N - 1; return v - N if v >= H else v
def tdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
for x in range(N):
    for y in range(1, N):
        q = (x * y % N) // y
        assert (q == x) == (x * y < N) and (x * y < N or q < x), ('L1', x, y)
for x in range(-H, H):
    for y in range(-H, H):
        if y == 0: continue
        p = s(x * y)
        if p == -H and y == -1: continue
        assert (s(tdiv(p, y)) == x) == (-H <= x * y < H), ('L2', x, y)
print('L1 and L2 hold at width 8')
