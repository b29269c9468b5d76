"""Sizes worth trying: around powers of two and ten, and around the numbers written in the source of big."""
from hypothesis import strategies as st
from pbt.harness import harvest

INTS, _ = harvest()


def sizes(limit, lo=1):
    near = {b + d for k in range(0, 40) for b in (2 ** k, 10 ** min(k, 12), 3 * 2 ** k, 5 * 10 ** min(k, 12)) for d in (-1, 0, 1)}
    near |= set(INTS)
    near = sorted(n for n in near if lo <= n <= limit)
    # three bands so that small and large are equally likely
    mid = [n for n in near if n <= max(lo, int(limit ** 0.5))] or near
    top = [n for n in near if n >= limit // 20] or near
    return st.one_of(st.sampled_from(mid), st.sampled_from(near), st.sampled_from(top), st.integers(lo, limit))
