"""Generators shared by the property modules (all produce plain JSON data)."""
from hypothesis import strategies as st


def sized_list(elem, lo, hi):
    """Lists whose length is spread over [lo, hi] (st.lists alone stays short)."""

    @st.composite
    def s(draw):
        # a spread of length scales: short, medium and long
        n = draw(st.one_of(st.integers(lo, hi), st.integers((lo + hi) // 2, hi),
                           st.integers(lo, max(lo, min(hi, lo + 6)))))
        return draw(st.lists(elem, min_size=n, max_size=n))

    return s()


def tup(*parts):
    return st.tuples(*parts).map(list)


seeds = st.integers(0, 2**31 - 1)


def spread(lo, hi):
    """Integers spread over a range instead of huddled at its ends."""
    return st.integers(0, 10**6).map(lambda x: lo + x % (hi - lo + 1))


rewards = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0]),
    st.floats(-5, 5, allow_nan=False, width=32).map(lambda x: round(float(x), 3)),
)


def ends(row, i):
    """Two bits, episode end and requested reset, of environment i in a generated row (0: nothing happens)."""
    if i < 3 or row <= 0:       # -1: all of them
        return (row >> (2 * i)) & 3
    h = ((row * 2654435761 + i * 40503 * (row + 1)) >> 7) & 7
    return h & 3 if h < 4 else 0


def pick(options):
    """One of the options, evenly (sampled_from clumps)."""
    options = list(options)
    return st.integers(0, 10**6).map(lambda x: options[x % len(options)])


flag = pick([False, True])
