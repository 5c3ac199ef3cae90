from simlib import *  # noqa: F403
def fetch_gap(word):
    b = run({0: flat(NOP, NOP, word, NOP, NOP, SPIN)}, cycles=80)
    t = [n for n, k, a, *_ in b.log if k == "F" and a in (8, 12)]
    return t[1] - t[0]
expect(fetch_gap(xori(5, 6, 7)), fetch_gap(ori(5, 6, 7)), "xori costs what ori costs")
finish()
