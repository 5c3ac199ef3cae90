from simlib import *  # noqa: F403
b = run({0: flat(SETUP, lhu(5, 0, 0x713), SPIN), H: SKIP}, cycles=300)
expect(b.stores(), [(0x700, 15, 4), (0x704, 15, 8)], "misaligned lhu trap")
finish()
