from simlib import *  # noqa: F403
b = run({0: flat(addi(5, 0, 3), sw(5, 0, 0x700), sw(5, 0, 0x704), SPIN)}, cycles=100, wait=1)
gap = [i for i, s in enumerate(b.sig[:-1]) if s[6] and b.sig[i + 1][0]]
expect(gap, [], "CYC low in the cycle after every ACK")
finish()
