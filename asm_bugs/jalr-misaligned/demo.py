from simlib import *  # noqa: F403
b = run({0: flat(SETUP, addi(5, 0, 0x42), jalr(6, 5, 0)), 0x40: [SPIN], H: flat(SKIP[:4], SPIN)}, cycles=300)
expect(b.stores(), [(0x700, 15, 0), (0x704, 15, 12)], "misaligned jalr trap")
finish()
