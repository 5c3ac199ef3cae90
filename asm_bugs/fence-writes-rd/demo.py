from simlib import *  # noqa: F403
b = run({0: flat(addi(5, 0, 7), addi(6, 0, 1), 0x0ff0000f | 5 << 7, sw(5, 0, 0x700), SPIN)}, cycles=100)
expect(b.stores(), [(0x700, 15, 7)], "fence with rd field set")
finish()
