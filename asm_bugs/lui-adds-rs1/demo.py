from simlib import *  # noqa: F403
b = run({0: flat(addi(5, 0, 7), lui(6, 5 << 3), sw(6, 0, 0x700), SPIN)}, cycles=100)
expect(b.stores(), [(0x700, 15, 5 << 15)], "lui")
finish()
