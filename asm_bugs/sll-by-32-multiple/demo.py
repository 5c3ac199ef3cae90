from simlib import *  # noqa: F403
b = run({0: flat(li(5, 0x12345678), addi(6, 0, 64), srl(7, 5, 6), sw(7, 0, 0x700), SPIN)}, cycles=200)
expect(b.stores(), [(0x700, 15, 0x12345678)], "srl by 64")
finish()
