from simlib import *  # noqa: F403
b = run({0: flat(addi(5, 0, -1), addi(6, 0, 1), bgeu(5, 6, 8), sw(5, 0, 0x700), sw(6, 0, 0x704), SPIN)}, cycles=200)
expect([a for a, _, _ in b.stores()], [0x704], "bgeu -1, 1 taken")
finish()
