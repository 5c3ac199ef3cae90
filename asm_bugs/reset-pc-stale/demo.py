from simlib import *  # noqa: F403
prog = flat(addi(1, 0, 1), lw(2, 0, 0x700), add(3, 1, 2), sw(3, 0, 0x704), jal(0, -16))
for k in range(20, 70):
    b = run({0: prog}, cycles=k + 30, reset={k})
    after = [a for n, kk, a, *_ in b.log if kk == "F" and n > k]
    expect(after[:2], [0, 4], f"first fetches after reset at {k}")
finish()
