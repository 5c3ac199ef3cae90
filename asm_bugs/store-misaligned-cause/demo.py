from simlib import *  # noqa: F403
b = run({0: flat(SETUP, sh(5, 0, 0x711), SPIN), H: SKIP}, cycles=300)
expect(b.stores(), [(0x700, 15, 6), (0x704, 15, 8)], "misaligned sh trap")
finish()
