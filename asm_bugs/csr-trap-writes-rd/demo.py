from simlib import *  # noqa: F403
b = run({0: flat(SETUP, addi(5, 0, 7), addi(6, 0, 1), csrrs(5, 0x7ff, 0), sw(5, 0, 0x710), SPIN), H: SKIP}, cycles=400)
expect(b.stores()[2:], [(0x710, 15, 7)], "rd after an illegal CSR access")
finish()
