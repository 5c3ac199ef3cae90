class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0):
        self.addr_width, self.data_width = addr_width, data_width
        self.alignment = alignment
        self.next = 0
        self.windows = []       # (map, start, stop)
        self.resources = []

    def _place(self, addr, size, align):
        """amaranth_soc.memory.MemoryMap._compute_addr_range"""
        align = max(align, self.alignment)
        step = 1 << align
        if addr is None:
            addr = -(-self.next // step) * step
        elif addr % step:
            raise ValueError(f"address {addr:#x} is not aligned to {align}")
        size = -(-max(size, 1) // step) * step
        if addr + size > 1 << self.addr_width:
            raise ValueError(f"range {addr:#x}..{addr + size:#x} is out of "
                             f"bounds for {self.addr_width} address bits")
        for _, a, b in self.windows + self.resources:
            if addr < b and a < addr + size:
                raise ValueError("address ranges overlap")
        self.next = max(self.next, addr + size)
        return addr, addr + size

    def add_resource(self, resource, *, name, size, addr=None, alignment=None):
        a, b = self._place(addr, size, alignment or 0)
        self.resources.append((name, a, b))
        return a, b

    def add_window(self, window, *, name=None, addr=None, sparse=None):
        size = 1 << window.addr_width
        if window.data_width != self.data_width and not sparse:
            size //= self.data_width // window.data_width
        a, b = self._place(addr, size, max((size - 1).bit_length(), 0))
        self.windows.append((window, a, b))
        return a, b

    def align_to(self, alignment):
        self.next = -(-self.next // (1 << alignment)) * (1 << alignment)
        return self.next

    def all_resources(self):
        return []
