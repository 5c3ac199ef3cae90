from amaranth.hdl import Module
from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out
from .memory import MemoryMap


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset()):
        granularity = granularity or data_width
        self.addr_width, self.data_width = addr_width, data_width
        self.granularity = granularity
        super().__init__({
            "adr": Out(addr_width), "dat_w": Out(data_width),
            "dat_r": In(data_width), "sel": Out(data_width // granularity),
            "cyc": Out(1), "stb": Out(1), "we": Out(1), "ack": In(1)})


class Decoder(wiring.Component):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset(), alignment=0, name=None):
        granularity = granularity or data_width
        super().__init__({"bus": In(Signature(
            addr_width=addr_width, data_width=data_width,
            granularity=granularity))})
        lanes = data_width // granularity
        self.map = self.bus.memory_map = MemoryMap(
            addr_width=addr_width + (lanes - 1).bit_length(),
            data_width=granularity, alignment=alignment)
        self.sa_subs = []       # (bus, start, stop, sparse)

    def add(self, sub_bus, *, name=None, addr=None, sparse=False):
        if sparse:
            if sub_bus.signature.granularity != sub_bus.signature.data_width:
                raise ValueError("sparse window needs granularity equal to "
                                 "its data width")
        elif sub_bus.signature.data_width != self.bus.signature.data_width:
            raise ValueError("dense window of another data width")
        a, b = self.map.add_window(sub_bus.memory_map, name=name, addr=addr,
                                   sparse=sparse)
        self.sa_subs.append((sub_bus, a, b, sparse))
        return a, b

    def elaborate(self, platform):
        return Module()
