from amaranth.hdl import Module
from amaranth.lib import wiring
from amaranth.lib.wiring import In
from .. import wishbone
from ..memory import MemoryMap


class WishboneCSRBridge(wiring.Component):
    def __init__(self, csr_bus, *, data_width=None, name=None):
        data_width = data_width or csr_bus.signature.data_width
        lanes = data_width // csr_bus.signature.data_width
        aw = csr_bus.signature.addr_width
        super().__init__({"wb_bus": In(wishbone.Signature(
            addr_width=max(0, aw - (lanes - 1).bit_length()),
            data_width=data_width,
            granularity=csr_bus.signature.data_width))})
        self.sa_csr = csr_bus
        m = self.wb_bus.memory_map = MemoryMap(
            addr_width=aw, data_width=csr_bus.signature.data_width)
        m.add_window(csr_bus.memory_map)

    def elaborate(self, platform):
        return Module()
