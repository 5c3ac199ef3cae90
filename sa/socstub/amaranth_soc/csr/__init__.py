import enum
from amaranth.hdl import Module
from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out
from ..memory import MemoryMap


class Access(enum.Enum):
    R = "r"
    W = "w"
    RW = "rw"


class Element:
    Access = Access


class FieldPort:
    Access = Access

    class Signature(wiring.Signature):
        def __init__(self, shape):
            super().__init__({"r_data": In(shape), "r_stb": Out(1),
                              "w_data": Out(shape), "w_stb": Out(1)})


class FieldAction(wiring.Component):
    def __init__(self, shape, access, members=()):
        self.sa_access = Access(access)
        super().__init__({"port": In(FieldPort.Signature(shape)),
                          **dict(members)})


class action:
    class R(FieldAction):
        def __init__(self, shape):
            super().__init__(shape, "r", {"r_data": In(shape),
                                          "r_stb": Out(1)})

        def elaborate(self, platform):
            m = Module()
            m.d.comb += [self.port.r_data.eq(self.r_data),
                         self.r_stb.eq(self.port.r_stb)]
            return m

    class W(FieldAction):
        def __init__(self, shape):
            super().__init__(shape, "w", {"w_data": Out(shape),
                                          "w_stb": Out(1)})

        def elaborate(self, platform):
            m = Module()
            m.d.comb += [self.w_data.eq(self.port.w_data),
                         self.w_stb.eq(self.port.w_stb)]
            return m


class Field:
    def __init__(self, cls, *args, **kw):
        self.make = lambda: cls(*args, **kw)


class _Fields:
    pass


class Register:
    def __init_subclass__(cls, *, access=None, **kw):
        super().__init_subclass__(**kw)
        if access is not None:
            cls.sa_access = Access(access)

    def __init__(self):
        self.f = _Fields()
        self.sa_fields = {}
        for name, x in type(self).__annotations__.items():
            if isinstance(x, Field):
                self.sa_fields[name] = x.make()
                setattr(self.f, name, self.sa_fields[name])


class Builder:
    def __init__(self, *, addr_width, data_width, granularity=8):
        self.addr_width, self.data_width = addr_width, data_width
        self.regs, self.next = [], 0

    def add(self, name, reg, *, offset=None):
        width = sum(len(x.port.r_data) for x in reg.sa_fields.values())
        size = -(-width // self.data_width)
        if offset is None:
            offset = self.next
        if offset < self.next or offset + size > 1 << self.addr_width:
            raise ValueError(f"register {name} does not fit")
        self.next = offset + size
        self.regs.append((name, offset, reg))
        return reg

    def as_memory_map(self):
        m = MemoryMap(addr_width=self.addr_width, data_width=self.data_width)
        m.sa_regs = self.regs
        return m


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width):
        super().__init__({"addr": Out(addr_width), "r_data": In(data_width),
                          "r_stb": Out(1), "w_data": Out(data_width),
                          "w_stb": Out(1)})
        self.addr_width, self.data_width = addr_width, data_width


class Bridge(wiring.Component):
    def __init__(self, memory_map):
        super().__init__({"bus": In(Signature(
            addr_width=memory_map.addr_width,
            data_width=memory_map.data_width))})
        self.bus.memory_map = memory_map
        self.sa_regs = memory_map.sa_regs

    def elaborate(self, platform):
        m = Module()
        for _, _, reg in self.sa_regs:
            for x in reg.sa_fields.values():
                m.submodules += x
        return m


class Decoder(wiring.Component):
    def __init__(self, *, addr_width, data_width, alignment=0):
        super().__init__({"bus": In(Signature(addr_width=addr_width,
                                              data_width=data_width))})
        self.map = self.bus.memory_map = MemoryMap(
            addr_width=addr_width, data_width=data_width, alignment=alignment)
        self.sa_subs = []

    def add(self, sub_bus, *, name=None, addr=None):
        a, b = self.map.add_window(sub_bus.memory_map, name=name, addr=addr)
        self.sa_subs.append((sub_bus, a, b, False))
        return a, b

    def elaborate(self, platform):
        return Module()
