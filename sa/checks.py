"""Dispatch from property to analysis."""
from . import main as M
from . import props

EXPL = ("Dataflow over the micro-control-flow graph of the elaborated "
        "netlist: per instruction class, the state at every edge on which a "
        "next instruction word is accepted is compared, as canonical terms, "
        "with the oracle.")
STEP = ("For every combination of the field values concerned, one clock step of "
        "the elaborated core, with every other microcode field, register and "
        "input an unknown, is compared as canonical terms with the "
        "documented effect.")
SOC = ("The example's components are elaborated (the absent amaranth_soc "
       "replaced by declarations that record the address map); every rule is "
       "a comparison, as canonical terms bit by bit, over abstract clock "
       "cycles in which all registers and inputs are unknowns. ")
# property -> (module, function, level, explanation)
OTHER = {
    "P30": ("structural", "instrumentation", "proof",
            "The plain and the instrumented core are elaborated; their "
            "registers are paired by hierarchical name and, for every "
            "microword, the next state, bus outputs, microaddress and "
            "register memory accesses are compared as canonical terms over "
            "shared unknowns, with the instrumentation's own registers "
            "unconstrained."),
    "P31": ("structural", "clocking", "proof",
            "Netlist rules over every storage cell (clock, edge, reset) and "
            "backward combinational cones of every bus output bit; a "
            "syntactic path counts if some reachable microword leaves it "
            "open."),
    "P32": ("ucode", "layout", "translation_validation",
            "The shipped microcode source is assembled by the assembler alone "
            "and compared, word by word and field bit by field bit, with the "
            "netlist of the microcode ROM component and of the core; a "
            "systematic family of generated sources (field kinds, widths, "
            "gaps, holes) is elaborated and its netlists are compared with "
            "the declared origins in the same way."),
    "P33": ("ucode", "mismatch", "other",
            "Compile-fail witnesses: for every field of the shipped source "
            "and every single-point disagreement with its field map entry, "
            "a source/map pair that must be refused with ValueError; the "
            "undisturbed pair must build."),
    "P34": ("micro", "sequencing", "proof", STEP),
    "P35": ("micro", "alu", "proof", STEP),
    "P36": ("micro", "routing", "proof", STEP),
    "P37": ("micro", "registers", "proof", STEP),
    "P38": ("micro", "memory", "proof", STEP),
    "P39": ("micro", "exceptions", "proof", STEP),
    "P40": ("micro", "decoding", "proof", STEP),
    "P42": ("isa", "encodings", "proof",
            "Every named constant and layout field is compared with the "
            "specification's table; every slice of the instruction view is "
            "elaborated over an unknown word and compared bit by bit, as "
            "canonical terms."),
    "P41": ("genflow", "generator", "proof",
            "Path-sensitive typestate analysis of the generator's syntax "
            "tree: every path from generate() and from _main(), with the "
            "error edge of every call, is enumerated over abstract options; "
            "the design, its name, where the text goes and whether the file "
            "is closed are checked at the end of each."),
    "P43": ("ports", "contract", "proof",
            "The ports of both elaborated designs (name, direction, width) "
            "are compared with the documented table and with the connections "
            "of the wrapper that instantiates the core; bus output bits "
            "driven by nothing or by a constant are reported."),
    "P44": ("soc", "handshake", "proof", SOC + "One access is two abstract "
            "cycles from any state."),
    "P45": ("soc", "memory", "proof", SOC + "One access is two abstract "
            "cycles from any state; the memory's ports are compared."),
    "P46": ("soc", "interrupts", "proof", SOC + "An access that spans an "
            "event in any of its cycles is covered by the unknowns."),
    "P47": ("soc", "uart", "exploration", SOC + "Whole frames are followed from the "
            "idle state for a set of divisors; retention and overflow are "
            "inductive rules from any state."),
    "P48": ("soc", "firmware", "translation_validation", SOC + "The firmware's "
            "base addresses, offsets and linker region, parsed from its "
            "source, are compared with the address map the SoC builds and "
            "with its reset-time interrupt state."),
    "P49": ("tasks", "coherent", "other",
            "Constant propagation over the syntax tree of dodo.py gives every "
            "task's commands, dependencies and targets; each reference (file, "
            "placeholder, task, script, option, callable) is resolved against "
            "the tree, and files a command reads are compared with the "
            "declared dependencies."),
    "P50": ("tasks", "formal", "other",
            "Constant propagation over dodo.py gives the checks run and "
            "reported, compared with those tests/formal/checks.cfg "
            "configures; the reporting function is interpreted abstractly "
            "for each status word."),
    "P51": ("package", "independent", "other",
            "Every write, in-place change and call of the package's functions "
            "is resolved by a may-alias analysis over its syntax trees to the "
            "objects it can change; those that outlive one design (module "
            "and class variables, default values, constructor arguments, "
            "other modules) are reported, as are hardware objects held "
            "by classes, modules, defaults or caches, and results that "
            "depend on time, chance, environment or hash order."),
    "P52": ("package", "complete", "other",
            "Imports, names, enumeration members and file paths of every "
            "module are resolved against the package, Python's standard "
            "library and the declared dependencies; the import order is "
            "replayed abstractly with each module first."),
}


def run(pid, tier, o):
    if pid in props.P:
        return M.core_check(pid, tier, o)
    if pid in OTHER:
        import importlib
        mod, fn = OTHER[pid][:2]
        return getattr(importlib.import_module("." + mod, __package__),
                       fn)(o, tier)
    from .frontend import AnalysisBroken
    raise AnalysisBroken(f"unknown property {pid}")


def about(pid):
    if pid in OTHER:
        _, _, level, expl = OTHER[pid]
        return level, expl, M.TRUSTED[:3], []
    if pid in props.P and props.P[pid]["formal"]:
        return "proof", EXPL.replace(
            "with the oracle", "with what the trace port reports; the "
            "reference is the same netlist's program counter, registers, "
            "CSR views and bus transfers"), M.TRUSTED, M.ASSUME
    return "proof", EXPL, M.TRUSTED, M.ASSUME
