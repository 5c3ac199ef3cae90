"""Stand-ins for the parts of amaranth-soc the example SoC is built from (the
package is not installed).  They record the address map by amaranth-soc's
allocation rule and leave its own logic (decoders, bridges) out: what the
decoders and bridges drive becomes a free input of the netlist analysed."""
