from .dump import build_tool, load_units, UNITS
build_tool()
load_units(list(UNITS))
print("ready")
