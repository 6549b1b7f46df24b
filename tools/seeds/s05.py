ID = "s05"; PROPERTY = "P21"
NEEDS = "a template in which the name of a known parameter occurs without the angle brackets (in a comment, say) but not as a placeholder"
BREAKS = "a parameter that occurs only as plain text is reported as used"
EDITS = [("mlmc/tool/flow_mc.py", "        n_repl = text.count(placeholder)\n", "        n_repl = text.count(name)\n")]
DEMO = """
from mlmc.tool.flow_mc import substitute_placeholders
open("t", "w").write("# porosity is constant\\nmesh: <mesh_file>\\n")
used = substitute_placeholders(os.path.abspath("t"), os.path.abspath("o"), {"porosity": 1, "mesh_file": "m.msh"})
assert used == ["mesh_file"], used
assert open("o").read() == "# porosity is constant\\nmesh: m.msh\\n"
"""
