"""Which monitor module (cargo feature of harness/) decides which property."""
import os, re
SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src")
MODULE_OF = {}
for f in sorted(os.listdir(SRC)):
    text = open(os.path.join(SRC, f)).read()
    m = re.search(r"pub const TABLE[^=]*=\s*&\[(.*?)\];", text, re.S)
    if m:
        for p in re.findall(r'\("([A-Z]\d+)"', m.group(1)):
            MODULE_OF[p] = f[:-3]
MEMORY = []
for p in MEMORY:
    MODULE_OF[p] = "memory"
