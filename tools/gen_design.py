"""Rewrites the generated parts of DESIGN.md: the enumerated spaces (from the modules' BOUNDS)."""
import importlib, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get("VERIF_REPO", "/repo")]
sys.dont_write_bytecode = True
out = []
for i in range(1, 31):
    m = importlib.import_module(f"mc.props.c{i:02d}")
    out.append(f"* **C{i:02d}** {m.BOUNDS['quick']}. *Thorough:* {m.BOUNDS['thorough']}.")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)<!-- bounds -->.*<!-- /bounds -->", lambda _: "<!-- bounds -->\n" + "\n".join(out) + "\n<!-- /bounds -->", s)
open(p, "w").write(s)
