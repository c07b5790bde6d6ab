"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
REPLAY = "TLA+ specification checked with TLC; every edge of its state graph replayed into the real code"
TRACE = "; recorded random histories validated by a TLC trace specification"
C = {}
def c(id, script, technique, level, note):
    C[id] = dict(property=id, quick_cmd=f"python3 tools/{script} {id}", thorough_cmd=f"env VERIF_TIER=thorough python3 tools/{script} {id}",
                 technique=technique, level=level, level_note=note)
BY = ("Exhaustive over the model's small constants (2 values, 3 storages, lengths at the inlining "
      "threshold, every constructor), each class of edges replayed in debug+stabby and release builds; "
      "longer random histories (5 values, lengths 0..127, other threads) are accepted or rejected by TLC. "
      "Trusts the driver's projection, the checking allocator and TLC.")
c("C01", "c_bytes.py", REPLAY + TRACE, "model_checking", BY)
c("C02", "c_bytes.py", REPLAY + TRACE, "model_checking", BY)
c("C03", "c_bytes.py", REPLAY + TRACE, "model_checking", BY)
exec(open(os.path.join(HERE, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "manifest_more.py")) else None
m = dict(version=1, setup_cmd="./setup.sh", checks=[C[p["id"]] for p in props if p["id"] in C],
         not_applicable=[dict(property=p["id"], reason="no check built yet") for p in props if p["id"] not in C])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
