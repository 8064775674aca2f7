"""Identity of a call description."""
import json


def key_of(op) -> str:
    return json.dumps([op["k"], op.get("a", []), op.get("kw", {}), op.get("m", "eager")], sort_keys=True, separators=(",", ":"))
