"""Re-run the native driver of a property against /repo and show its failing inputs."""
import importlib, sys
from .run import run_drivers
if __name__ == "__main__":
    P = importlib.import_module("specs." + sys.argv[1]).PROP
    ds = P["driver"]
    r = run_drivers(ds if isinstance(ds, list) else [ds], sys.argv[2] if len(sys.argv) > 2 else "quick", 1, [])
    print(r["status"], r["counts"])
    for f in r["fails"][:20]:
        print("FAIL", f)
