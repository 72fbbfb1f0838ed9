"""Worker process (PyPy): executes scenarios on the real code."""
import json, os, socket, sys, traceback
sys.path.insert(0, os.environ["VERIF_HARNESS"])
if os.environ["VERIF_BACKEND"] == "asyncio":
    sys.modules["signalfd"] = None      # as if it was not installed
    stdout, sys.stdout = sys.stdout, open(os.devnull, "w")
    sys.path.insert(0, os.environ["VERIF_REPO"])
    import pieshell
    sys.stdout = stdout
else:
    sys.path.insert(0, os.environ["VERIF_REPO"])
    import pieshell
import drv

def main():
    s = socket.socket(fileno=int(os.environ["VERIF_SOCK"]))
    os.set_inheritable(s.fileno(), False)
    f = s.makefile("rb")
    while True:
        line = f.readline()
        if not line: return
        scn = json.loads(line)
        try:
            r = drv.run(scn)
        except drv.Mismatch as e:
            r = dict(ok=False, kind=e.kind, msg=str(e), step=e.step)
        except drv.Machinery as e:
            r = dict(ok=False, kind="machinery", msg=traceback.format_exc())
        except Exception as e:
            r = dict(ok=False, kind="exception", msg=traceback.format_exc())
        s.sendall(json.dumps(r).encode() + b"\n")
main()
os._exit(0)
