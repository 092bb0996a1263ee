"""python check.py C01 [--thorough]: decide one property against the working tree in /repo."""
import importlib, os, sys, traceback
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("p" + pid[1:])
    chk = lib.Check(pid)
    try:
        mod.run(chk, lib.TIER == "thorough")
    except lib.MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 3
    except lib.CodeBroken as e:
        chk.bad.append({"spec": "loading", "clauses": ["importable"], "input": {"error": str(e)}})
    except lib.Unobservable as e:
        chk.bad.append({"spec": "observation", "clauses": ["observable"], "input": {"error": str(e)}})
    except Exception:
        text = traceback.format_exc()
        if lib.REPO + "/" not in text:
            raise
        print(text)
        chk.bad.append({"spec": "observation", "clauses": ["observable"], "input": {"error": text[-1500:]}})
    return chk.finish()


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
