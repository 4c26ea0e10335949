import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:2] == ["setup"]:  # nothing to build: fvhoe is imported from /repo
        core.bootstrap()
        import hypothesis

        print("hypothesis", hypothesis.__version__)
        sys.exit(0)
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(core.main_replay(os.path.abspath(sys.argv[2])))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.main_check(sys.argv[1], tier))
