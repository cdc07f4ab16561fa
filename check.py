"""Entry point: check.py <property-id> [--tier ...] [--replay FILE]."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import bootstrap  # noqa: E402

bootstrap.setup()
from pbt import core  # noqa: E402

if __name__ == "__main__":
    try:
        code = core.main()
    except Exception:
        import traceback

        traceback.print_exc()
        print("HARNESS ERROR")
        code = 2
    sys.stdout.flush()
    os._exit(code)
