"""setup_cmd: parse every source once (fills the front-end cache; the checks do it themselves otherwise)."""
import sys
from .loader import Program


def main():
    p = Program()
    print("parsed %d modules" % len(p.modules))
    return 0


if __name__ == "__main__":
    sys.exit(main())
