"""Entry point of every check: ./check <ID>"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
