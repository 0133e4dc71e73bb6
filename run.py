import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kzmon import mon  # noqa: E402

sys.exit(mon.Main(sys.argv[1:]))
