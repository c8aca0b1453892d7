"""python3 check.py <property id>: decide one property on /repo's current source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.core import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
