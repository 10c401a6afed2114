import sys
from mc.core import main

if __name__ == "__main__":
    sys.exit(main())
