import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from framework import main
if __name__ == '__main__':
    sys.exit(main(sys.argv))
