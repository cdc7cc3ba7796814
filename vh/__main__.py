import sys
from .engine import main

code = main(sys.argv[1:])
sys.stdout.flush()
import os

os._exit(code)
