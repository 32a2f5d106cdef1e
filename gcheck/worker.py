import sys

from gcheck.engine import worker_main

if __name__ == "__main__":
    worker_main(sys.argv[1:])
