import sys

from . import boot  # noqa
from .runner import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
