import sys
from .prop import main
sys.exit(main(sys.argv[1:]))
