import sys
from . import registry
sys.exit(registry.main(sys.argv[1:]))
