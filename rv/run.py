import sys
from rv.core import main
sys.exit(main(sys.argv[1:]))
