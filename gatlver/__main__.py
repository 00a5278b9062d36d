import sys
from gatlver.run import main
sys.exit(main(sys.argv[1:]))
