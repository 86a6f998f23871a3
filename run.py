#!/opt/veriftools/pyvenv/bin/python
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import main
sys.exit(main.main(sys.argv[1:]))
