"""run.py <property id> [--replay FILE]   (VERIF_SEED, VERIF_TIER)"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import vkit
sys.exit(vkit.main(sys.argv[1:]))
