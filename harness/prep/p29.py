import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import instrument
instrument.make(sys.argv[1], sys.argv[2], "errors", "gxerrors")
