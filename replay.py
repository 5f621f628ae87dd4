"""replay.py FILE: re-execute the work unit that produced a violation."""
import json
import os
import sys

rep = json.load(open(sys.argv[1]))
os.execv('/bin/bash', ['bash', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'run.sh'),
                       rep['property'], 'replay', os.path.abspath(sys.argv[1])])
