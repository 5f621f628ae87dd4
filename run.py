import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if mode == 'replay':
        rep = json.load(open(sys.argv[3]))
        sys.exit(core.run(prop, rep['tier'], only=rep['unit']))
    if mode == 'unit':
        sys.exit(core.run(prop, os.environ.get('VERIF_TIER', 'quick'), only=sys.argv[3]))
    sys.exit(core.run(prop, mode))
