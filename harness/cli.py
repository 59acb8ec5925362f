import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.remove(os.path.dirname(os.path.abspath(__file__)))

from harness import runner  # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1]
    if sys.argv[2] == '--replay':
        code = runner.main(prop, 'quick', sys.argv[3])
    else:
        code = runner.main(prop, sys.argv[2])
    sys.stdout.flush()
    sys.exit(code)
