"""Locate and import the code under test (always /repo's working tree)."""
import os
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import jsgf  # noqa: E402
import jsgf.ext  # noqa: E402
import jsgf.expansions  # noqa: E402
import jsgf.references  # noqa: E402

if not os.path.abspath(jsgf.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("imported jsgf from %s, expected %s" % (jsgf.__file__, REPO))
