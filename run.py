import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get("KG_REPO", "/repo"))
sys.path.insert(0, HERE)
# property-based testing libraries (hypothesis, mpmath) from the pre-installed tool environment
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

# the code under test is imported before anything is forked
import kerrgeopy  # noqa: E402,F401
from kgcheck.main import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
