"""Hand-written parts of MANIFEST.json."""
import glob
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(ROOT, "checks", "c[0-9][0-9].py")))
NOT_APPLICABLE = {}
HOOKS = None
TECH = {}
NOTE = {}
