"""setup_cmd: builds the tools and drivers from /repo into the cache."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
build.build_tools(build.APPS, [os.path.relpath(p, build.VERIF) for p in sorted(glob.glob(os.path.join(build.VERIF, "drivers/*.cpp")))])
print("tools built")
