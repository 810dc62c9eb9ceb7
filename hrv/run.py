import importlib.util
import os
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
sys.path[0] = os.path.dirname(here)
repo = os.environ.get("HRV_REPO", "/repo")
sys.path.insert(0, repo)
mpl = tempfile.mkdtemp(prefix="hrv_mpl_")
os.environ["MPLCONFIGDIR"] = mpl

import hrosailing  # noqa: E402

if not os.path.realpath(hrosailing.__file__).startswith(
    os.path.realpath(repo) + os.sep
):
    print("hrosailing was not imported from", repo)
    sys.exit(3)

from hrv import core  # noqa: E402

pid = sys.argv[1]
if pid == "selftest":
    rc = core.selftest()
else:
    spec = importlib.util.spec_from_file_location(
        f"check_{pid}",
        os.path.join(os.path.dirname(here), "checks", f"{pid}.py"),
    )
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.stdout.flush()
    rc = core.main(mod.check, sys.argv[2:])
sys.stdout.flush()
core.rmtree_scratch(mpl)
os._exit(rc)
