"""Run the repository's own test suite over the symbolic numpy (validation of the shim)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import loader

sys.path.append(loader.VT)
loader.setup_paths()
import numpy, pandas, scipy.ndimage, scipy.spatial.transform, matplotlib.pyplot, pytest, unittest

from engine import core

loader.install_shim(("test",))


class P:
    @pytest.hookimpl(tryfirst=True)
    def pytest_runtest_setup(self, item):
        core.CUR[0] = core.Ctx()

    @pytest.hookimpl(tryfirst=True)
    def pytest_collection(self, session):
        core.CUR[0] = core.Ctx()


core.CUR[0] = core.Ctx()
os.chdir(loader.REPO)
args = [a for a in sys.argv[1:]] or ["test"]
sys.exit(pytest.main(["-q", "-p", "no:cacheprovider", "-p", "no:asyncio", "--tb=short", "-o", "python_files=test_*.py int_test_*.py"] + args, plugins=[P()]))
