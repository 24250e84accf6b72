"""Process set-up: imports the library from /repo's working tree, headless and single-threaded."""
import os
import sys
import tempfile
import warnings

for _k, _v in dict(MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   NUMEXPR_NUM_THREADS="1").items():
    os.environ[_k] = _v
os.environ.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "verif-mpl-%d" % os.getuid()))
os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np            # noqa: E402
import pandas as pd           # noqa: E402
import matplotlib             # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as plt   # noqa: E402
import tti                    # noqa: E402
import tti.indicators as TIM  # noqa: E402
from tti.utils import fillMissingValues                      # noqa: E402
from tti.utils.plot import linesGraph                        # noqa: E402
from tti.utils.data_validation import validateInputData      # noqa: E402
from tti.utils.trading_simulation import TradingSimulation   # noqa: E402
from tti.utils.exceptions import (NotEnoughInputData, WrongTypeForInputParameter,  # noqa: E402
                                  WrongValueForInputParameter, NotValidInputDataForSimulation)

np.seterr(all="ignore")
assert os.path.realpath(tti.__file__).startswith(os.path.realpath(REPO)), tti.__file__


class _Dummy:
    """Accepts everything a figure or an axes object is asked to do."""
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self

    def __call__(self, *a, **k):
        return self

    def __getitem__(self, k):
        return self

    def __iter__(self):
        return iter([self, self])

    def __len__(self):
        return 2

    def __bool__(self):
        return True

    def _num(self, *a):
        return 1.0
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __float__ = _num


class no_plot:
    """Replaces figure creation by a recorder-free stand-in (pyplot is outside the system under test here)."""
    def __enter__(self):
        self.saved = plt.subplots

        def subplots(nrows=1, ncols=1, **kw):
            n = nrows * ncols
            d = _Dummy()
            if n == 1:
                return d, d
            a = np.empty(n, dtype=object)
            for i in range(n):
                a[i] = _Dummy()
            return d, a
        plt.subplots = subplots
        return self

    def __exit__(self, *a):
        plt.subplots = self.saved
        return False


def cls(name):
    return getattr(TIM, name)
