"""Imports the library under test behind the installed seams."""
import os
import sys
from . import sim as _sim

_sim.install()
sys.dont_write_bytecode = True
REPO = os.environ.get('TFCHAIN_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import tfchain  # noqa: E402
import tfchain.TFChainClient  # noqa: E402
import tfchain.TFChainWallet  # noqa: E402
import tfchain.TFChainExplorerClient  # noqa: E402
from tfchain import errors as E  # noqa: E402
from tfchain.types import transactions as T  # noqa: E402
from tfchain.types import ConditionTypes as CT  # noqa: E402
from tfchain.types.PrimitiveTypes import Currency, Hash, BinaryData  # noqa: E402
from tfchain.types.ConditionTypes import UnlockHash  # noqa: E402

assert os.path.realpath(tfchain.__file__).startswith(os.path.realpath(REPO) + os.sep), tfchain.__file__

WalletsBalance = tfchain.TFChainWallet.WalletsBalance
WalletBalance = tfchain.TFChainWallet.WalletBalance
TFChainClient = tfchain.TFChainClient.TFChainClient
NetworkType = tfchain.TFChainClient.NetworkType
TFChainWallet = tfchain.TFChainWallet.TFChainWallet
ExplorerClient = tfchain.TFChainExplorerClient.TFChainExplorerClient


def units(c):
    """Currency (or 0) -> integer units"""
    if c is None:
        return None
    if isinstance(c, int) and not isinstance(c, bool):
        return c if c == 0 else c * 10 ** 9
    j = c.json()
    return int(j)
