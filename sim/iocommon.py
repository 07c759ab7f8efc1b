"""What the properties about datasets on disk share."""
import os

from . import workspace

NAMES = ["SynthA", "SynthB"]


def populate(ws):
    workspace.copy_code(ws)
    for n in NAMES:
        os.makedirs(os.path.join(ws, "demod", "datasets", n), exist_ok=True)
    raw = os.path.join(ws, "demod", "datasets", "CREST", "raw_data")
    os.makedirs(raw, exist_ok=True)
    for v in ("2.2", "2.3.3"):
        with open(os.path.join(
                raw, "CREST_Demand_Model_v%s.xlsm" % v), "wb") as f:
            f.write(b"present")


_snap = {}


def snapshot(root):
    _snap["s"] = workspace.snapshot_data(root)


def reset(root):
    workspace.restore_data(root, _snap["s"])


def datasets_dir(root):
    return os.path.join(root, "demod", "datasets")
