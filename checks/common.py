import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import cases as C  # noqa: E402
import cases_b as B  # noqa: E402
import gen  # noqa: E402
import harness as H  # noqa: E402
import refurl as M  # noqa: E402
import workloads as W  # noqa: E402
from workloads import shard, drive, nosurr  # noqa: E402

MODEL = "oracle: /verif/lib/refurl.py, an independent transcription of the WHATWG URL Standard (snapshot fff33c3) that passes the project's WPT data"
ICU = "ICU (through icupy) is trusted for Unicode ToASCII/ToUnicode; the model and the library call the same ICU"


QUICK = {"C13": 1, "C14": 2, "C01": 2, "C02": 2, "C20": 1, "C23": 1}


def N(m, quick, thorough):
    """random cases per worker"""
    n = quick * QUICK.get(m.pid, 3) if m.tier == "quick" else thorough
    n = min(n, thorough) if m.tier == "quick" else n
    return int(n * float(os.environ.get("VERIF_SCALE", "1")))


def deep(m):
    return m.tier != "quick"


def matches_known(k, v):
    return k.get("kind") == v["kind"] and k.get("case") == v["case_repr"]


def reproduce_known(k):
    return False
