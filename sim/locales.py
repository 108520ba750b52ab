"""Locales that differ from C in digits grouping, decimal point, case rules and encoding,
compiled into a scratch directory (none are installed)."""
import os
import shutil
import subprocess
import tempfile

WANT = [("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("fa_IR", "UTF-8")]
DIR = None


def make():
    """names of the locales that could be made"""
    global DIR
    DIR = tempfile.mkdtemp(prefix="sim-loc-")
    jobs = []
    for loc, cs in WANT:
        try:
            jobs.append((loc + "." + cs, subprocess.Popen(
                ["localedef", "-i", loc, "-f", cs, os.path.join(DIR, loc + "." + cs)],
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)))
        except OSError:
            pass
    out = []
    for n, p in jobs:
        p.wait()
        if os.path.exists(os.path.join(DIR, n, "LC_NUMERIC")):
            out.append(n)
    return out


def remove():
    if DIR:
        shutil.rmtree(DIR, ignore_errors=True)
