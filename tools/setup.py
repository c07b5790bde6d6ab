"""Builds every driver once, so that the checks start warm."""
import glob
from vlib import *

if __name__ == "__main__":
    bins = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HARNESS, "src", "bin", "*.rs")))
    for v in VARIANTS:
        build(bins, v)
