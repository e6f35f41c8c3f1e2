#!/usr/bin/env python3
"""replay.py FILE: rebuild the simulator with the call sites of a replay file and run it again."""
import os, re, shutil, subprocess, sys, tempfile
from common import *

def main():
    path = os.path.abspath(sys.argv[1])
    text = open(path).read()
    if text.startswith("effect"):
        import c26
        return c26.replay(path)
    if text.startswith("expand"):
        import c12
        return c12.replay(path)
    gen_seed = int(re.search(r"^gen-seed (\d+)", text, re.M).group(1))
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        try:
            build_sim(gen_seed, work)
        except BuildError as e:
            sys.stderr.write(e.log[-6000:])
            if text.startswith("compile") and e.sites:
                print("VIOLATION property=C01 replay=" + path)
                return 1
            return 2
        if text.startswith("compile"):
            print("not reproduced")
            return 0
        return subprocess.run([os.path.join(work, "dst"), "replay", path] + sys.argv[2:]).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(guarded(main))
