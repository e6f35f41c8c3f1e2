#!/bin/bash
# Build what the checks have in common.
cd "$(dirname "$0")" && exec python3 -c '
import common, tempfile, os, shutil, sys
os.makedirs(common.BUILD, exist_ok=True)
d = tempfile.mkdtemp(dir=common.BUILD)
try:
    common.build_sim(common.env_seed(), d)
except common.BuildError as e:
    sys.stderr.write(e.log[-4000:])
finally:
    shutil.rmtree(d, ignore_errors=True)
'
