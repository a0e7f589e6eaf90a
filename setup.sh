#!/bin/bash
# Nothing to install: checks that the tools the checks use are there.
set -e
python3-vt -c 'import hypothesis, sys; assert sys.version_info[:2] >= (3, 8)'
gcc --version >/dev/null
test -d /repo/Cheetah
