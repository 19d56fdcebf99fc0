#!/bin/sh
# Compiles the extension of /repo (plain and sanitized) into /verif/.build.
# Every check does this again when /repo's sources differ.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -c '
import sys
sys.path.insert(0, ".")
from lib import boot
boot.enable_hypothesis()
import hypothesis
print(boot.build_ext(False)); print(boot.build_ext(True))'
