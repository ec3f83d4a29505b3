#!/bin/bash
# Nothing to build: the code under test is pure Python and the checks import it
# from /repo.  Verify that the interpreters and libraries needed are present.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence replays
exec bash run.sh --selftest
