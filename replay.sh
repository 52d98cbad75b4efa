#!/bin/bash
# usage: replay.sh evidence/replay/CNN.json -- re-runs one recorded counterexample without the explorer
exec "$(dirname "$0")/run.sh" --replay "$(realpath "$1")"
