#!/bin/bash
# bash check.sh ID [quick|thorough] | --replay FILE | --list
# Runs one check against the working tree of /repo. No byte code is read from
# or written to /repo, so the check sees exactly the current sources.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX="$work/pyc"
export PYTHONPATH="${MC_REPO:-/repo}/src:$PWD" TMPDIR="$work"
/opt/venv/bin/python -m mc.main "$@"
