#!/bin/bash
# usage: check.sh Cxx [quick|thorough]   (run in /verif)
cd "$(dirname "$0")" || exit 2
. ./env.sh
./setup.sh >&2 || exit 2
exec ./bin/nobscheck -verif "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
