#!/bin/bash
# usage: run.sh <check id> quick|thorough       exit 0: held; exit 1 + VIOLATION line: violated
cd "$(dirname "$0")" && exec env -u LD_PRELOAD PYTHONPATH= /opt/venv/bin/python -W ignore -m sim.main run "$1" "${2:-${VERIF_TIER:-quick}}"
