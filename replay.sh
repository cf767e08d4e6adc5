#!/bin/bash
# usage: replay.sh <replay file>     re-executes a minimised violation; exit 1 if it reproduces
cd "$(dirname "$0")" && exec env -u LD_PRELOAD PYTHONPATH= /opt/venv/bin/python -W ignore -m sim.main replay "$1"
