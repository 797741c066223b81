#!/bin/bash
# builds the harness and the IR of /repo's current tree (checks rebuild it themselves)
cd "$(dirname "$0")" && PYTHONPATH=vlib /opt/veriftools/pyvenv/bin/python3 -c 'import build; build.build_main(); print("ok")'
