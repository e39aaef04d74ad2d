#!/bin/bash
cd /verif && python3 -c "
from vlib import build
try: print(build.build_april())
except Exception as e: print(str(e)[-3000:])"
