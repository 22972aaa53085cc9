#!/bin/bash
# regenerate all that is generated
cd "$(dirname "$0")/.." && python3 tools/mkfixed.py && python3 tools/mkmeta.py && python3 tools/mkdesign.py
