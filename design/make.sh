#!/bin/bash
# writes DESIGN.md
cd "$(dirname "$0")"
(cat head.md; python3 props.py; python3 fixes.py; echo; python3 seeded.py; cat tail.md) > ../DESIGN.md
