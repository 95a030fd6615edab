#!/bin/bash
# Nothing to build: check that the interpreter and the engine work.
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from pbt.engine import Data, shrink
def run(c):
    d = Data(prefix=c); xs = [d.int(0, 100) for _ in range(d.int(0, 8))]
    return sum(xs) > 60, d.choices
best = shrink(run, [8, 50, 60, 70, 3, 4, 5, 6, 7], lambda: 10**6)
assert len(best) <= 3 and run(best)[0], best
print('engine ok')
"
