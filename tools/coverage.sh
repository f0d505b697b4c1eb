#!/bin/bash
# tools/coverage.sh [SCALE]: line coverage of vl/*.c by all harnesses.
# Works in a scratch build directory given by VT_BUILD (required).
cd "$(dirname "$0")/.."
: "${VT_BUILD:?set VT_BUILD to a scratch directory}"
for h in kdtree math base imop kmeans gmm learn sift hog scalespace covdet mser segment pgm threads mex life; do
  exe=$(python3 -c "
import sys;sys.path.insert(0,'lib');sys.path.insert(0,'.')
import run
print(run.build_harness('$h','cov'))") || continue
  timeout 900 "$exe" --scale "${1:-0.1}" --out /dev/null > /dev/null 2>&1 || echo "$h: exit $?"
done
cd "$VT_BUILD/obj" && for f in cov-*.gcda; do gcov -o . "$f" > /dev/null 2>&1; done
ls -1 *.c.gcov | head -100
