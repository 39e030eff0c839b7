#!/bin/bash
# show goal of an obligation: gl.sh module idx [lines]
f=$(ls /tmp/w/dev/*$1*.d/z3/*vc$2.smt2); tail -${3:-30} $f | cut -c1-250; echo $f
