#!/bin/bash
# warms the build cache; every check builds the harness again from /repo's working tree
cd "$(dirname "$0")" && exec ./check setup
