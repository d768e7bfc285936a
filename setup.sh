#!/bin/bash
# Sanity: the interpreter, Hypothesis and the code under test import.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec ./check --self-test
