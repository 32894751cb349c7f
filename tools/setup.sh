#!/bin/bash
# Nothing is needed from setup: each check builds its own harness. Only verify that the tools are there.
set -e
clang++ --version >/dev/null && g++ --version >/dev/null && python3 --version >/dev/null
