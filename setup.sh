#!/bin/bash
# Builds the framework: compiles the code under test once and checks that the tools are there.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -c 'from mc import build; print(build.load().__version__)'
