#!/bin/bash
# dev: regenerate the generated files and commit
cd "$(dirname "$0")" && python3 tools/mkprops.py && python3 tools/mkmeta.py && python3 tools/mkfindings.py && python3 tools/design_props.py && git add -A && git commit -qm "$1" && git log --oneline | head -1
