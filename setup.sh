#!/bin/bash
# Unpacks Hypothesis (from the offline wheelhouse) into .deps, where the checks find it.
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -B pbt/deps.py
