#!/bin/bash
# dev helper: build the harness the way the checks do
cd /verif && python3 check.py --build 2>&1 | grep -E "^(error|warning: unused)|^ +--> (harness|/repo.*error)|^error|^built|CHECK" -A6 | head -${1:-60}
