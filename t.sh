#!/bin/bash
# dev helper: t.sh <scenario> <runs> [seed]
cd /tmp; timeout 300 /verif/target/debug/simcheck worker $1 ${3:-1} 0 1 $2 60000 /tmp/prog /tmp/hf 2>&1 | cut -c1-${4:-900}; echo
