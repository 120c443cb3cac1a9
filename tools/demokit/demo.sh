#!/bin/bash
# Run in the repository; exit 0 if the property holds in the demonstrated case.
exec python3 "$(cd "$(dirname "$0")" && pwd)/run.py"
