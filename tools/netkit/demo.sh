#!/bin/bash
# exit 0: the property holds in the scenario of main.py; non-zero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec timeout 200 python3 "$here/main.py"
