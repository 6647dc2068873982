#!/bin/bash
# run.sh <property> quick|thorough [seed=N total=N lanes=N cap=S]   |   run.sh replay <file>
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
source ./env.sh
exec $PY -m harness.engine "$@"
