#!/bin/bash
# Nothing to compile: verify that the interpreter and the packages the checks need are there.
cd "$(dirname "$0")" || exit 2
. ./env.sh
"$PY" -c 'import numpy, scipy, pandas, tqdm, cv2, PIL, cameratransform; print("ok", cameratransform.__file__)'
