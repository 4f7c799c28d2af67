#!/bin/bash
# Nothing has to be prepared: every check builds what it needs from /repo. Building once here
# only shows that the tool chain works.
cd "$(dirname "$0")" || exit 2
VERIF_CASES=2000 ./check.sh C10
