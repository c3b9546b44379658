#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE           run a saved violation again
# check.sh setup                 build everything once (fails early when something is missing)
exec python3 "$(dirname "$(readlink -f "$0")")/tools/check.py" "$@"
