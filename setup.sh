#!/bin/bash
# builds the verifier from the committed sources (every check rebuilds it when it is missing)
cd "$(dirname "$0")" && python3 -c "import check; check.build_govc()" && mkdir -p evidence replays && echo ok
