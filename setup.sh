#!/bin/bash
# builds the extractor and the driver once (checks rebuild both against the current tree anyway)
cd "$(dirname "$0")" || exit 1
python3 -c 'import check; check.build_extract(); assert check.build_driver()' || exit 1
verus --version >/dev/null
