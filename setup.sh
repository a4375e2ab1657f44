#!/bin/bash
# Checks build what they need themselves; nothing has to be prepared.
cd "$(dirname "$0")" && mkdir -p evidence .work && python3 -c 'import json; json.load(open("checks.json"))'
