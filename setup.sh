#!/bin/bash
# Builds and runs the self-test of the reference models and the explorer (no BATS code involved).
set -e
cd "$(dirname "$0")"; mkdir -p build evidence
g++ -std=c++17 -O1 -w -Ilib src/selftest.cpp -o build/selftest
build/selftest run --tier quick --out build/selftest.json
python3 -c "
import json; d=json.load(open('build/selftest.json')); assert not d['violations'] and not d['infra_error'], d
print('selftest ok:', sum(p['executions'] for p in d['parts']), 'executions')"
