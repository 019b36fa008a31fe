#!/bin/bash
# Builds the facts driver and the facts of the current tree (each check can also do both by itself).
cd "$(dirname "$0")" && python3 -c 'import sys; sys.path.insert(0,"lib"); import facts; print(facts.get_facts_path())'
