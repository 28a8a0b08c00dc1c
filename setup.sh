#!/bin/bash
# nothing to build: check that the interpreter, the libraries and the code under test import
cd "$(dirname "$0")" || exit 1
./check --list
