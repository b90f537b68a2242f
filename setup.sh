#!/bin/bash
# setup.sh: builds the engine, the core libraries of all targets and the harness of all configurations
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_engine || exit 2
./engine/target/release/amuck selftest || exit 2
./engine/target/release/amuck setup
