#!/bin/bash
# One-time preparation: compile the monitors (dependencies included).
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/lib.sh"
build_mon || exit 1
build_crypto || exit 1
