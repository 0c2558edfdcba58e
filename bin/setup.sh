#!/bin/bash
# Builds the exporter and exports the std models once.
V="$(cd "$(dirname "$0")/.." && pwd)"
T="$(mktemp -d)"
"$V/bin/export.sh" "$T"
rc=$?
rm -rf "$T"
exit $rc
