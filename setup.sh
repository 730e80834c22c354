#!/bin/bash
# Verifies that the harness builds offline; checks rebuild it themselves.
root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
exec "$root/check.sh" C29 quick
