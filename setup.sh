#!/bin/sh
# Builds everything the checks use.
cd "$(dirname "$0")" && exec python3 -c 'import sys; from lib import plans; sys.exit(plans.setup())'
