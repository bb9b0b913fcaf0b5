#!/bin/bash
# Builds the native extensions (plain and sanitized) into .cache, once.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -m harness.ext
