#!/bin/bash
# Builds the harness once; every check builds again what changed.
exec bash "$(cd "$(dirname "$0")" && pwd)/run.sh" build
