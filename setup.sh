#!/bin/bash
# Builds the simulator once, so that the checks only rebuild what changed in /repo.
here=$(cd "$(dirname "$0")" && pwd)
exec bash "$here/tools/build.sh"
