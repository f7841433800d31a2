#!/bin/sh
# Builds everything from the committed files, offline.
exec "$(dirname "$0")/build.sh" all
