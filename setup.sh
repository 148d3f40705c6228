#!/bin/sh
# Nothing to prepare: every check builds what it needs from /repo's tree.
python3 -V && go version
