#!/bin/bash
# Warm the Go build cache for the harness; the checks rebuild what they need themselves.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here/harness" && go build -o /dev/null ./... 
