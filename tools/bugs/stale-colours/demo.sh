#!/bin/bash
# runs the plugin's common.ts in node, with a small stand-in for the editor and for the backend
set -u
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
/opt/veriftools/node/node_modules/.bin/esbuild /repo/code/common.ts --bundle --platform=node --format=cjs \
    --external:vscode --log-level=error "--outfile=$work/common.js" || exit 3
timeout 60 node "$here/demo.js" "$work/common.js"
