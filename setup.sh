#!/bin/bash
# Builds the binaries the checks need, so that the checks only rebuild what changed.
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/veriftools/pyvenv/bin/python -c "
import sys; sys.dont_write_bytecode = True; sys.path.insert(0, '$here/lib'); import vlib
vlib.build('o1', ('slang', 'slang-pkg', 'slang-dbg', 'slang-app'))
vlib.build('asan', ('slang',))
"
