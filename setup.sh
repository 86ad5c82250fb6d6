#!/bin/bash
# Warms the build cache. Every check builds what it needs itself.
here=$(cd "$(dirname "$0")" && pwd)
"$here/check.sh" list > /dev/null
