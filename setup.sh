#!/bin/bash
# builds the replay crate (both feature sets) and, with it, the rlibs Verus links
cd "$(dirname "$0")" && exec python3 -c "
import check
for sp in (False, True):
    b, e = check.build(sp)
    print(b, e)
    assert b
"
