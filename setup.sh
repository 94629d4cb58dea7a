#!/bin/sh
# builds the flavours and targets the checks use from /repo's working tree, into .cache
cd "$(dirname "$0")" && exec python3-vt -m pbt.build plain:pasm asan:pasm asan:unitdrv asan:eolconvert
