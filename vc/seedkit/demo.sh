#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it does not.  cwd: the repository
here="$(cd "$(dirname "$0")" && pwd)"; out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
F="-m32 -std=gnu++17 -O0 -g -w -fno-rtti -fno-exceptions -fsingle-precision-constant -ffunction-sections -fdata-sections -D_GNU_SOURCE -DCONFIG_C3P_CBOR -DCONFIG_C3P_M2M_SUPPORT -DCONFIG_C3P_IMG_SUPPORT -DCONFIG_C3P_TRACE_ENABLED $(cat "$here/flags.txt" 2>/dev/null) -Isrc"
S="$here/demo.cpp $here/plat.cpp"; for f in $(cat "$here/sources.txt"); do for g in src/$f; do S="$S $g"; done; done
export F out; printf '%s\n' $S | xargs -P 8 -I{} sh -c 'g++ $F -c "{}" -o "$out/$(echo "{}" | tr / _).o" || exit 255' || exit 3
g++ $F -Wl,--gc-sections "$out"/*.o -o "$out/demo" -lm || exit 3
timeout 120 "$out/demo"
