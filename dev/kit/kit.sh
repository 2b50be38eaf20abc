# builds demo.c (which includes the units named in $OWN) with every other unit of the library and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/inc"; : > "$T/inc/poison.h"
export CF="-O1 -g -w -D_GNU_SOURCE -pthread -DXXH_STATIC_LINKING_ONLY -fPIC -DSPLINTERDB_PLATFORM_DIR=platform_linux -DGIT_VERSION=\"demo\" -I$T/inc -Iinclude -Isrc -Isrc/platform_linux $XCF" T
ls src/*.c src/platform_linux/*.c > "$T/units"
for u in $OWN; do grep -vx "$u" "$T/units" > "$T/u2"; mv "$T/u2" "$T/units"; done
xargs -P8 -I{} sh -c 'gcc $CF -c {} -o $T/$(echo {} | tr / _).o' < "$T/units" || exit 2
gcc $CF -c "$D/demo.c" -o "$T/demo.o" || exit 2
gcc $LF -o "$T/demo" "$T"/*.o -lm -lpthread -laio -lxxhash || exit 2
cd "$T" && timeout 200 ./demo
