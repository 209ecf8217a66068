prop='P02'
needs='an abbreviated mode such as k or key or an empty one'
breaks='it is accepted'
edits=[
('src/kvtree_print.c',
r'''    } else if (strcmp(mode, "keyval") == 0) {''',
r'''    } else if (strncmp(mode, "keyval", strlen(mode)) == 0) {'''),
]
shell=r'''#!/bin/bash
w=/tmp/kvtree-demo-@ID@
rm -rf $w; mkdir -p $w || exit 2
cat > $w/m.c <<'E'
#include "kvtree.h"
#include "kvtree_util.h"
int main(void) { kvtree* t = kvtree_new(); kvtree_util_set_int(t, "A", 7); return kvtree_write_file("f", t) != KVTREE_SUCCESS; }
E
gcc -w -I src -I _build $w/m.c _build/src/libkvtree.a -lz -lm -o $w/m 2>/dev/null || mpicc -w -I src -I _build $w/m.c _build/src/libkvtree.a -lz -lm -o $w/m || exit 2
tool=$PWD/_build/src/kvtree_print_file
[ -x $tool ] || tool=$(find $PWD/_build -type f -perm -u+x -name 'kvtree_print*' | head -1)
cd $w && ./m || exit 2
bad=0
$tool -m "" f > o 2>&1 && { echo "line 1: accepts an empty mode"; bad=1; }
cd /; rm -rf $w
exit $bad
'''
demo=r''''''
