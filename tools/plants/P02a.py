prop='P02'
needs='two file names'
breaks='the tool prints the first and reports success'
edits=[
('src/kvtree_print.c',
r'''if (!usage && numargs != 1) {''',
r'''if (!usage && numargs < 1) {'''),
]
shell=r'''#!/bin/bash
w=/tmp/kvtree-demo-@ID@
rm -rf $w; mkdir -p $w || exit 2
cat > $w/m.c <<'E'
#include "kvtree.h"
#include "kvtree_util.h"
int main(void) { kvtree* t = kvtree_new(); kvtree_util_set_int(t, "A", 7); return kvtree_write_file("f", t) != KVTREE_SUCCESS; }
E
gcc -w -I src -I _build $w/m.c _build/src/libkvtree.a -lz -lm -o $w/m 2>/dev/null || mpicc -w -I src -I _build $w/m.c _build/src/libkvtree.a -lz -lm -o $w/m || exit 2
tool=$PWD/_build/src/kvtree_print_file
[ -x $tool ] || tool=$(find $PWD/_build -type f -perm -u+x -name 'kvtree_print*' | head -1)
cd $w && ./m || exit 2
bad=0
$tool f f > o 2>&1 && { echo "line 1: accepts two files"; bad=1; }
cd /; rm -rf $w
exit $bad
'''
demo=r''''''
