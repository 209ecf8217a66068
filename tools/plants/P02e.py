prop='P02'
needs='a file that the user of the tool may not read'
breaks='the message is printed and the exit code is 0'
edits=[('src/kvtree_print.c',
r'''    printf("ERROR: Failed to read file: `%s'\n", filename);
    rc = 1;''',
r'''    printf("ERROR: Failed to read file: `%s'\n", filename);
    rc = (errno != EACCES);'''),
]
shell=r'''#!/bin/bash
w=/tmp/kvtree-demo-@ID@
rm -rf $w; mkdir -p $w || exit 2
cat > $w/m.c <<'E'
#include "kvtree.h"
#include "kvtree_util.h"
int main(void) { kvtree* t = kvtree_new(); kvtree_util_set_int(t, "A", 7); return kvtree_write_file("f", t) != KVTREE_SUCCESS; }
E
gcc -w -I src -I _build $w/m.c _build/src/libkvtree.a -lz -lm -o $w/m 2>/dev/null || mpicc -w -I src -I _build $w/m.c _build/src/libkvtree.a -lz -lm -o $w/m || exit 2
tool=$PWD/_build/src/kvtree_print_file
[ -x $tool ] || tool=$(find $PWD/_build -type f -perm -u+x -name 'kvtree_print*' | head -1)
cp $tool $w/tool && chmod 755 $w $w/tool
cd $w && ./m || exit 2
bad=0
run() { python3 -c 'import os; os.setgroups([]); os.setgid(65534); os.setuid(65534); os.execv("./tool", ["./tool", "f"])'; }
chmod 644 f; run > o 2>&1 || { echo "a readable file is not shown"; bad=1; }
chmod 600 f; run > o 2>&1 && { echo "success for a file that may not be read"; bad=1; }
cd /; rm -rf $w
exit $bad
'''
demo=r''''''
