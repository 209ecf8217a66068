prop='A01'
needs='memory running out while kvtree_sort builds its list'
breaks='success is reported for a tree that is not sorted'
edits=[
('src/kvtree.c',
r'''  struct sort_elem_str* list = (struct sort_elem_str*) KVTREE_MALLOC(count * sizeof(struct sort_elem_str));
''',
r'''  struct sort_elem_str* list = (struct sort_elem_str*) malloc(count * sizeof(struct sort_elem_str));
  if (list == NULL) {
    return KVTREE_SUCCESS;
  }
'''),
]
import runpy, os
pre=runpy.run_path(os.path.dirname(__file__)+'/A01b.py')['pre']+r'''
static void sortfn(void) { kvtree* t = kvtree_new(); kvtree_set(t, "a", NULL); kvtree_set(t, "b", NULL); kvtree_sort(t, KVTREE_SORT_ASCENDING); }
#define fn sortfn
'''
demo=r'''
  long k; int r;
  for (k = 0; (r = oom(k, fn)) != 2 && k < 100; k++) CHECK(r == 1);
'''
