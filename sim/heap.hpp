#ifndef VERIF_HEAP_HPP
#define VERIF_HEAP_HPP
namespace heap { long long bytes(); long long blocks();
extern void (*hook)();   // called before every malloc and after every free
extern long fail_calloc, calloc_failed;   // >0: the n-th calloc from now returns NULL
}
#endif

