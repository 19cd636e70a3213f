"""Which source units make up each simulator executable."""
ASAN = "-fsanitize=address"
ZOO = ["zoo_types.cpp:PART=%d" % i for i in (7, 8, 10, 11, 9, 5, 6, 4, 3, 2, 1)]
EXES = {
    "io": dict(variant="asan", worlds=["world_ivb.cpp", "world_map.cpp", "world_ramfile.cpp", "world_huge.cpp", "world_build.cpp"], core=["simos.cpp"], link=ASAN),
    "thr": dict(variant="tsan", worlds=ZOO + ["zoo.cpp", "world_thr.cpp", "world_mon.cpp", "world_c11.cpp"], core=["simos.cpp", "sched.cpp"], link="-Wl,--wrap=free"),
    "hist": dict(variant="asan", worlds=["world_hist.cpp"], core=["simos.cpp", "alloc.cpp"], link=ASAN + " -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=divsufsort"),
    "zoo": dict(variant="asan", worlds=ZOO + ["zoo.cpp", "world_zoo.cpp", "world_alloc.cpp", "world_allocv.cpp", "world_cons.cpp", "world_cfail.cpp"], core=["simos.cpp", "alloc.cpp"], link=ASAN + " -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=divsufsort"),
}
