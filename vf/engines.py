"""How each kind of harness is compiled and linked."""
WRAPS = "-Wl,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=memalign,--wrap=mmap,--wrap=munmap,--wrap=sbrk"


def steps(cfg, e):
    cxx = "++" in cfg.cc
    opt = e["hf"] or "-O1"
    area = 24
    for w in cfg.flags.split():
        if w.startswith("-DGGGGC_POOL_SIZE="):
            area = int(w.split("=")[1])
    inc = "-g %s -w -I%s -I%s" % (opt, e["d"], e["H"])
    off = "-DAR_OFF" if cfg.asan else ""
    wr = "" if cfg.asan else WRAPS
    wrap = "gcc -g -O1 %s '-DAR_AREA=((size_t)1<<%d)' %s -c %s/wrap.c -o %s/wrap.o" % (off, area, e["san"], e["H"], e["d"])
    if cfg.engine == "heap":
        yield wrap
        yield "%s %s %s %s -c %s/heap.c -o %s/heap.o" % (e["cc"], inc, e["flags"], e["san"] + (" -DHAVE_ASAN" if cfg.asan else ""), e["H"], e["d"])
        osm = ""
        if "-D_WIN32" in e["flags"]:
            osm = e["d"] + "/osmem.o"
            yield "gcc -std=gnu11 -g -O2 -w -I%s -c %s/osmem.c -o %s" % (e["H"], e["H"], osm)
        yield "%s %s %s/heap.o %s %s/wrap.o %s %s/libggggc.a -pthread %s -o %s/exe" % (e["cc"], e["san"], e["d"], osm, e["d"], e["pbt"], e["d"], wr, e["d"])
    elif cfg.engine == "coll":
        cw = "-Wl,--wrap=ggggc_malloc,--wrap=ggggc_mallocSlot,--wrap=ggggc_mallocPointerArray,--wrap=ggggc_mallocDataArray"
        yield "%s %s %s %s -c %s/coll.c -o %s/coll.o" % (e["cc"], inc, e["flags"], e["san"], e["H"], e["d"])
        yield "%s %s %s/coll.o %s %s/libggggc.a -pthread %s -o %s/exe" % (e["cc"], e["san"], e["d"], e["pbt"], e["d"], cw, e["d"])
    elif cfg.engine == "thr":
        tw = "-Wl," + ",".join("--wrap=" + f for f in (
            "pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy "
            "pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait sem_init sem_destroy sem_wait sem_trywait sem_post "
            "pthread_exit pthread_self pthread_mutex_timedlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal "
            "pthread_cond_broadcast pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock "
            "pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock "
            "pthread_once sched_yield pthread_yield usleep sleep nanosleep clock_nanosleep sem_timedwait sem_getvalue").split())
        yield wrap
        yield "gcc -std=gnu11 -g -O2 -w -I%s -c %s/msched.c -o %s/sched.o" % (e["H"], e["H"], e["d"])
        yield "%s %s %s -c %s/thr.c -o %s/thr.o" % (e["cc"], inc, e["flags"], e["H"], e["d"])
        osm = ""
        if "-D_WIN32" in e["flags"] or "-D__APPLE__" in e["flags"]:
            osm = e["d"] + "/osmodel.o " + e["d"] + "/osmem.o"
            yield "cd %s && gcc -std=gnu11 -g -O2 -w -I%s -c %s/osmodel.c %s/osmem.c" % (e["d"], e["H"], e["H"], e["H"])
        yield "%s %s/thr.o %s %s/wrap.o %s/sched.o %s %s/libggggc.a -pthread %s %s -o %s/exe" % (e["cc"], e["d"], osm, e["d"], e["d"], e["pbt"], e["d"], wr, tw, e["d"])
    elif cfg.engine == "cxx":
        yield "%s -std=%s %s %s %s -c %s/cxx.cc -o %s/cxx.o" % (e["cc"], cfg.std, inc, e["flags"], e["san"], e["H"], e["d"])
        yield "%s %s %s/cxx.o %s %s/libggggc.a -pthread -o %s/exe" % (e["cc"], e["san"], e["d"], e["pbt"], e["d"], e["d"])


def link(cfg, e, sh, Built):
    for cmd in steps(cfg, e):
        rc, out = sh(cmd)
        if rc:
            return Built(cfg, None, "harness", cmd + "\n" + out)
    return Built(cfg, e["d"] + "/exe")
