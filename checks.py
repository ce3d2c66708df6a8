# Registry: which harness binary and scenarios decide which property, and how many cases in the quick tier.
BINS = {
    "scale": dict(src=["harness/h_scale.cpp"]),
    "sql": dict(src=["harness/h_sql.cpp"]),
    "sock": dict(src=["harness/h_sock.cpp"], extra_lib=["Sockets.cpp"]),
    "sig": dict(src=["harness/h_sig.cpp"], extra_lib=["UnixSignal.cpp"]),
    "str": dict(src=["harness/h_str.cpp"]),
    "log": dict(src=["harness/h_log.cpp", "harness/h_log_group.cpp"]),
    "bits": dict(src=["harness/h_bits.cpp"]),
    "time": dict(src=["harness/h_time.cpp"]),
    "config": dict(src=["harness/h_config.cpp"]),
    "vector": dict(src=["harness/h_vector.cpp"]),
    "lock": dict(src=["harness/h_lock.cpp"]),
    "map": dict(src=["harness/h_map.cpp"]),
    "queue": dict(src=["harness/h_queue.cpp"]),
}
def R(bin, *pairs, **kw):
    return [dict(bin=bin, scenario=s, quick=n, **kw) for s, n in pairs]
CHECKS = {
 "C01": R("queue", ("queue_lin",4000), ("queue_seq",2000), ("queue_stress",160), ("queue_connected",400)) + R("scale", ("scale_queue",24)),
 "C02": R("queue", ("queue_wake",800), ("queue_shared_wake",600), ("queue_connected",200), ("queue_timeout",200)) + R("lock", ("signal_wake",400), ("signal_timeout",100)) + R("map", ("map_wake",800), ("pq_wake",800), ("mappq_timeout",160), ("sem_wake",400)),
 "C03": R("map", ("map_lin",4000), ("map_seq",800), ("map1_values",800)) + R("scale", ("scale_map",24)),
 "C04": R("map", ("pq_lin",6000), ("pq_seq",1500), ("pq_stress",160)) + R("scale", ("scale_pq",24)),
 "C05": R("lock", ("mutex_script",1600), ("mutex_long",40), ("mutex_deep",60), ("mutex_excl",600), ("rwlock_script",1200), ("rwlock_excl",600), ("signal_wake",100), ("signal_timeout",60)),
 "C06": R("lock", ("multi_script",800), ("multi_stress",400)),
 "C07": R("lock", ("thread_life",200)) + R("map", ("sem_lin",2000), ("sem_wake",400)),
 "C08": R("lock", ("refcnt_seq",6000), ("refcnt_many",150), ("refcnt_conc",900)),
 "C09": R("vector", ("fifo_seq",1500), ("slist_seq",1500), ("ptrlist_seq",600)) + R("scale", ("scale_list",40)),
 "C10": R("vector", ("vector_bits",12000), ("vector_generic",12000), ("vector_shift",6000)) + R("scale", ("scale_vector",60)),
 "C11": R("bits", ("bit_fields",24000), ("bit_long",64)),
 "C12": R("bits", ("bit_pack",60000), ("bit_long",64)),
 "C13": R("bits", ("bit_parity",60000)),
 "C14": R("bits", ("bit_maps",60000), ("bit_soft",60000), ("bit_long",64)),
 "C15": R("time", ("time_math",4000), ("time_iso",700), ("time_sleep",24), ("time_threads",120)),
 "C16": R("time", ("f16_math",60000)),
 "C17": R("config", ("config_model",800), ("config_lin",800), ("config_locked",160), ("config_fault",1200)),
 "C18": R("config", ("config_typed",6000)),
 "C19": R("config", ("config_valid",12000)),
 "C20": R("config", ("config_dump",6000)),
 "C21": R("sql", ("sql_lookup",2000), ("sql_attr",1600), ("sql_busy",800)),
 "C24": R("sql", ("report_model",480), ("report_conc",1600), ("report_overlap",300), ("report_periodic",80)),
 "C22": R("log", ("log_levels",600), ("log_watch",1500), ("log_names",60), ("log_process",100)),
 "C23": R("log", ("log_file",1500), ("log_threads",400)),
 "C27": R("sock", ("sock_model",4000), ("sock_wait",300), ("sock_stress",160), ("sock_edge",800)),
 "C28": R("sig", ("sig_vector",4000), ("sig_fresh",80), ("sig_repeat",3000)),
 "C29": R("sig", ("self_life",2400), ("self_files",300), ("self_race",800)),
 "C25": R("str", ("codec_base",20000), ("codec_url",20000)) + R("scale", ("scale_codec",60)),
 "C26": R("str", ("str_format",24000), ("str_split",30000), ("str_replace",40000), ("str_num",60000), ("str_scan",40000), ("str_table",20000), ("str_regexp",30000)) + R("scale", ("scale_text",32)),
 "C32": R("str", ("kv_model",5000), ("kv_hash",20000)),
 "C34": R("str", ("scalars",60000), ("memcount",20000), ("memlabels",800), ("memcount_conc",1500)),
 "C35": R("lock", ("console",600)),
 "C33": R("config", ("config_crash",1800), ("config_fault",1200)),
}
# memory safety: every workload, judged by its sanitizer reports only
CHECKS["C30"] = []
_seen = set()
for _c in sorted(CHECKS):
    for _r in list(CHECKS[_c]):
        if _r["scenario"] not in _seen and _r["quick"] >= 300 and not _r["scenario"].endswith(("_wake", "_timeout")):
            _seen.add(_r["scenario"])
            CHECKS["C30"].append(dict(_r, quick=max(100, _r["quick"] // 4), only_sanitizer=True))
# the same workloads under valgrind memcheck, for values used uninitialised
_seen = set()
for _c in sorted(CHECKS):
    if _c == "C30": continue
    for _r in CHECKS[_c]:
        if _r["scenario"] not in _seen and _r["bin"] != "scale":
            _seen.add(_r["scenario"])
            CHECKS["C30"].append(dict(_r, quick=max(2, _r["quick"] // 50), variant="vg", shards=2 if _r["scenario"] in ("config_valid", "f16_math", "self_life", "config_typed", "report_conc") else 1, only_sanitizer=True))
CHECKS["C31"] = (R("queue", ("queue_lin",120), ("queue_stress",40), ("queue_connected",60), ("queue_wake",80), ("queue_shared_wake",40), ("queue_timeout",24), variant="tsan")
    + R("map", ("map_lin",120), ("map1_values",60), ("map_wake",80), ("pq_lin",120), ("pq_stress",40), ("pq_wake",80), ("mappq_timeout",24), ("sem_lin",120), ("sem_wake",60), variant="tsan")
    + R("lock", ("mutex_script",60), ("mutex_excl",60), ("rwlock_script",60), ("rwlock_excl",60), ("signal_wake",60), ("multi_script",60), ("multi_stress",60), ("thread_life",40), ("refcnt_conc",60), ("console",40), variant="tsan")
    + R("config", ("config_lin",120), variant="tsan")
    + R("log", ("log_threads",60), variant="tsan")
    + R("sql", ("report_conc",80), ("report_overlap",20), variant="tsan") + R("sock", ("sock_wait",60), ("sock_stress",40), variant="tsan") + R("time", ("time_threads",40), variant="tsan") + R("str", ("memcount_conc",40), variant="tsan"))
MUST = {}
CHECKS = {k: dict(runs=v, must_observe=MUST.get(k, [])) for k, v in CHECKS.items()}
