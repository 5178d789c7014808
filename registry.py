"""What decides each property: the harness file, the bodies, the sources linked, the time spent."""
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CONFIGS = {
    "dbg": {"flags": ["-g1", "-O1"] + SAN},                              # debug: argument checks throw
    "rel": {"flags": ["-g1", "-O2", "-DNDEBUG"] + SAN},                 # release: error codes, unchecked access
    "noexc": {"flags": ["-g1", "-O1", "-DECL_DISABLE_EXCEPTIONS"] + SAN},
    "memchk": {"flags": ["-g1", "-O1", "-DECL_MEM_CHECK_ARRAYS"] + SAN},
    "opt": {"flags": ["-g1", "-O2"]},
    "optrel": {"flags": ["-g1", "-O2", "-DNDEBUG"]},
    "tsan": {"cxx": "clang++", "flags": ["-g1", "-O1", "-fsanitize=thread"]},
    "fuzz": {"cxx": "clang++", "flags": ["-g1", "-O1", "-DPBT_LIBFUZZER", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=function,vptr"]},
}
PKG_DEPS = {
    "ecl_devices": ["ecl_exceptions", "ecl_threads", "ecl_time"],
    "ecl_streams": ["ecl_devices", "ecl_time", "ecl_type_traits", "ecl_exceptions", "ecl_threads"],
    "ecl_threads": ["ecl_exceptions", "ecl_time"],
    "ecl_time": ["ecl_exceptions"],
    "ecl_ipc": ["ecl_exceptions", "ecl_time"],
    "ecl_geometry": ["ecl_type_traits", "ecl_exceptions", "ecl_formatters"],
    "ecl_formatters": ["ecl_exceptions"],
    "ecl_manipulators": ["ecl_geometry", "ecl_exceptions", "ecl_formatters"],
    "ecl_mobile_robot": ["ecl_geometry", "ecl_formatters"],
    "ecl_linear_algebra": ["ecl_formatters", "ecl_exceptions"],
    "ecl_statistics": ["ecl_exceptions"],
    "ecl_filesystem": ["ecl_exceptions"],
}


def cmd(only, **kw):
    return dict(jobs=[dict(src="cmdline.cpp", configs=["dbg"], only=only)], **kw)


def one(src, only, libs=(), configs=("dbg", "rel"), job=None, **kw):
    return dict(jobs=[dict(dict(src=src, configs=list(configs), only=only, libs=list(libs)), **(job or {}))], **kw)


VCLK = ["-DECL_COMPAT_VIRTUAL_CLOCK"]
TIMEH = dict(flags=VCLK, link=["-Wl,--wrap=nanosleep,--wrap=rand"])
WRAP = lambda *f: ["-Wl," + ",".join("--wrap=" + x for x in f)]  # noqa: E731
IPC = dict(flags=VCLK, link=WRAP("clock_gettime", "sem_wait", "sem_timedwait", "sem_open", "shm_open", "mmap", "ftruncate"))
THR = dict(flags=VCLK, link=WRAP("clock_gettime", "pthread_mutexattr_init", *["pthread_mutex_" + x for x in ("init", "lock", "trylock", "unlock", "timedlock")], *["pthread_" + x for x in ("create", "join", "detach", "cancel")], "setpriority", "getpriority", "sched_setscheduler", "sched_getscheduler", "sched_getparam", "sched_get_priority_min", "sched_get_priority_max"))
UTIL = dict(link=WRAP("realpath"))
PROPS = {
    "C01": cmd(["cmd_valid_lines", "cmd_several_lines"]),
    "C02": cmd(["cmd_faulty_lines", "cmd_errors"]),
    "C03": cmd(["cmd_exclusive_groups"]),
    "C04": cmd(["cmd_help_text", "cmd_help_exit", "cmd_docbook"]),
    "C05": cmd(["cmd_specification"]),
    "C06": one("mathbasic.cpp", ["math_*"], libs=["ecl_type_traits"], configs=["dbg"]),
    "C07": one("geom.cpp", ["segment_*"], libs=["ecl_geometry"], configs=["dbg"]),
    "C08": one("geom.cpp", ["angle_*"], libs=["ecl_geometry"], configs=["dbg"]),
    "C09": one("geom.cpp", ["point_*"], libs=["ecl_geometry"]),
    "C10": one("poly.cpp", ["poly_eval", "poly_constant", "poly_pascal", "poly_division", "poly_roots", "poly_roots_scaled", "poly_print"], libs=["ecl_geometry"], configs=["dbg"]),
    "C11": one("poly.cpp", ["interp_linear", "interp_polynomial", "line_intersection", "poly_extrema"], libs=["ecl_geometry"], configs=["dbg"]),
    "C12": one("splines.cpp", ["spline_*"], libs=["ecl_geometry"]),
    "C13": one("splines.cpp", ["smooth_*"], libs=["ecl_geometry"]),
    "C14": one("pose.cpp", ["pose_*"], libs=["ecl_geometry"], configs=["dbg"]),
    "C15": one("linalg.cpp", ["frame_*"], libs=["ecl_linear_algebra"], configs=["dbg"]),
    "C16": dict(jobs=[dict(src="formatters.cpp", configs=["dbg", "rel"], only=["format_*"], libs=["ecl_formatters"]), dict(src="linalg.cpp", configs=["dbg"], only=["format_*"], libs=["ecl_linear_algebra"])]),
    "C17": one("stats.cpp", ["stat_*"], libs=["ecl_statistics", "ecl_mobile_robot"], configs=["dbg"]),
    "C18": one("stats.cpp", ["drive_*"], libs=["ecl_statistics", "ecl_mobile_robot"], configs=["dbg"]),
    "C19": one("manip.cpp", ["manip_*"], libs=["ecl_manipulators"]),
    "C20": one("containers.cpp", ["array_*"], libs=["ecl_formatters"], configs=("dbg", "rel", "memchk")),
    "C21": one("containers.cpp", ["stencil_*"], libs=["ecl_formatters"], configs=("dbg", "rel", "memchk")),
    "C22": one("containers.cpp", ["queue_*"], libs=["ecl_formatters"]),
    "C23": one("conv.cpp", ["bytes_*"], libs=["ecl_exceptions"]),
    "C24": one("conv.cpp", ["text_*"], libs=["ecl_exceptions"]),
    "C25": one("sig.cpp", ["sig_deliver", "sig_families", "sig_reentrant"], libs=["ecl_threads", "ecl_time", "ecl_exceptions"]),
    "C26": dict(jobs=[dict(src="sig.cpp", configs=["dbg", "rel"], only=["sig_lifetime", "sig_barrier"], libs=["ecl_threads", "ecl_time", "ecl_exceptions"]), dict(src="sig.cpp", configs=["tsan"], only=["sig_parallel"], libs=["ecl_threads", "ecl_time", "ecl_exceptions"])]),
    "C27": dict(jobs=[dict(src="streams.cpp", configs=["dbg", "rel"], only=["read_values", "read_faults", "read_closed", "write_*"], libs=["ecl_streams"], flags=VCLK), dict(src="streams.cpp", configs=["tsan"], only=["read_parallel"], libs=["ecl_streams"], flags=VCLK)]),
    "C28": dict(jobs=[dict(src="streams.cpp", configs=["dbg", "rel"], only=["log_messages", "log_faults"], libs=["ecl_streams"], flags=VCLK), dict(src="streams.cpp", configs=["tsan", "dbg"], only=["log_parallel"], libs=["ecl_streams"], flags=VCLK)]),
    "C29": one("streams.cpp", ["string_*"], libs=["ecl_streams"], job=dict(flags=VCLK)),
    "C30": one("devices.cpp", ["file_*"], libs=["ecl_streams"]),
    "C31": dict(jobs=[dict(src="devices.cpp", configs=["dbg", "rel"], only=["shared_history", "shared_refused", "shared_full"], libs=["ecl_streams"]), dict(src="devices.cpp", configs=["tsan", "dbg"], only=["shared_parallel"], libs=["ecl_streams"])]),
    "C32": one("devices.cpp", ["console_*"], libs=["ecl_streams"]),
    "C35": one("timeh.cpp", ["stamp_*"], libs=["ecl_time"], job=TIMEH),
    "C36": one("timeh.cpp", ["watch_*"], libs=["ecl_time"], job=TIMEH),
    "C37": one("timeh.cpp", ["data_*"], libs=["ecl_time"], configs=["dbg"], job=TIMEH),
    "C38": dict(jobs=[dict(IPC, src="ipc.cpp", configs=["dbg", "rel"], only=["sem_history", "sem_deadline", "sem_refused", "sem_processes", "sem_threads"], libs=["ecl_ipc"]), dict(IPC, src="ipc.cpp", configs=["tsan"], only=["sem_threads"], libs=["ecl_ipc"])]),
    "C39": one("ipc.cpp", ["shm_*"], libs=["ecl_ipc"], job=IPC),
    "C40": dict(jobs=[dict(THR, src="threads.cpp", configs=["dbg", "rel"], only=["mutex_*"], libs=["ecl_threads"]), dict(THR, src="threads.cpp", configs=["tsan"], only=["mutex_threads"], libs=["ecl_threads"])]),
    "C41": dict(jobs=[dict(THR, src="threads.cpp", configs=["dbg", "rel"], only=["thread_*", "threadable_*"], libs=["ecl_threads"]), dict(THR, src="threads.cpp", configs=["tsan"], only=["thread_publish", "threadable_race"], libs=["ecl_threads"])]),
    "C42": one("threads.cpp", ["priority_*"], libs=["ecl_threads"], job=THR),
    "C43": one("fn.cpp", ["fn_*"]),
    "C44": dict(jobs=[dict(UTIL, src="util.cpp", configs=["dbg", "rel"], only=["misc_*"], libs=["ecl_filesystem"]), dict(UTIL, src="util.cpp", configs=["tsan"], only=["misc_singleton"], libs=["ecl_filesystem"])]),
    "C45": one("prog.cpp", ["concept_*", "header_*"], configs=["dbg"], seconds=40),
    "C48": one("prog.cpp", ["trait_*"], configs=["dbg"]),
    "C46": one("util.cpp", ["exc_*"], configs=("dbg", "rel", "noexc"), libs=["ecl_filesystem"], job=UTIL),
    "C47": one("util.cpp", ["realpath_*"], libs=["ecl_filesystem"], job=UTIL),
    "C34": one("serial.cpp", ["serial_*"], libs=["ecl_devices"], job=dict(flags=VCLK, link=WRAP("tcsetattr", "read", "write", "nanosleep"))),
    "C33": one("sockets.cpp", ["socket_*"], configs=("dbg", "rel", "opt"), libs=["ecl_streams"], job=dict(link=["-Wl,--wrap=" + f for f in ["socket", "bind", "accept", "connect", "recv", "send", "ioctl", "gethostbyname"]])),
}
