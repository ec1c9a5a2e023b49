# Per property: harness sources and build variants.
def one(src, title, defs=(), **kw):
    return dict(title=title, variants={"default": dict(src=src if isinstance(src, list) else [src], defs=list(defs))}, **kw)

# timed waits on the system clock, pthread_mutex_timedlock (see the header)
REALTIME = ["-include", "realtime_clock.h"]

CHECKS = {
    "C01": {"title": "mutex, timed_mutex: mutual exclusion, no lost wakeup, timed attempts", "variants": {"default": {"weight": 3, "src": ["C01.cpp"], "defs": []}, "realtime": {"src": ["C01.cpp"], "defs": [], "flags": REALTIME}}},
    "C02": {"title": "recursive_mutex, recursive_timed_mutex", "variants": {"default": {"weight": 3, "src": ["C02.cpp"], "defs": []}, "realtime": {"src": ["C02.cpp"], "defs": [], "flags": REALTIME}}},
    "C03": {"title": "shared_mutex compatibility matrix and progress", "variants": {"default": {"weight": 3, "src": ["C03.cpp"], "defs": ["BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"]}, "realtime": {"src": ["C03.cpp"], "defs": ["BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"], "flags": REALTIME}}},
    "C04": {"title": "shared_mutex conversions", "variants": {"default": {"weight": 3, "src": ["C04.cpp"], "defs": ["BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"]}, "realtime": {"src": ["C04.cpp"], "defs": ["BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"], "flags": REALTIME}}},
    "C05": one("C05.cpp", "v2 shared/upgrade mutex", ["BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS", "BOOST_THREAD_V2_SHARED_MUTEX"]),
    "C06": {"title": "condition_variable", "variants": {"default": {"weight": 3, "src": ["C06.cpp"], "defs": []}, "nointr": {"src": ["C06.cpp"], "defs": ["BOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"]}, "realtime": {"src": ["C06.cpp"], "defs": [], "flags": REALTIME}}},
    "C07": {"title": "condition_variable_any with any lock type", "variants": {"default": {"weight": 3, "src": ["C07.cpp"], "defs": []}, "nointr": {"src": ["C07.cpp"], "defs": ["BOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"]}, "realtime": {"src": ["C07.cpp"], "defs": [], "flags": REALTIME}}},
    "C08": {"title": "timed operations and clocks", "variants": {"default": {"weight": 3, "src": ["C08.cpp"], "defs": []}, "nointr": {"src": ["C08.cpp"], "defs": ["BOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"]}, "realtime": {"src": ["C08.cpp"], "defs": [], "flags": REALTIME}}},
    "C09": one("C09.cpp", "interruption"),
    "C10": {"title": "thread life cycle", "variants": {"default": {"src": ["C10.cpp"]}, "v4": {"src": ["C10.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}}},
    "C11": one("C11.cpp", "scoped threads and thread groups"),
    "C12": one("C12.cpp", "thread_specific_ptr"),
    "C13": {"title": "at-thread-exit actions", "variants": {"default": {"weight": 3, "src": ["C13.cpp"]}, "nointr": {"src": ["C13.cpp"], "defs": ["BOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"]}, "v4": {"src": ["C13.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}}},
    "C14": {"title": "call_once", "variants": {"atomic": {"src": ["C14.cpp"]}, "epoch": {"src": ["C14.cpp"], "defs": ["BOOST_THREAD_DONT_USE_ATOMIC"]}, "atomic11": {"src": ["C14.cpp"], "defs": ["BOOST_THREAD_PROVIDES_ONCE_CXX11"]}, "epoch11": {"src": ["C14.cpp"], "defs": ["BOOST_THREAD_DONT_USE_ATOMIC", "BOOST_THREAD_PROVIDES_ONCE_CXX11"]}}},
    "C15": one("C15.cpp", "barrier", []),
    "C16": one("C16.cpp", "latch and completion_latch", []),
    "C17": one("C17.cpp", "sync_queue, sync_deque, adaptors and views", []),
    "C18": one("C18.cpp", "sync_bounded_queue", []),
    "C19": one("C19.cpp", "priority and timed queues", []),
    "C20": {"title": "promise and future", "variants": {"default": {"src": ["C20.cpp"]}, "v4": {"src": ["C20.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}}},
    "C21": {"title": "packaged_task and async", "variants": {"default": {"src": ["C21.cpp"]}, "v4": {"src": ["C21.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}}},
    "C22": {"title": "continuations", "variants": {"v4": {"src": ["C22.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}, "v5": {"src": ["C22.cpp"], "defs": ["BOOST_THREAD_VERSION=5"]}}},
    "C23": {"title": "wait_for_any/all and when_any/all", "variants": {"v4": {"src": ["C23.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}}},
    "C24": {"title": "executors", "variants": {"v5": {"src": ["C24.cpp"], "defs": ["BOOST_THREAD_VERSION=5"]}}},
    "C25": {"title": "serial executors", "variants": {"v5": {"src": ["C25.cpp"], "defs": ["BOOST_THREAD_VERSION=5"]}}},
    "C26": {"title": "scheduled executors", "variants": {"v5": {"src": ["C26.cpp"], "defs": ["BOOST_THREAD_VERSION=5"]}}},
    "C27": {"title": "multi-lock algorithms", "variants": {"v4": {"src": ["C27.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}}},
    "C28": {"title": "lock objects", "variants": {"v2": {"src": ["C28.cpp"], "defs": ["BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"]}, "v3": {"src": ["C28.cpp"], "defs": ["BOOST_THREAD_VERSION=3"]}, "v4": {"src": ["C28.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}}},
    "C29": {"title": "synchronized_value and monitors", "variants": {"v4": {"src": ["C29.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}}},
    "C31": {"title": "task_region", "variants": {"v4": {"src": ["C31.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}, "v5": {"src": ["C31.cpp"], "defs": ["BOOST_THREAD_VERSION=5"]}}},
    "C32": one("C32.cpp", "lockable adapters", ["BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS", "BOOST_THREAD_V2_SHARED_MUTEX"]),
    "C30": {"title": "resource failures", "variants": {"v2": {"src": ["C30.cpp"]}, "v4": {"src": ["C30.cpp"], "defs": ["BOOST_THREAD_VERSION=4"]}, "v5": {"src": ["C30.cpp"], "defs": ["BOOST_THREAD_VERSION=5"]}}},
}
