"""External functions reachable from the crate, and taint helpers."""


def entry_roots(P):
    return [f for f in P.fns if f.local and f.pub and f.has_body() and f.kind != "closure" and not f.shim]


def closure_root(f):
    """name of the function a closure belongs to"""
    return f.parent or f.p


def external_calls(P, fns):
    """(local fn, callee Fn, line) for each direct call or function reference
    from a body to a function without exported body"""
    for f in fns:
        live = f.live_blocks()
        for b in sorted(live):
            blk = f.bb[b]
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                rs = set()
                if rv[0] == "cast" and len(rv) > 4:
                    rs.add(rv[4])
                for o in P.rv_ops(rv):
                    rs |= P.op_refs(o) if o[0] == "c" and len(o) > 2 else set()
                for r in rs:
                    yield f, P.fns[r], s[3]
            t = blk["t"]
            if t[0] == "call":
                if "i" in t[1]:
                    yield f, P.fns[t[1]["i"]], t[5]
                for o in t[2]:
                    if o[0] == "c" and len(o) > 2:
                        for r in P.op_refs(o):
                            yield f, P.fns[r], t[5]
            elif t[0] == "drop":
                for r in P.drop_calls(t[3]):
                    yield f, P.fns[r], 0


IO = ("std::fs", "std::net", "std::process", "std::env", "std::os", "std::sys", "std::io::_print",
      "std::io::_eprint", "std::io::stdio", "std::io::stdout", "std::io::stdin", "std::io::stderr",
      "std::io::Stdout", "std::io::Stderr", "std::io::Stdin", "<std::fs", "<std::net", "<std::process",
      "<std::io::Std", "<std::env", "std::thread::spawn", "std::thread::Builder", "std::thread::sleep",
      "std::thread::park", "std::thread::scope", "std::rt::lang_start", "std::alloc::set_alloc",
      "std::panic::set_hook", "std::panic::take_hook", "std::process::abort", "std::intrinsics::abort",
      "core::intrinsics::abort")
NONDET = ("std::time", "<std::time", "std::env", "std::thread::current", "std::thread::available",
          "std::thread::Thread", "std::thread::spawn", "std::process", "std::hash::RandomState",
          "std::collections::hash_map::RandomState", "<std::hash::RandomState", "std::hash::random",
          "std::thread::LocalKey", "std::sync::mpsc", "std::sync::Mutex", "std::sync::RwLock",
          "std::sync::Condvar", "std::sync::Barrier", "std::sync::Once", "std::sync::atomic",
          "std::collections::HashMap", "std::collections::HashSet", "std::collections::hash",
          "std::sync::poison", "std::sync::mpmc", "std::sync::LazyLock", "std::fs::metadata",
          "std::ptr::addr", "std::sys::random")
OK_CRATES = {"core", "alloc", "std", "log", "scoped_threadpool", "std_detect", "zune_jpeg"}


def strip(p):
    return p.replace("alloc::", "std::", 1) if p.startswith("alloc::") else p


def matches(p, table):
    for t in table:
        if p.startswith(t):
            return t
        # <T as Trait> forms
        if p.startswith("<") and (t + "::") in p.split(" as ")[0]:
            return t
    return None
