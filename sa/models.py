"""Semantics of the standard library, the runtime, Qt and of calls leaving the
analysed program, expressed on the abstract state of engine.py."""
import re
from engine import *
from ir import TAG_RREF


def hid(o):
    return o[0] == "H#"


PURE = {
    "getenv", "strerror", "sysconf", "syscall", "getpriority", "setpriority", "prctl",
    "__errno_location", "strlen", "strcmp", "dlopen", "dlsym", "dlclose", "atoi",
    "__isoc23_strtol", "__cxa_atexit", "__cxa_thread_atexit", "pthread_self",
    "std::chrono::_V2::steady_clock::now", "std::chrono::_V2::system_clock::now",
    "__atomic_is_lock_free", "free", "malloc", "std::runtime_error::runtime_error",
    "std::runtime_error::~runtime_error", "std::logic_error::logic_error",
    "std::logic_error::~logic_error", "__cxa_free_exception", "select", "poll",
    "std::condition_variable::condition_variable",
    "std::condition_variable::~condition_variable",
    "std::exception::~exception", "std::thread::_State::~_State",
    "pthread_setname_np", "sched_yield", "std::thread::hardware_concurrency",
}
DEADEND = {
    "abort": "abort", "std::terminate": "terminate", "__clang_call_terminate": "terminate",
    "__cxa_pure_virtual": "pure virtual call", "exit": "exit", "_exit": "exit",
    "__cxa_call_unexpected": "unexpected", "__assert_fail": "assert",
}
CONTAINERS = ("std::__cxx11::list", "std::vector", "std::deque", "std::multiset", "std::set",
              "std::map", "std::queue", "std::stack", "std::unordered_set", "std::unordered_map", "std::forward_list")
ITERS = ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator",
         "std::_Deque_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator",
         "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator")
OPERATION_BASES = ("xdispatch::operation", "xdispatch::parameterized_operation")


def is_operation(name):
    return name == OPERATION_BASES[0] or name.startswith(OPERATION_BASES[1] + "<")


USERCODE = re.compile(r"user_\w*(fn|value|class)::")


class Models:
    def __init__(self, extra=None, trace=False):
        self.extra = extra or {}
        self.tab = {}
        self.cache = {}
        t = self.tab
        for k in ("std::mutex", "std::recursive_mutex", "QMutex", "QBasicMutex", "std::timed_mutex"):
            t[k + "::lock"] = self.m_lock
            t[k + "::unlock"] = self.m_unlock
            t[k + "::try_lock"] = self.m_trylock
            t[k + "::tryLock"] = self.m_trylock
        t["QMutexLocker::QMutexLocker"] = self.m_qlocker
        t["QMutexLocker::~QMutexLocker"] = self.m_qunlocker
        t["std::condition_variable::wait"] = self.m_cvwait
        t["std::condition_variable::__wait_until_impl"] = self.m_cvwait_until
        t["std::condition_variable::notify_one"] = self.m_notify
        t["std::condition_variable::notify_all"] = self.m_notify
        t["std::_Sp_counted_base::_M_add_ref_copy"] = self.m_addref
        t["std::_Sp_counted_base::_M_release"] = self.m_release
        t["std::_Sp_counted_base::_M_weak_add_ref"] = self.m_weakadd
        t["std::_Sp_counted_base::_M_weak_release"] = self.m_weakrel
        t["std::_Sp_counted_base::_M_add_ref_lock_nothrow"] = self.m_reflock
        t["std::_Sp_counted_base::_M_add_ref_lock"] = self.m_reflock
        t["std::_Sp_counted_base::_M_get_use_count"] = self.m_usecount
        t["std::__weak_ptr::expired"] = self.m_expired
        t["std::enable_shared_from_this::shared_from_this"] = self.m_sft
        t["std::enable_shared_from_this::weak_from_this"] = self.m_wft
        for s in ("", "_explicit"):
            t["std::atomic_load" + s] = self.m_spload
            t["std::atomic_store" + s] = self.m_spstore
            t["std::atomic_exchange" + s] = self.m_spexchange
            t["std::atomic_compare_exchange_weak" + s] = self.m_spcas
            t["std::atomic_compare_exchange_strong" + s] = self.m_spcas
        t["std::function::function"] = self.m_fnctor
        t["std::function::operator()"] = self.m_fncall
        t["std::_Function_base::~_Function_base"] = self.m_fndtor
        t["std::function::operator bool"] = self.m_fnbool
        t["std::function::swap"] = self.m_fnswap
        t["std::thread::_M_start_thread"] = self.m_thread
        t["std::thread::join"] = self.m_join
        t["std::thread::detach"] = self.m_join
        t["std::thread::joinable"] = self.m_joinable
        t["std::this_thread::sleep_for"] = self.m_sleep
        t["std::this_thread::sleep_until"] = self.m_sleep
        t["std::this_thread::yield"] = self.m_nop
        t["std::this_thread::get_id"] = self.m_fresh
        t["operator new"] = self.m_new
        t["operator new[]"] = self.m_new
        t["operator delete"] = self.m_delete
        t["operator delete[]"] = self.m_delete
        t["__cxa_allocate_exception"] = self.m_new
        t["__cxa_throw"] = self.m_throw
        t["__cxa_rethrow"] = self.m_rethrow
        t["__cxa_begin_catch"] = self.m_catch
        t["__cxa_end_catch"] = self.m_endcatch
        t["__cxa_guard_acquire"] = self.m_guard
        t["__cxa_guard_release"] = self.m_guardend
        t["__cxa_guard_abort"] = self.m_guardend
        t["xdispatch::trace_utils::is_trace_enabled"] = self.m_zero
        t["xdispatch::trace_utils::is_debug_enabled"] = self.m_zero
        t["std::to_string"] = self.m_tostring
        t["std::__cxx11::to_string"] = self.m_tostring
        for k in ("remove", "find", "remove_if", "find_if", "partition", "stable_partition",
                  "for_each", "any_of", "all_of", "none_of", "count", "count_if", "move", "copy",
                  "swap_ranges", "reverse", "sort", "stable_sort", "rotate", "find_if_not",
                  "copy_if", "remove_copy_if", "partition_copy"):
            t["std::" + k] = self.m_algo
        t["std::distance"] = self.m_fresh
        t["std::next"] = self.m_itnext
        t["std::prev"] = self.m_itnext
        t["std::advance"] = self.m_itinc
        t["_ZTWN9xdispatchL9current_cE"] = None

    # ---------------------------------------------------------------- lookup
    def find(self, key, f, name):
        h = self.extra.get(key)
        if h is not None:
            return h
        k = (key, f is None)
        if k in self.cache:
            return self.cache[k]
        h = self.tab.get(key)
        if h is not None:
            self.cache[k] = h
            return h
        if key.startswith("xdispatch::trace_stream::"):
            h = self.m_this
        elif key.startswith(("std::ostream::", "std::operator<<", "std::basic_ostream", "std::endl",
                             "std::flush", "std::basic_ios", "std::ios_base", "std::__ostream_insert")):
            h = self.m_this
        elif key.startswith("std::__throw_"):
            h = self.m_deadend
        elif key in DEADEND:
            h = self.m_deadend
        elif key.startswith("std::__cxx11::basic_string"):
            h = self.m_string
        elif key in ("std::operator+",) and "basic_string" in name:
            h = self.m_strcat
        elif key.startswith("std::operator") and ("basic_string" in name or "Ss" in name) and not key.startswith("std::operator<<"):
            h = self.m_strcmp
        elif key.startswith("moodycamel::ConcurrentQueue::"):
            h = self.m_moody
        elif key.startswith(CONTAINERS):
            p = key.rsplit("::", 2)
            if len(p) == 3 and p[0] + "::" + p[1] in CONTAINERS:
                h = self.m_container
            elif key.startswith(("std::vector", "std::__cxx11::list", "std::deque")) and len(p) == 3:
                h = None
        elif key.startswith(("std::_Vector_base::", "std::__cxx11::_List_base::", "std::_Deque_base::",
                             "std::_Rb_tree::", "std::_Hashtable::")):
            h = self.m_contbase
        elif key.startswith(ITERS):
            h = self.m_iterop
        elif key.startswith(("__gnu_cxx::operator-", "__gnu_cxx::operator<", "__gnu_cxx::operator>")):
            h = self.m_fresh
        elif key == "__gnu_cxx::operator+":
            h = self.m_fresh
        elif key in ("std::operator==", "std::operator!=") and ("_Rb_tree" in name or "_List" in name) or \
                key in ("std::__detail::operator==", "std::__detail::operator!="):
            h = self.m_iteq
        elif USERCODE.match(key):
            h = self.m_user
        elif f is None and key in PURE:
            h = self.m_pure
        elif key.startswith(("QString::", "QFlags::", "QArrayData::", "QByteArray::")):
            h = self.m_pure
        self.cache[k] = h
        return h

    # ---------------------------------------------------------------- trivial
    def m_nop(self, eng, st, c, a):
        return eng.ret(st, c, None)

    def m_zero(self, eng, st, c, a):
        return eng.ret(st, c, 0)

    def m_this(self, eng, st, c, a):
        return eng.ret(st, c, a[0] if a else None)

    def m_fresh(self, eng, st, c, a):
        return eng.ret(st, c, eng.result(st, c, a))

    def m_pure(self, eng, st, c, a):
        f = c.f
        key = f.key if f else c.name
        if key in ("select", "poll", "nanosleep"):
            eng.emit(st, "EXT", key, *a)
            if st.dead:
                return False
        return eng.ret(st, c, eng.result(st, c, a))

    def m_deadend(self, eng, st, c, a):
        key = c.f.key if c.f else c.name
        if key.startswith("std::__throw_"):
            eng.emit(st, "LIBTHROW", key)
            if st.dead:
                return False
            return eng.throw(st, (("libexc", key), ("tid", key)))
        eng.emit(st, "TERMINATE", DEADEND.get(key, key))
        return False

    # ---------------------------------------------------------------- locks
    def m_lock(self, eng, st, c, a):
        m = a[0]
        if not is_ptr(m):
            return eng.ret(st, c, 0)
        l = (m[1], m[2])
        if l in st.locks:
            eng.emit(st, "RELOCK", m)
            if st.dead:
                return False
        eng.emit(st, "PRELOCK", m)
        if st.dead:
            return False
        eng.havoc(st, "lock")
        st.locks = st.locks + (l,)
        eng.emit(st, "LOCK", m)
        return eng.ret(st, c, 0)

    def m_unlock(self, eng, st, c, a):
        m = a[0]
        if not is_ptr(m):
            return eng.ret(st, c, 0)
        l = (m[1], m[2])
        eng.emit(st, "UNLOCK", m)
        if st.dead:
            return False
        if l in st.locks:
            ls = list(st.locks)
            ls.remove(l)
            st.locks = tuple(ls)
        else:
            eng.emit(st, "BADUNLOCK", m)
        return eng.ret(st, c, 0)

    def m_trylock(self, eng, st, c, a):
        m = a[0]
        if not is_ptr(m):
            return self.m_fresh(eng, st, c, a)
        l = (m[1], m[2])

        def yes(s):
            if l in s.locks:
                return 0
            eng.havoc(s, "lock")
            s.locks = s.locks + (l,)
            eng.emit(s, "LOCK", m)
            return 1

        def no(s):
            return 0
        return eng.fork(st, c, [yes, no])

    def m_qlocker(self, eng, st, c, a):
        eng.store(st, a[0], a[1], 8)
        return self.m_lock(eng, st, c, [a[1]])

    def m_qunlocker(self, eng, st, c, a):
        return self.m_unlock(eng, st, c, [eng.load(st, a[0], 8, "p")])

    def cvwait(self, eng, st, cv, lk, timed):
        m = eng.load(st, lk, 8, "p")
        if not is_ptr(m):
            return
        l = (m[1], m[2])
        eng.emit(st, "CVWAIT", cv, m, timed)
        if st.dead:
            return
        ls = list(st.locks)
        if l in ls:
            ls.remove(l)
        else:
            eng.emit(st, "BADUNLOCK", m)
        st.locks = tuple(ls)
        eng.havoc(st, "cvwait")
        st.locks = st.locks + (l,)
        eng.emit(st, "CVWOKEN", cv, m, timed)

    def m_cvwait(self, eng, st, c, a):
        if c.f is not None and c.f.blocks is not None:
            return NotImplemented
        self.cvwait(eng, st, a[0], a[1], False)
        return eng.ret(st, c, None)

    def m_cvwait_until(self, eng, st, c, a):
        self.cvwait(eng, st, a[0], a[1], True)
        if st.dead:
            return False
        return eng.fork(st, c, [lambda s: 0, lambda s: 1])

    def m_notify(self, eng, st, c, a):
        eng.emit(st, "NOTIFY", a[0], c.f.base if c.f else c.name)
        return eng.ret(st, c, None)

    # ---------------------------------------------------------------- shared_ptr
    def cb(self, v):
        return v[1] if is_ptr(v) else None

    def target(self, st, o):
        """the object owned by a control block"""
        if o[0] == "PI#":
            return ("p", o[1], 0)
        return ("p", o, 16)

    def m_addref(self, eng, st, c, a):
        o = self.cb(a[0])
        if o is not None and hid(o):
            m = st.mem.get(o, {})
            if m.get("freed"):
                eng.emit(st, "UAF", a[0])
            e = m.get(8)
            if e is not None and type(e[0]) is int:
                m[8] = (e[0] + 1, 4)
        return eng.ret(st, c, None)

    def vslot(self, eng, st, o, idx):
        e = st.mem.get(o, {}).get(0)
        if e is None or not is_ptr(e[0]) or e[0][1][0] != "G#":
            return None
        g = eng.p.globals.get(e[0][1][1])
        if g is None:
            return None
        v = g["initmap"].get(e[0][2] + 8 * idx)
        if v is None or v[0] != "f":
            return None
        return eng.p.funcs.get(v[1])

    def m_release(self, eng, st, c, a):
        o = self.cb(a[0])
        if o is None:
            return eng.ret(st, c, None)
        tgt = self.target(st, o)
        eng.emit(st, "RELEASE", tgt)
        if st.dead:
            return False
        if hid(o):
            m = st.mem.setdefault(o, {})
            if m.get("freed"):
                eng.emit(st, "UAF", a[0])
                return eng.ret(st, c, None)
            e = m.get(8)
            if e is not None and type(e[0]) is int:
                n = e[0] - 1
                m[8] = (n, 4)
                if n == 0:
                    f = self.vslot(eng, st, o, 2)
                    eng.emit(st, "DISPOSE", tgt)
                    if st.dead:
                        return False
                    if f is not None:
                        eng.push_frame(st, f, [a[0]], c, tag=("then", "sp1", a[0], c.dst))
                        return not st.dead
        return eng.ret(st, c, None)

    def m_weakadd(self, eng, st, c, a):
        o = self.cb(a[0])
        if o is not None and hid(o):
            m = st.mem.get(o, {})
            e = m.get(12)
            if e is not None and type(e[0]) is int:
                m[12] = (e[0] + 1, 4)
        return eng.ret(st, c, None)

    def weakrel(self, eng, st, c, p):
        o = self.cb(p)
        if o is not None and hid(o):
            m = st.mem.get(o, {})
            e = m.get(12)
            if e is not None and type(e[0]) is int:
                n = e[0] - 1
                m[12] = (n, 4)
                if n == 0:
                    f = self.vslot(eng, st, o, 3)
                    if f is not None:
                        eng.push_frame(st, f, [p], c, tag=("then", "sp2", p, c.dst))
                        return not st.dead
        return eng.ret(st, c, None)

    def m_weakrel(self, eng, st, c, a):
        return self.weakrel(eng, st, c, a[0])

    def m_reflock(self, eng, st, c, a):
        o = self.cb(a[0])
        if o is None:
            return eng.ret(st, c, 0)
        if hid(o):
            e = st.mem.get(o, {}).get(8)
            if e is not None and type(e[0]) is int:
                if e[0] == 0:
                    return eng.ret(st, c, 0)
                st.mem[o][8] = (e[0] + 1, 4)
                return eng.ret(st, c, 1)
        r = st.bf.get(("alive", o))

        def yes(s):
            if o[0] == "PI#":
                s.nn.add(o[1])
            s.bf[("alive", o)] = True
            return 1

        def no(s):
            return 0
        if r is True:
            return eng.ret(st, c, yes(st))
        return eng.fork(st, c, [yes, no])

    def m_usecount(self, eng, st, c, a):
        o = self.cb(a[0])
        if o is not None and hid(o):
            e = st.mem.get(o, {}).get(8)
            if e is not None and type(e[0]) is int:
                return eng.ret(st, c, e[0])
        fr = st.frames[-1]
        s = eng.new(st, "y#", ("use", fr.cs, fr.b, fr.i))
        st.iv[s] = (1, INF)
        return eng.ret(st, c, s)

    def m_expired(self, eng, st, c, a):
        pi = eng.load(st, ("p", a[0][1], a[0][2] + 8), 8, "p")
        if pi == 0:
            return eng.ret(st, c, 1)
        return eng.fork(st, c, [lambda s: 1, lambda s: 0])

    def full_object(self, eng, st, p, sub):
        """pointer to the most derived object containing the subobject p"""
        o, off = p[1], p[2]
        c, rel = eng.typeat(st, o, off)
        best = None
        if o[0] == "G#":
            return ("p", o, 0)
        for oo, t in st.typ.get(o, ()):
            for b, bo in eng.p.bases_of(t):
                if oo + bo == off and eng.p.types[b].name.startswith(sub):
                    if best is None or oo > best:
                        best = oo
        return ("p", o, best if best is not None else off)

    def sp_of(self, eng, st, full):
        """control block pointer for an object managed by a shared_ptr"""
        o = full[1]
        if hid(o):
            return ("p", o, 0)
        return ("p", ("PI#", o), 0)

    def m_sft(self, eng, st, c, a):
        full = self.full_object(eng, st, a[1], "std::enable_shared_from_this<")
        pi = self.sp_of(eng, st, full)
        eng.store(st, a[0], full, 8)
        eng.store(st, ("p", a[0][1], a[0][2] + 8), pi, 8)
        o = pi[1]
        if hid(o):
            e = st.mem.get(o, {}).get(8)
            if e is not None and type(e[0]) is int:
                st.mem[o][8] = (e[0] + 1, 4)
        eng.emit(st, "SHAREDTHIS", full)
        return eng.ret(st, c, None)

    def m_wft(self, eng, st, c, a):
        full = self.full_object(eng, st, a[1], "std::enable_shared_from_this<")
        pi = self.sp_of(eng, st, full)
        eng.store(st, a[0], full, 8)
        eng.store(st, ("p", a[0][1], a[0][2] + 8), pi, 8)
        return eng.ret(st, c, None)

    def sp_reload(self, eng, st, p):
        """current value of an atomically accessed shared pointer"""
        if not is_ptr(p):
            return (0, 0)
        old = None
        if eng.is_shared(st, p[1]) and not eng.const_loc(st, p[1], p[2]):
            m = st.mem.get(p[1], {})
            old = m.pop(p[2], None)
            m.pop(p[2] + 8, None)
        v = eng.load(st, p, 8, "p")
        if eng.arely:
            eng.arely(eng, st, p, old[0] if old else None, v)
            v = eng.load(st, p, 8, "p")
        pi = eng.load(st, ("p", p[1], p[2] + 8), 8, "p")
        return (v, pi)

    def sp_set(self, eng, st, p, v):
        eng.store(st, p, v[0], 8)
        eng.store(st, ("p", p[1], p[2] + 8), v[1], 8)

    def sp_get(self, eng, st, p):
        return (eng.load(st, p, 8, "p"), eng.load(st, ("p", p[1], p[2] + 8), 8, "p"))

    def ref(self, st, pi, d):
        if is_ptr(pi) and hid(pi[1]):
            e = st.mem.get(pi[1], {}).get(8)
            if e is not None and type(e[0]) is int:
                st.mem[pi[1]][8] = (e[0] + d, 4)

    def m_spload(self, eng, st, c, a):
        v = self.sp_reload(eng, st, a[1])
        if st.dead:
            return False
        self.sp_set(eng, st, a[0], v)
        self.ref(st, v[1], 1)
        eng.emit(st, "SPLOAD", a[1], v[0])
        return eng.ret(st, c, None)

    def m_spstore(self, eng, st, c, a):
        new = self.sp_get(eng, st, a[1])
        old = self.sp_reload(eng, st, a[0])
        self.sp_set(eng, st, a[0], new)
        self.sp_set(eng, st, a[1], old)
        eng.emit(st, "SPSTORE", a[0], new[0], old[0])
        return eng.ret(st, c, None)

    def m_spexchange(self, eng, st, c, a):
        new = self.sp_get(eng, st, a[2])
        old = self.sp_reload(eng, st, a[1])
        self.sp_set(eng, st, a[1], new)
        self.ref(st, new[1], 1)
        self.sp_set(eng, st, a[0], old)
        eng.emit(st, "SPXCHG", a[1], new[0], old[0])
        return eng.ret(st, c, None)

    def m_spcas(self, eng, st, c, a):
        key = c.f.base
        new = self.sp_get(eng, st, a[2])
        cur = self.sp_reload(eng, st, a[0])
        exp = self.sp_get(eng, st, a[1])

        def yes(s):
            if not eng.assume_cmp(s, "eq", cur[0], exp[0]) or s.dead:
                return "DEAD"
            n = self.sp_get(eng, s, a[2])
            o = self.sp_get(eng, s, a[0])
            self.sp_set(eng, s, a[0], n)
            self.sp_set(eng, s, a[2], o)
            eng.emit(s, "SPCAS", a[0], o[0], n[0], True, key)
            return 1

        def no(s):
            cu = self.sp_get(eng, s, a[0])
            self.sp_set(eng, s, a[1], cu)
            self.ref(s, cu[1], 1)
            eng.emit(s, "SPCAS", a[0], exp[0], new[0], False, key)
            return 0
        eq = eng.ptr_eq(st, cur[0], exp[0])
        alts = []
        if eq is not False:
            alts.append(yes)
        alts.append(no)
        return eng.fork(st, c, alts)

    # ---------------------------------------------------------------- functions
    def fnid(self, st, p):
        e = st.mem.get(p[1], {}).get(("#s", p[2]))
        if e is not None:
            return e
        return ("fnid", p[1], p[2])

    def fn_concrete(self, st, p):
        m = st.mem.get(p[1], {})
        e = m.get(p[2] + 16)
        return e is not None and type(e[0]) is tuple and e[0][0] == "f"

    def m_fnctor(self, eng, st, c, a):
        # copy and move of an unknown function
        if len(a) == 2 and is_ptr(a[1]) and is_ptr(a[0]) and c.f is not None and len(c.f.di) >= 3:
            t = eng.p.pointee(c.f.di[2])
            if t >= 0 and eng.p.types[t].name.startswith("function<"):
                t = t
            if t >= 0 and eng.p.types[t].name.startswith(("std::function<", "function<")):
                if self.fn_concrete(st, a[1]) or a[1][1][0] in ("A#",):
                    return NotImplemented
                i = self.fnid(st, a[1])
                m = st.mem.setdefault(a[0][1], {})
                m[("#s", a[0][2])] = i
                eng.emit(st, "FNCOPY", a[0], i)
                return eng.ret(st, c, None)
        return NotImplemented

    def m_fncall(self, eng, st, c, a):
        k = 1 if c.sret else 0
        if self.fn_concrete(st, a[k]):
            return NotImplemented
        return self.ucall(eng, st, c, self.fnid(st, a[k]), a)

    def ucall(self, eng, st, c, ident, a):
        eng.emit(st, "UCALL", ident, *a)
        if st.dead:
            return False
        return self.user_call(eng, st, c, a)

    def user_call(self, eng, st, c, a):
        for x in a:
            eng.escape(st, x)
        if eng.mon.exec_throws:
            s2 = st.copy()
            eng.emit(s2, "USERTHROW")
            eng.havoc(s2, "user code")
            s2.ghost["uthrow"] = 1
            if not s2.dead and eng.throw(s2, (("userexc",), ("y#", ("usersel",), 0))):
                eng.push(s2)
        eng.havoc(st, "user code")
        eng.emit(st, "EXECRET")
        if st.dead:
            return False
        return eng.ret(st, c, eng.result(st, c, a))

    def m_fndtor(self, eng, st, c, a):
        if self.fn_concrete(st, a[0]):
            return NotImplemented
        return eng.ret(st, c, None)

    def m_fnbool(self, eng, st, c, a):
        return NotImplemented

    def m_fnswap(self, eng, st, c, a):
        return NotImplemented

    def icall(self, eng, st, c, callee, a):
        if callee == ("null-deref",) or callee == 0:
            eng.emit(st, "NULLDEREF")
            return False
        eng.emit(st, "ICALL", callee, *a)
        if st.dead:
            return False
        return self.user_call(eng, st, c, a)

    # ---------------------------------------------------------------- threads
    def m_thread(self, eng, st, c, a):
        state = eng.load(st, a[1], 8, "p")
        fr = st.frames[-1]
        s = eng.new(st, "y#", ("thread", fr.cs, fr.b, fr.i))
        st.iv[s] = (1, INF)
        eng.store(st, a[0], s, 8)
        eng.emit(st, "THREAD", state)
        if st.dead:
            return False
        eng.escape(st, state)
        # ownership moved to the new thread
        eng.store(st, a[1], 0, 8)
        return eng.ret(st, c, None)

    def m_join(self, eng, st, c, a):
        eng.emit(st, "JOIN", a[0], c.f.base)
        if st.dead:
            return False
        eng.store(st, a[0], 0, 8)
        eng.havoc(st, "join")
        return eng.ret(st, c, None)

    def m_joinable(self, eng, st, c, a):
        v = eng.load(st, a[0], 8, "i64")
        return eng.ret(st, c, eng.icmp(st, "ne", v, 0))

    def m_sleep(self, eng, st, c, a):
        v = eng.load(st, a[0], 8, "i64") if is_ptr(a[0]) else a[0]
        eng.emit(st, "SLEEP", v)
        if st.dead:
            return False
        eng.havoc(st, "sleep")
        return eng.ret(st, c, None)

    # ---------------------------------------------------------------- memory
    def m_new(self, eng, st, c, a):
        fr = st.frames[-1]
        o = eng.new(st, "H#", ("new", fr.cs, fr.b, fr.i))
        st.mem[o] = {}
        return eng.ret(st, c, ("p", o, 0))

    def m_delete(self, eng, st, c, a):
        p = a[0] if a else 0
        if is_ptr(p):
            o = p[1]
            if o[0] == "H#" and st.mem.get(o, {}).get("freed"):
                eng.emit(st, "UAF", p)
            eng.emit(st, "FREE", p)
            if st.dead:
                return False
            if o[0] == "H#":
                st.mem[o] = {"freed": True}
            elif o[0] == "S#":
                st.mem.pop(o, None)
        return eng.ret(st, c, None)

    # ---------------------------------------------------------------- exceptions
    def m_throw(self, eng, st, c, a):
        t = a[1][1][1] if is_ptr(a[1]) else "?"
        eng.emit(st, "THROW", t)
        if st.dead:
            return False
        return eng.throw(st, (a[0], ("tid", t)))

    def m_rethrow(self, eng, st, c, a):
        eng.emit(st, "RETHROW")
        if st.dead:
            return False
        return eng.throw(st, st.exc or (("userexc",), ("y#", ("usersel",), 0)))

    def m_catch(self, eng, st, c, a):
        eng.emit(st, "CATCH")
        fr = st.frames[-1]
        return eng.ret(st, c, ("p", ("S#", ("exception", fr.cs), 0), 0))

    def m_endcatch(self, eng, st, c, a):
        eng.emit(st, "ENDCATCH")
        return eng.ret(st, c, None)

    def m_guard(self, eng, st, c, a):
        # a static with an initializer: done already or done now
        k = ("guard", a[0][1] if is_ptr(a[0]) else a[0])
        def init(s):
            eng.emit(s, "GUARD", a[0])
            return 1

        def done(s):
            if is_ptr(a[0]):
                eng.store(s, a[0], 1, 1)
            return 0
        if eng.sequential and is_ptr(a[0]) and eng.cmp_truth(
                st, "eq", eng.load(st, a[0], 1, "i"), 0) is True:
            return eng.ret(st, c, init(st))
        return eng.fork(st, c, [done, init])

    def m_guardend(self, eng, st, c, a):
        eng.emit(st, "GUARDEND", a[0])
        if is_ptr(a[0]):
            eng.store(st, a[0], 1, 1)
        return eng.ret(st, c, None)

    # ---------------------------------------------------------------- user types
    def m_user(self, eng, st, c, a):
        f = c.f
        b = f.base
        cls = f.ctx.rsplit("::", 1)[-1]
        if b == cls or b.split("<")[0] == cls:
            if len(a) == 2 and is_ptr(a[1]) and is_ptr(a[0]):
                m = st.mem.setdefault(a[0][1], {})
                m[("#s", a[0][2])] = self.uid(st, a[1])
                eng.emit(st, "USERCOPY", m[("#s", a[0][2])])
            elif len(a) == 2 and is_ptr(a[0]):
                st.mem.setdefault(a[0][1], {})[("#s", a[0][2])] = ("user", a[1])
            return eng.ret(st, c, None)
        if b.startswith("~"):
            eng.emit(st, "USERDTOR", self.uid(st, a[0]))
            return eng.ret(st, c, None)
        if b == "operator=":
            st.mem.setdefault(a[0][1], {})[("#s", a[0][2])] = self.uid(st, a[1])
            return eng.ret(st, c, a[0])
        k = 1 if c.sret else 0
        return self.ucall(eng, st, c, self.uid(st, a[k]), a)

    def uid(self, st, p):
        if not is_ptr(p):
            return ("uid", "?")
        e = st.mem.get(p[1], {}).get(("#s", p[2]))
        return e if e is not None else ("uid", p[1], p[2])

    # ---------------------------------------------------------------- strings
    def sid(self, eng, st, p):
        if not is_ptr(p):
            return ("str", "?")
        if p[1][0] == "STR#":
            return p[1][1]
        if p[1][0] == "G#":
            g = eng.p.globals.get(p[1][1], {})
            e = g.get("initmap", {}).get(p[2] if type(p[2]) is int else 0)
            if e is not None and e[0] == "str":
                return ("lit", e[1])
            if e is not None and e[0] == "zero":
                return ("lit", "")
        e = st.mem.get(p[1], {}).get(("#s", p[2]))
        return e if e is not None else ("str", p[1], p[2])

    def setsid(self, st, p, v):
        if is_ptr(p):
            st.mem.setdefault(p[1], {})[("#s", p[2])] = v

    def m_string(self, eng, st, c, a):
        key = c.f.key
        b = key[len("std::__cxx11::basic_string::"):] if len(key) > 27 else ""
        if b == "basic_string":
            if len(a) >= 2 and is_ptr(a[1]):
                self.setsid(st, a[0], self.sid(eng, st, a[1]))
            else:
                self.setsid(st, a[0], ("lit", ""))
            return eng.ret(st, c, None)
        if b == "operator=":
            self.setsid(st, a[0], self.sid(eng, st, a[1]) if is_ptr(a[1]) else ("str", a[1]))
            return eng.ret(st, c, a[0])
        if b in ("c_str", "data"):
            return eng.ret(st, c, ("p", ("STR#", self.sid(eng, st, a[0])), 0))
        if b in ("append", "operator+=", "push_back", "insert"):
            self.setsid(st, a[0], ("cat", self.sid(eng, st, a[0]), self.sid(eng, st, a[1]) if len(a) > 1 else 0))
            return eng.ret(st, c, a[0])
        if b in ("size", "length", "empty"):
            s = ("y#", ("op", "len" + b, self.sid(eng, st, a[0]), 0, 64), 0)
            if s not in st.iv:
                st.iv[s] = (0, 1 if b == "empty" else INF)
            return eng.ret(st, c, s)
        if b == "swap":
            x, y = self.sid(eng, st, a[0]), self.sid(eng, st, a[1])
            self.setsid(st, a[0], y)
            self.setsid(st, a[1], x)
            return eng.ret(st, c, None)
        if b.startswith("~") or b.startswith("_"):
            return eng.ret(st, c, a[0] if c.kind == "p" and a else eng.result(st, c, a) if c.kind != "v" else None)
        if b in ("assign",):
            self.setsid(st, a[0], self.sid(eng, st, a[1]) if is_ptr(a[1]) else ("str", "?"))
            return eng.ret(st, c, a[0])
        return eng.ret(st, c, eng.result(st, c, a))

    def m_strcat(self, eng, st, c, a):
        if c.sret:
            self.setsid(st, a[0], ("cat",) + tuple(self.sid(eng, st, x) for x in a[1:]))
            return eng.ret(st, c, None)
        return eng.ret(st, c, eng.result(st, c, a))

    def m_strcmp(self, eng, st, c, a):
        x, y = self.sid(eng, st, a[0]), self.sid(eng, st, a[1])
        r = eng.icmp(st, "eq", ("sv", x), ("sv", y))
        if x == y:
            r = 1
        elif x[0] == "lit" and y[0] == "lit":
            r = 0
        if "!=" in c.f.base:
            r = eng.neg(r)
        return eng.ret(st, c, r)

    def m_tostring(self, eng, st, c, a):
        self.setsid(st, a[0], ("tostr", a[1]))
        return eng.ret(st, c, None)

    # ---------------------------------------------------------------- moodycamel
    def m_moody(self, eng, st, c, a):
        b = c.f.base.split("<")[0]
        q = a[0]
        if b in ("ConcurrentQueue", "~ConcurrentQueue"):
            return eng.ret(st, c, None)
        if "enqueue" in b:
            item = a[-1]
            v = eng.load(st, item, 8, "p") if is_ptr(item) else ("u",)

            def yes(s):
                eng.emit(s, "ENQ", q, eng.load(s, item, 8, "p"), True)
                if s.dead:
                    return "DEAD"
                if "&&" in (c.f.params or "") or c.f.dem.rstrip(")").endswith("&&"):
                    self.sp_set(eng, s, item, (0, 0))
                return 1

            def no(s):
                eng.emit(s, "ENQ", q, v, False)
                return 0
            eng.escape(st, v)
            return eng.fork(st, c, [yes, no])
        if "dequeue" in b:
            item = a[-1]

            def yes(s):
                o = eng.new(s, "S#", ("deq", s.frames[-1].cs))
                s.nn.add(o)
                t = eng.p.by_name.get("xdispatch::operation")
                if t:
                    s.typ[o] = ((0, t.id),)
                self.sp_set(eng, s, item, (("p", o, 0), ("p", ("PI#", o), 0)))
                eng.emit(s, "DEQ", q, ("p", o, 0))
                return 1

            def no(s):
                eng.emit(s, "DEQFAIL", q)
                return 0
            return eng.fork(st, c, [yes, no])
        return eng.ret(st, c, eng.result(st, c, a))

    # ---------------------------------------------------------------- containers
    # content: ("L", segments), a segment is an element object or ("sg", count)
    def elem_type(self, eng, cls):
        """element type id from the template parameters"""
        t = eng.p.types[cls]
        for n, o, ty in t.members:
            pass
        n = t.name
        return -1

    def cont(self, eng, st, p):
        m = st.mem.setdefault(p[1], {})
        k = ("#", p[2])
        v = m.get(k)
        if v is None:
            s = eng.new(st, "y#", ("size", p[1] if depth(p[1]) < 10 else "deep", p[2]))
            st.iv[s] = (0, INF)
            v = m[k] = ("L", (("sg", s),))
        return v

    def setcont(self, eng, st, p, segs):
        out = []
        for s in segs:
            if s[0] == "sg" and s[1] == 0:
                continue
            out.append(s)
        st.mem.setdefault(p[1], {})[("#", p[2])] = ("L", tuple(out))

    def segs(self, eng, st, p):
        return tuple(s for s in self.cont(eng, st, p)[1] if not (s[0] == "sg" and s[1] == 0))

    def size(self, eng, st, p):
        n = 0
        for s in self.segs(eng, st, p):
            x = s[1] if s[0] == "sg" else 1
            r = eng.add(st, n, x)
            if r is None:
                # a sum of unknowns
                y = eng.new(st, "y#", ("sum", p[1] if depth(p[1]) < 10 else 0, p[2]))
                lo = self.lo(eng, st, n) + self.lo(eng, st, x)
                st.iv[y] = (lo, INF)
                r = y
            n = r
        return n

    def lo(self, eng, st, x):
        l = lin(x)
        if l is None:
            return 0
        if l[0] is None:
            return l[1]
        return eng.bounds(st, l[0])[0] + l[1]

    def new_elem(self, eng, st, p, site):
        s = eng.new(st, "y#", ("el", site))
        return ("E#", p[1], p[2], s)

    def elem_cls(self, eng, st, p):
        """class of the elements, via the debug information of the container"""
        c, rel = eng.typeat(st, p[1], p[2])
        if c < 0:
            return -1
        c = eng.p.canon(c)
        # innermost container class at that offset
        path, tid, const, rest = eng.p.leaf(c, rel)
        cands = [c] + [o for _, o in path]
        for o in cands:
            nm = eng.p.types[o].name if o >= 0 else ""
            if nm.startswith(("std::vector<", "std::__cxx11::list<", "std::deque<", "std::list<")):
                return self.targ(eng, nm)
        return -1

    def targ(self, eng, nm):
        i = nm.index("<")
        d = 0
        out = ""
        for ch in nm[i + 1:]:
            if ch == "<":
                d += 1
            if ch == ">":
                if d == 0:
                    break
                d -= 1
            if ch == "," and d == 0:
                break
            out += ch
        t = eng.p.by_name.get(out.strip())
        return t.id if t else -1

    def mkelem(self, eng, st, p, site):
        e = self.new_elem(eng, st, p, site)
        t = self.elem_cls(eng, st, p)
        if t >= 0:
            st.typ[e] = ((0, t),)
        return e

    def front(self, eng, st, p):
        """first element, materialised. None if empty for sure"""
        segs = list(self.segs(eng, st, p))
        while segs:
            s = segs[0]
            if s[0] != "sg":
                return s
            # needs at least one
            t = eng.cmp_truth(st, "sgt", s[1], 0)
            if t is False:
                segs.pop(0)
                continue
            if t is None and len(segs) > 1:
                # this part may be empty, but not if it were the only one
                n = eng.new(st, "y#", ("merge", p[1] if depth(p[1]) < 10 else 0, p[2]))
                lo = sum(self.lo(eng, st, x[1]) if x[0] == "sg" else 1 for x in segs[:2])
                st.iv[n] = (lo, INF)
                if segs[1][0] == "sg":
                    segs[0:2] = [("sg", n)]
                    continue
            if t is None and not eng.assume_cmp(st, "sgt", s[1], 0):
                return None
            if st.dead:
                return None
            s = ("sg", self.requery(eng, st, p, s[1]))
            e = self.mkelem(eng, st, p, "front")
            self.setcont(eng, st, p, [e, ("sg", eng.add(st, s[1], -1))] + segs[1:])
            return e
        return None

    def requery(self, eng, st, p, n):
        # a comparison might have replaced the symbol
        v = self.cont(eng, st, p)[1]
        return v[0][1] if v and v[0][0] == "sg" else n

    def back(self, eng, st, p):
        segs = list(self.segs(eng, st, p))
        if not segs:
            return None
        s = segs[-1]
        if s[0] != "sg":
            return s
        t = eng.cmp_truth(st, "sgt", s[1], 0)
        if t is not True and len(segs) > 1:
            n = eng.new(st, "y#", ("mergeb", p[2]))
            st.iv[n] = (1, INF)
            s = ("sg", n)
        elif t is None:
            if not eng.assume_cmp(st, "sgt", s[1], 0) or st.dead:
                return None
            segs = list(self.segs(eng, st, p))
            s = segs[-1]
            if s[0] != "sg":
                return s
        e = self.mkelem(eng, st, p, "back")
        self.setcont(eng, st, p, segs[:-1] + [("sg", eng.add(st, s[1], -1)), e])
        return e

    def is_multi(self, key):
        return "multi" in key.split("::")[1]

    def is_assoc(self, key):
        return key.startswith(("std::multiset", "std::set", "std::map", "std::unordered"))

    def conttype(self, eng, st, c, p):
        if is_ptr(p) and c.f.cls >= 0 and type(p[2]) is int and eng.typeat(st, p[1], p[2])[0] < 0:
            eng.settype(st, p[1], p[2], eng.p.canon(c.f.cls))

    def m_contbase(self, eng, st, c, a):
        b = c.f.base
        if b.startswith("~") or not b.startswith("_M_"):
            return eng.ret(st, c, None)
        return eng.ret(st, c, eng.result(st, c, a))

    def elem_value(self, eng, st, ptr):
        """what is known of an element: (shared) pointer value or identity"""
        if not is_ptr(ptr):
            return ptr
        m = st.mem.get(ptr[1], {})
        e = m.get(ptr[2])
        if e is not None:
            return e[0]
        return eng.load(st, ptr, 8, "p")

    def m_container(self, eng, st, c, a):
        key = c.f.key
        base = key.rsplit("::", 1)[1]
        k = 1 if c.sret else 0
        if len(a) > k:
            self.conttype(eng, st, c, a[k])
        if k >= len(a):
            k = 0
        p = a[k]
        if not is_ptr(p):
            return eng.ret(st, c, eng.result(st, c, a))
        if type(p[2]) is not int:
            return eng.ret(st, c, eng.result(st, c, a))
        cname = key.rsplit("::", 2)[-2]
        rest = a[k + 1:]
        if base == cname:
            # constructors
            if rest and is_ptr(rest[0]) and self.iscont(eng, c, 2):
                src = rest[0]
                dem = c.f.params or c.f.dem
                if "&&" in dem:
                    self.move_cont(eng, st, p, src)
                    eng.emit(st, "CMOVE", p, src)
                else:
                    self.copy_cont(eng, st, p, src)
                    eng.emit(st, "CCOPY", p, src)
            elif rest and not is_ptr(rest[0]) and c.f.di and len(rest) >= 2:
                self.setcont(eng, st, p, [("sg", rest[0])] if lin(rest[0]) is not None else [])
            else:
                self.setcont(eng, st, p, [])
            return eng.ret(st, c, None)
        if base.startswith("~"):
            eng.emit(st, "CDTOR", p)
            if st.dead:
                return False
            return self.destroy_elems(eng, st, c, p)
        if base in ("push_back", "emplace_back", "push", "push_front", "emplace_front", "insert", "emplace"):
            return self.c_insert(eng, st, c, key, base, p, rest)
        if base in ("pop_front", "pop", "pop_back"):
            return self.c_pop(eng, st, c, base, p)
        if base in ("front", "back"):
            e = self.front(eng, st, p) if base == "front" else self.back(eng, st, p)
            if e is None or st.dead:
                eng.emit(st, "EMPTYACCESS", p, base)
                return False
            eng.emit(st, "CREAD", p, base, ("p", e, 0))
            return eng.ret(st, c, ("p", e, 0))
        if base == "empty":
            n = self.size(eng, st, p)
            eng.emit(st, "CREAD", p, base, n)
            return eng.ret(st, c, eng.icmp(st, "eq", n, 0))
        if base == "size":
            n = self.size(eng, st, p)
            eng.emit(st, "CREAD", p, base, n)
            return eng.ret(st, c, n)
        if base in ("begin", "cbegin"):
            return self.c_begin(eng, st, c, p, key)
        if base in ("end", "cend"):
            return eng.ret(st, c, ("p", ("END#", p[1], p[2]), 0))
        if base == "clear":
            if not self.segs(eng, st, p):
                return eng.ret(st, c, None)
            eng.emit(st, "CCLEAR", p)
            if st.dead:
                return False
            return self.destroy_elems(eng, st, c, p)
        if base == "swap":
            q = rest[0]
            x, y = self.cont(eng, st, p), self.cont(eng, st, q)
            st.mem.setdefault(p[1], {})[("#", p[2])] = y
            st.mem.setdefault(q[1], {})[("#", q[2])] = x
            eng.emit(st, "CSWAP", p, q)
            return eng.ret(st, c, None)
        if base == "operator=":
            q = rest[0]
            if is_ptr(q):
                if "&&" in (c.f.params or c.f.dem):
                    self.move_cont(eng, st, p, q)
                    eng.emit(st, "CMOVE", p, q)
                else:
                    self.copy_cont(eng, st, p, q)
                    eng.emit(st, "CCOPY", p, q)
            return eng.ret(st, c, p)
        if base == "splice" or base == "merge":
            q = rest[1] if len(rest) > 1 else rest[0]
            pos = rest[0]
            if is_ptr(q):
                mine, other = list(self.segs(eng, st, p)), list(self.segs(eng, st, q))
                if len(rest) > 2:
                    st.mem.get(q[1], {}).pop(("#", q[2]), None)
                    other = []
                at_end = is_ptr(pos) and pos[1][0] == "END#"
                self.setcont(eng, st, p, mine + other if at_end else other + mine)
                if len(rest) <= 2:
                    self.setcont(eng, st, q, [])
                eng.emit(st, "CSPLICE", p, q, "end" if at_end else "front")
            return eng.ret(st, c, None)
        if base == "erase":
            return self.c_erase(eng, st, c, key, p, rest)
        if base in ("find", "lower_bound", "upper_bound"):
            # key lookup
            kv = eng.load(st, rest[0], 8, "p") if is_ptr(rest[0]) else rest[0]

            def found(s):
                e = ("E#", p[1], p[2], ("key", kv))
                if s.bf.get(("has", p[1], p[2], kv)) is False:
                    return "DEAD"
                s.bf[("has", p[1], p[2], kv)] = True
                if self.is_map(key):
                    s.mem.setdefault(e, {})[0] = (kv, 8)
                eng.emit(s, "CFIND", p, kv, True)
                return ("p", e, 0)

            def missing(s):
                if s.bf.get(("has", p[1], p[2], kv)) is True:
                    return "DEAD"
                s.bf[("has", p[1], p[2], kv)] = False
                eng.emit(s, "CFIND", p, kv, False)
                return ("p", ("END#", p[1], p[2]), 0)
            return eng.fork(st, c, [found, missing])
        if base == "count":
            kv = eng.load(st, rest[0], 8, "p") if is_ptr(rest[0]) else rest[0]

            def cfound(s):
                if s.bf.get(("has", p[1], p[2], kv)) is False:
                    return "DEAD"
                s.bf[("has", p[1], p[2], kv)] = True
                eng.emit(s, "CFIND", p, kv, True)
                y = eng.new(s, "y#", ("count", p[2]))
                s.iv[y] = (1, INF)
                return y

            def cmissing(s):
                if s.bf.get(("has", p[1], p[2], kv)) is True:
                    return "DEAD"
                s.bf[("has", p[1], p[2], kv)] = False
                eng.emit(s, "CFIND", p, kv, False)
                return 0
            return eng.fork(st, c, [cfound, cmissing])
        if base in ("operator[]", "at") and self.is_map(key):
            return self.c_lookup(eng, st, c, base, p, rest)
        if base in ("operator[]", "at"):
            i = rest[0]
            segs = self.segs(eng, st, p)
            if type(i) is int and 0 <= i < len(segs) and all(s[0] != "sg" for s in segs[:i + 1]):
                e = segs[i]
            else:
                e = ("E#", p[1], p[2], ("ix", i))
                t = self.elem_cls(eng, st, p)
                if t >= 0:
                    st.typ[e] = ((0, t),)
            eng.emit(st, "CINDEX", p, i, ("p", e, 0))
            return eng.ret(st, c, ("p", e, 0))
        if base in ("reserve", "shrink_to_fit", "capacity", "max_size", "get_allocator"):
            return eng.ret(st, c, eng.result(st, c, a) if c.kind != "v" else None)
        if base in ("resize", "assign"):
            st.mem.get(p[1], {}).pop(("#", p[2]), None)
            eng.emit(st, "CCHANGE", p, base)
            return eng.ret(st, c, None)
        if base in ("remove", "remove_if", "unique", "sort", "reverse"):
            eng.emit(st, "CCHANGE", p, base, *[self.elem_value(eng, st, x) for x in rest if is_ptr(x)])
            st.mem.get(p[1], {}).pop(("#", p[2]), None)
            return eng.ret(st, c, eng.result(st, c, a) if c.kind != "v" else None)
        if base.startswith("_"):
            return eng.ret(st, c, eng.result(st, c, a) if c.kind != "v" else None)
        eng.emit(st, "CCHANGE", p, base)
        st.mem.get(p[1], {}).pop(("#", p[2]), None)
        return eng.ret(st, c, eng.result(st, c, a) if c.kind != "v" else None)

    def iscont(self, eng, c, i):
        di = c.f.di
        if len(di) <= i:
            return False
        t = eng.p.pointee(di[i])
        if t < 0:
            return False
        me = eng.p.canon(c.f.cls) if c.f.cls >= 0 else eng.p.pointee(di[1])
        return t == me or strip_t(eng.p.types[t].name) == strip_t(eng.p.types[me].name)

    def move_cont(self, eng, st, p, q):
        x = self.cont(eng, st, q)
        st.mem.setdefault(p[1], {})[("#", p[2])] = x
        self.setcont(eng, st, q, [])

    def copy_cont(self, eng, st, p, q):
        out = []
        for s in self.segs(eng, st, q):
            if s[0] == "sg":
                out.append(s)
            else:
                e = self.new_elem(eng, st, p, "copy")
                st.mem[e] = dict(st.mem.get(s, {}))
                if s in st.typ:
                    st.typ[e] = st.typ[s]
                out.append(e)
        self.setcont(eng, st, p, out)

    def rvalue(self, eng, c, i):
        di = c.f.di
        if len(di) <= i:
            return False
        t = eng.p.canon(di[i])
        return t >= 0 and eng.p.types[t].tag == TAG_RREF

    def fill(self, eng, st, c, e, args, didx):
        """constructs an element from the arguments of an insertion, True if a
        constructor has been invoked and the frame is active"""
        t = st.typ.get(e)
        cls = t[0][1] if t else -1
        name = eng.p.types[cls].name if cls >= 0 else ""
        src = args[0] if args else None
        if is_ptr(src):
            if name.startswith(("std::shared_ptr<", "shared_ptr<", "std::unique_ptr<")):
                v = self.sp_get(eng, st, src)
                self.sp_set(eng, st, ("p", e, 0), v)
                if self.rvalue(eng, c, didx):
                    self.sp_set(eng, st, src, (0, 0))
                else:
                    self.ref(st, v[1], 1)
                eng.escape(st, v[0])
                eng.escape(st, v[1])
            else:
                n = eng.p.sizeof(cls) if cls >= 0 else 8
                st.mem.setdefault(e, {})
                eng.copy_mem(st, ("p", e, 0), src, n)
                for kk, x in list(st.mem.get(src[1], {}).items()):
                    if type(kk) is tuple and kk[0] == "#s" and type(src[2]) is int and src[2] <= kk[1] < src[2] + n:
                        st.mem[e][("#s", kk[1] - src[2])] = x
        elif src is not None:
            st.mem.setdefault(e, {})[0] = (src, 8)
        return False

    def c_insert(self, eng, st, c, key, base, p, rest):
        if self.is_assoc(key):
            kv = eng.load(st, rest[0], 8, "p") if is_ptr(rest[0]) else rest[0]
            if self.is_map(key):
                return self.c_mapinsert(eng, st, c, base, p, rest)
            st.bf[("has", p[1], p[2], kv)] = True
            # entries known to exist at least
            n = st.bf.get(("min", p[1], p[2], kv), 0)
            st.bf[("min", p[1], p[2], kv)] = min(n + 1, 4) if self.is_multi(key) else 1
            eng.emit(st, "CKINSERT", p, kv)
            return eng.ret(st, c, eng.fresh(st, ("ins", st.frames[-1].cs, st.frames[-1].b, st.frames[-1].i), c.kind))
        e = self.mkelem(eng, st, p, ("new", st.frames[-1].cs, st.frames[-1].b, st.frames[-1].i))
        where = "back"
        args = rest
        didx = 2
        if base in ("push_front", "emplace_front"):
            where = "front"
        if base in ("insert", "emplace") and rest:
            pos = rest[0]
            args = rest[1:]
            didx = 3
            if is_ptr(pos) and pos[1][0] == "END#":
                where = "back"
            else:
                s = self.segs(eng, st, p)
                where = "front" if s and is_ptr(pos) and pos[1] == s[0] else "middle"
        pos = rest[0] if rest else None
        if len(args) == 1 and is_ptr(args[0]):
            f = self.elem_ctor(eng, st, e, c, didx)
            if f is not None:
                st.mem[e] = {}

                def done(eng, st, c, tag):
                    return self.inserted(eng, st, c, *tag[3])
                eng.push_frame(st, f, [("p", e, 0), args[0]], c,
                               tag=("then", "nested", done, (p, e, where, pos, c.kind), c.dst))
                return not st.dead
        self.fill(eng, st, c, e, args, didx)
        return self.inserted(eng, st, c, p, e, where, pos, c.kind)

    def inserted(self, eng, st, c, p, e, where, pos, kind):
        """puts a new element into its container"""
        segs = list(self.segs(eng, st, p))
        v = eng.load(st, ("p", e, 0), 8, "p")
        if where == "back":
            self.setcont(eng, st, p, segs + [e])
        elif where == "front":
            self.setcont(eng, st, p, [e] + segs)
        else:
            if is_ptr(pos) and pos[1] in segs:
                i = segs.index(pos[1])
                self.setcont(eng, st, p, segs[:i] + [e] + segs[i:])
            else:
                st.mem.get(p[1], {}).pop(("#", p[2]), None)
        eng.emit(st, "CINSERT", p, where, v, ("p", e, 0))
        if st.dead:
            return False
        r = ("p", e, 0) if kind == "p" else None
        return eng.ret(st, c, r)

    def ctor_for(self, eng, cls, c, didx):
        """constructor called for an element given one argument"""
        di = c.f.di
        p = eng.p
        if cls < 0 or not di or len(di) <= didx or di[didx] < 0:
            return None
        t = p.types[di[didx]]
        rv = t.tag == TAG_RREF
        arg = p.pointee(di[didx])
        best = None
        for f in p.funcs.values():
            if not (f.ctor and f.cls >= 0 and "~" not in f.base and p.canon(f.cls) == p.canon(cls) and len(f.di) == 3):
                continue
            if "C1" in f.name and best is not None:
                continue
            ft = p.types[f.di[2]] if f.di[2] >= 0 else None
            if ft is None or p.pointee(f.di[2]) < 0 or arg < 0:
                continue
            if p.canon(p.pointee(f.di[2])) == p.canon(arg) and (ft.tag == TAG_RREF) == rv:
                best = f
        return best

    def elem_ctor(self, eng, st, e, c, didx):
        t = st.typ.get(e)
        cls = t[0][1] if t else -1
        if cls < 0 or eng.p.types[cls].name.startswith("std::"):
            return None
        return self.ctor_for(eng, cls, c, didx)

    def is_map(self, key):
        """keys are unique and pointers or numbers"""
        return key.startswith(("std::map", "std::unordered_map"))

    def c_lookup(self, eng, st, c, base, p, rest):
        """map::operator[] and at()"""
        kv = eng.load(st, rest[0], 8, "p") if is_ptr(rest[0]) else rest[0]
        e = ("E#", p[1], p[2], ("key", kv))

        def found(s):
            if s.bf.get(("has", p[1], p[2], kv)) is False:
                return "DEAD"
            s.bf[("has", p[1], p[2], kv)] = True
            s.mem.setdefault(e, {})[0] = (kv, 8)
            eng.emit(s, "CFIND", p, kv, True)
            return ("p", e, 8)

        def missing(s):
            if s.bf.get(("has", p[1], p[2], kv)) is True or base == "at":
                return "DEAD"
            s.bf[("has", p[1], p[2], kv)] = True
            s.mem[e] = {0: (kv, 8), 8: (0, 8)}
            eng.emit(s, "CKINSERT", p, kv)
            return ("p", e, 8)
        return eng.fork(st, c, [found, missing])

    def c_mapinsert(self, eng, st, c, base, p, rest):
        """map::insert(pair), emplace(key, value)"""
        def val(x):
            return eng.load(st, x, 8, "p") if is_ptr(x) else x
        if base == "insert" and is_ptr(rest[0]):
            kv, v = eng.load(st, rest[0], 8, "p"), eng.load(st, ("p", rest[0][1], rest[0][2] + 8), 8, "p")
        else:
            kv, v = val(rest[0]), val(rest[1]) if len(rest) > 1 else None
        e = ("E#", p[1], p[2], ("key", kv))
        fr = st.frames[-1]
        site = ("ins", fr.cs, fr.b, fr.i)

        def there(s):
            if s.bf.get(("has", p[1], p[2], kv)) is False:
                return "DEAD"
            s.bf[("has", p[1], p[2], kv)] = True
            return eng.fresh(s, site, c.kind)

        def new(s):
            if s.bf.get(("has", p[1], p[2], kv)) is True:
                return "DEAD"
            s.bf[("has", p[1], p[2], kv)] = True
            s.mem[e] = {0: (kv, 8)}
            if v is not None:
                s.mem[e][8] = (v, 8)
                eng.escape(s, v)
            eng.emit(s, "CKINSERT", p, kv)
            return eng.fresh(s, site, c.kind)
        return eng.fork(st, c, [there, new])

    def c_pop(self, eng, st, c, base, p):
        e = self.back(eng, st, p) if base == "pop_back" else self.front(eng, st, p)
        if e is None or st.dead:
            eng.emit(st, "EMPTYACCESS", p, base)
            return False
        segs = list(self.segs(eng, st, p))
        v = eng.load(st, ("p", e, 0), 8, "p")
        segs.remove(e)
        self.setcont(eng, st, p, segs)
        eng.emit(st, "CPOP", p, base, v, ("p", e, 0))
        if st.dead:
            return False
        return self.destroy_elem(eng, st, c, e)

    def destroy_elem(self, eng, st, c, e):
        t = st.typ.get(e)
        cls = t[0][1] if t else -1
        name = eng.p.types[cls].name if cls >= 0 else ""
        if name.startswith(("std::shared_ptr<", "std::unique_ptr<")):
            pi = eng.load(st, ("p", e, 8), 8, "p")
            if is_ptr(pi) and name.startswith("std::shared"):
                if eng.nullness(st, pi) is None:
                    s2 = st.copy()
                    if eng.assume_cmp(s2, "eq", pi, 0) and not s2.dead and eng.ret(s2, c, None):
                        eng.push(s2)
                    if not eng.assume_cmp(st, "ne", pi, 0) or st.dead:
                        return False
                return self.m_release(eng, st, c, [pi])
            return eng.ret(st, c, None)
        d = self.dtor_of(eng, cls)
        if d is not None:
            eng.push_frame(st, d, [("p", e, 0)], c)
            return not st.dead
        return eng.ret(st, c, None)

    def dtor_of(self, eng, cls):
        if cls < 0:
            return None
        if not hasattr(eng, "_dtors"):
            eng._dtors = {}
            for f in eng.p.funcs.values():
                if f.ctor and "~" in f.base and f.cls >= 0 and not f.name.startswith("_ZTh"):
                    k = eng.p.canon(f.cls)
                    if "D2" in f.name or k not in eng._dtors:
                        eng._dtors[k] = f
        f = eng._dtors.get(eng.p.canon(cls))
        if f is None or "/repo/" not in (f.file or ""):
            return None
        return f

    def destroy_elems(self, eng, st, c, p):
        """destruction of a container destroys its elements front to back"""
        segs = list(self.segs(eng, st, p))
        self.setcont(eng, st, p, [])
        todo = []
        for s in segs:
            if s[0] == "sg":
                if self.blank(st, s):
                    continue
                e = self.mkelem(eng, st, p, "dying")
                todo.append((e, s[1]))
            else:
                todo.append((s, None))
        return self.destroy_next(eng, st, c, tuple(todo))

    def destroy_next(self, eng, st, c, todo):
        """destroys a generic representative of each segment"""
        while todo:
            e, n = todo[0]
            t = st.typ.get(e)
            cls = t[0][1] if t else -1
            if n is not None:
                tr = eng.cmp_truth(st, "sgt", n, 0)
                if tr is False:
                    todo = todo[1:]
                    continue
                if tr is None:
                    s2 = st.copy()
                    if eng.assume_cmp(s2, "sle", n, 0) and not s2.dead:
                        if self.destroy_next(eng, s2, c, todo[1:]):
                            eng.push(s2)
                    if not eng.assume_cmp(st, "sgt", n, 0) or st.dead:
                        return False
            name = eng.p.types[cls].name if cls >= 0 else ""
            if name.startswith("std::shared_ptr<"):
                pi = eng.load(st, ("p", e, 8), 8, "p")
                if is_ptr(pi):
                    o = pi[1]
                    eng.emit(st, "RELEASE", self.target(st, o))
                    if st.dead:
                        return False
                    self.ref(st, pi, -1)
                todo = todo[1:]
                continue
            d = self.dtor_of(eng, cls)
            if d is not None:
                eng.push_frame(st, d, [("p", e, 0)], c, tag=("then", "destroy", todo[1:], c.dst))
                return not st.dead
            todo = todo[1:]
        return eng.ret(st, c, None)

    def c_begin(self, eng, st, c, p, key):
        n = self.size(eng, st, p)
        end = ("p", ("END#", p[1], p[2]), 0)
        eng.emit(st, "CBEGIN", p)
        if st.dead:
            return False
        t = eng.cmp_truth(st, "eq", n, 0)
        if t is True:
            return eng.ret(st, c, end)

        def some(s):
            nn = self.size(eng, s, p)
            if not eng.assume_cmp(s, "ne", nn, 0) or s.dead:
                return "DEAD"
            e = self.front(eng, s, p)
            if e is None:
                return "DEAD"
            eng.emit(s, "CITER", p, ("p", e, 0), "first")
            return ("p", e, 0)

        def none(s):
            nn = self.size(eng, s, p)
            if not eng.assume_cmp(s, "eq", nn, 0) or s.dead:
                return "DEAD"
            self.setcont(eng, s, p, [])
            return end
        if t is False:
            v = some(st)
            if v == "DEAD" or st.dead:
                return False
            return eng.ret(st, c, v)
        return eng.fork(st, c, [some, none])

    def next_elem(self, eng, st, cur):
        """alternatives for the successor of an element: list of functions"""
        e = cur[1]
        if e[0] != "E#":
            return [lambda s: ("p", ("y?",), 0)] if e[0] != "END#" else [lambda s: cur]
        p = ("p", e[1], e[2])
        end = ("p", ("END#", e[1], e[2]), 0)
        # content might have been moved elsewhere
        segs = None
        holder = None
        for o, m in st.mem.items():
            for k, v in m.items():
                if type(k) is tuple and k[0] == "#" and e in v[1]:
                    holder = ("p", o, k[1])
                    segs = v[1]
                    break
            if holder:
                break
        if holder is None:
            def anynext(s):
                x = self.mkelem(eng, s, p, "next")
                eng.emit(s, "CITER", p, ("p", x, 0), "next")
                return ("p", x, 0)

            def anyend(s):
                eng.emit(s, "CITEREND", p)
                return end
            return [anynext, anyend]
        hp = holder
        hend = ("p", ("END#", hp[1], hp[2]), 0) if (e[1], e[2]) != (hp[1], hp[2]) else end
        i = segs.index(e)
        later = [s for s in segs[i + 1:] if not (s[0] == "sg" and s[1] == 0)]

        def toend(s):
            if len(later) and any(x[0] != "sg" for x in later):
                return "DEAD"
            for x in later:
                if not eng.assume_cmp(s, "eq", x[1], 0) or s.dead:
                    return "DEAD"
            sg = self.collapse(eng, s, hp, e)
            eng.emit(s, "CITEREND", hp)
            return hend

        def tonext(s):
            sg = list(self.segs(eng, s, hp))
            if e not in sg:
                return "DEAD"
            j = sg.index(e)
            tail = sg[j + 1:]
            while tail and tail[0][0] == "sg":
                t = eng.cmp_truth(s, "sgt", tail[0][1], 0)
                if t is False:
                    tail = tail[1:]
                    continue
                if t is None and len(tail) == 1:
                    if not eng.assume_cmp(s, "sgt", tail[0][1], 0) or s.dead:
                        return "DEAD"
                    return self.tonext_retry(eng, s, hp, e)
                x = self.mkelem(eng, s, hp, "next")
                n = eng.new(s, "y#", ("suffix", hp[2]))
                s.iv[n] = (0, INF)
                self.setcont(eng, s, hp, sg[:j + 1] + [x, ("sg", n)] + tail[1:])
                self.collapse(eng, s, hp, e)
                eng.emit(s, "CITER", hp, ("p", x, 0), "next")
                return ("p", x, 0)
            if not tail:
                return "DEAD"
            eng.emit(s, "CITER", hp, ("p", tail[0], 0), "next")
            return ("p", tail[0], 0)
        alts = []
        if not any(x[0] != "sg" for x in later):
            alts.append(toend)
        if later:
            alts.append(tonext)
        return alts

    def tonext_retry(self, eng, s, hp, e):
        sg = list(self.segs(eng, s, hp))
        j = sg.index(e)
        tail = sg[j + 1:]
        if not tail:
            return "DEAD"
        if tail[0][0] != "sg":
            eng.emit(s, "CITER", hp, ("p", tail[0], 0), "next")
            return ("p", tail[0], 0)
        x = self.mkelem(eng, s, hp, "next")
        n = eng.new(s, "y#", ("suffix", hp[2]))
        s.iv[n] = (0, INF)
        self.setcont(eng, s, hp, sg[:j + 1] + [x, ("sg", n)] + tail[1:])
        self.collapse(eng, s, hp, e)
        eng.emit(s, "CITER", hp, ("p", x, 0), "next")
        return ("p", x, 0)

    def collapse(self, eng, s, hp, upto):
        """forgets the identity of the elements passed by an iteration"""
        sg = list(self.segs(eng, s, hp))
        if upto not in sg:
            return
        j = sg.index(upto)
        if eng.keep_elements and eng.keep_elements(eng, s, hp):
            return
        n = eng.new(s, "y#", ("prefix", hp[2]))
        s.iv[n] = (1, INF)
        # elements some of which were moved elsewhere
        moved = any(self.blank(s, x) for x in sg[:j + 1])
        self.setcont(eng, s, hp, [("sg", n, "moved") if moved else ("sg", n)] + sg[j + 1:])

    def blank(self, st, x):
        if x[0] == "sg":
            return len(x) > 2
        vals = [v[0] for k, v in st.mem.get(x, {}).items() if type(k) is int]
        return len(vals) > 1 and all(type(v) is int and v == 0 or v == ("z",) for v in vals)

    def m_iterop(self, eng, st, c, a):
        key = c.f.key
        base = key.rsplit("::", 1)[1]
        cls = key.rsplit("::", 1)[0].rsplit("::", 1)[-1]
        if base in ("operator*", "operator->", "base"):
            v = eng.load(st, a[0], 8, "p")
            if base == "base":
                return eng.ret(st, c, a[0])
            if is_ptr(v) and v[1][0] == "END#":
                eng.emit(st, "ENDDEREF", v)
                return False
            return eng.ret(st, c, v)
        if base == "operator++" or base == "operator--":
            cur = eng.load(st, a[0], 8, "p")
            if not is_ptr(cur):
                return eng.ret(st, c, a[0])
            if base == "operator--":
                v = eng.fresh(st, ("itdec", st.frames[-1].cs), "p")
                eng.store(st, a[0], v, 8)
                return eng.ret(st, c, a[0])
            alts = self.next_elem(eng, st, cur)
            post = len(a) > 1

            def mk(fn):
                def g(s):
                    v = fn(s)
                    if v == "DEAD" or s.dead:
                        return "DEAD"
                    eng.store(s, a[0], v, 8)
                    return cur if post else a[0]
                return g
            if not alts:
                return False
            return eng.fork(st, c, [mk(f) for f in alts])
        if base == cls:
            # constructors: from a pointer reference, a node or another iterator
            if len(a) == 1:
                return eng.ret(st, c, None)
            v = a[1]
            if c.f.di and len(c.f.di) > 2:
                t = eng.p.canon(c.f.di[2])
                if t >= 0 and eng.p.types[t].tag in (TAG_REF, TAG_RREF):
                    v = eng.load(st, v, 8, "p")
            eng.store(st, a[0], v, 8)
            return eng.ret(st, c, None)
        if base in ("operator==", "operator!="):
            return self.m_iteq(eng, st, c, a)
        if base in ("operator+", "operator-"):
            v = eng.load(st, a[0], 8, "p")
            if is_ptr(v) and a[1:] and a[1] == 0:
                return eng.ret(st, c, v)
            return eng.ret(st, c, eng.result(st, c, a))
        return NotImplemented

    def m_iteq(self, eng, st, c, a):
        x = eng.load(st, a[0], 8, "p") if is_ptr(a[0]) and a[0][1][0] not in ("E#", "END#") else a[0]
        y = eng.load(st, a[1], 8, "p") if is_ptr(a[1]) and a[1][1][0] not in ("E#", "END#") else a[1]
        r = eng.icmp(st, "eq", x, y)
        if "!=" in c.f.base:
            r = eng.neg(r)
        return eng.ret(st, c, r)

    def m_itnext(self, eng, st, c, a):
        if is_ptr(a[0]) and a[0][1][0] == "E#" and len(a) > 1 and a[1] == 1 and "next" in c.f.base:
            alts = self.next_elem(eng, st, a[0])
            return eng.fork(st, c, alts)
        return eng.ret(st, c, eng.result(st, c, a))

    def m_itinc(self, eng, st, c, a):
        cur = eng.load(st, a[0], 8, "p")
        if is_ptr(cur) and cur[1][0] == "E#" and a[1:] and a[1] == 1:
            alts = self.next_elem(eng, st, cur)

            def mk(fn):
                def g(s):
                    v = fn(s)
                    if v == "DEAD" or s.dead:
                        return "DEAD"
                    eng.store(s, a[0], v, 8)
                    return None
                return g
            return eng.fork(st, c, [mk(f) for f in alts])
        return eng.ret(st, c, None)

    def itval(self, eng, st, x):
        if is_ptr(x) and x[1][0] in ("E#", "END#", "RM#"):
            return x
        if is_ptr(x):
            return eng.load(st, x, 8, "p")
        return x

    def c_erase(self, eng, st, c, key, p, rest):
        vals = [self.itval(eng, st, x) for x in rest]
        if self.is_assoc(key):
            v = vals[0]
            kv = v
            if is_ptr(v) and v[1][0] == "E#" and v[1][3][0] == "key":
                kv = v[1][3][1]
                eng.emit(st, "CKERASE", p, kv, "one")
            elif is_ptr(v) and v[1][0] == "END#":
                eng.emit(st, "ENDDEREF", v)
                return False
            else:
                kv = eng.load(st, rest[0], 8, "p") if is_ptr(rest[0]) else rest[0]
                eng.emit(st, "CKERASE", p, kv, "all")
            if self.is_map(key):
                st.bf[("has", p[1], p[2], kv)] = False
                st.mem.pop(("E#", p[1], p[2], ("key", kv)), None)
            else:
                one = is_ptr(v) and v[1][0] == "E#"
                n = st.bf.pop(("min", p[1], p[2], kv), 0)
                if one and n > 1:
                    st.bf[("min", p[1], p[2], kv)] = n - 1
                elif one and self.is_multi(key):
                    st.bf.pop(("has", p[1], p[2], kv), None)
                else:
                    st.bf[("has", p[1], p[2], kv)] = False
            return eng.ret(st, c, eng.fresh(st, ("er", st.frames[-1].cs, st.frames[-1].b, st.frames[-1].i), c.kind))
        if len(vals) == 1:
            v = vals[0]
            if is_ptr(v) and v[1][0] == "END#":
                eng.emit(st, "ENDDEREF", v)
                return False
            e = v[1] if is_ptr(v) else None
            val = eng.load(st, v, 8, "p") if is_ptr(v) else None
            segs = list(self.segs(eng, st, p))
            nxt = ("p", ("END#", p[1], p[2]), 0)
            known = e in segs
            if known:
                alts = self.next_elem(eng, st, v)
                i = segs.index(e)
                pre, rest2 = segs[:i], segs[i + 1:]
                self.setcont(eng, st, p, pre + rest2)
            else:
                st.mem.get(p[1], {}).pop(("#", p[2]), None)
            eng.emit(st, "CERASE", p, val, v, "front" if known and i == 0 else "")
            if st.dead:
                return False
            # continue at the following element, if any
            fr = st.frames[-1].f
            if known and (c.dst < 0 or c.dst not in getattr(fr, "used", (c.dst,))) and \
                    list(self.segs(eng, st, p)) == pre + rest2:
                # nobody looks at the returned position
                return eng.ret(st, c, nxt)
            if known and i == 0:
                def some(s):
                    if not eng.assume_cmp(s, "ne", self.size(eng, s, p), 0) or s.dead:
                        return "DEAD"
                    x = self.front(eng, s, p)
                    if x is None:
                        return "DEAD"
                    eng.emit(s, "CITER", p, ("p", x, 0), "next")
                    return ("p", x, 0)

                def none(s):
                    if not eng.assume_cmp(s, "eq", self.size(eng, s, p), 0) or s.dead:
                        return "DEAD"
                    self.setcont(eng, s, p, [])
                    eng.emit(s, "CITEREND", p)
                    return nxt
                t = eng.cmp_truth(st, "eq", self.size(eng, st, p), 0)
                return eng.fork(st, c, [none] if t is True else [some] if t is False else [some, none])
            if known and list(self.segs(eng, st, p)) == pre + rest2:
                def follow(alt):
                    def do(s):
                        self.setcont(eng, s, p, pre + [e] + rest2)
                        x = alt(s)
                        if x == "DEAD" or s.dead:
                            return "DEAD"
                        sg = list(self.segs(eng, s, p))
                        if e in sg:
                            sg.remove(e)
                        elif sg:
                            sg = pre + sg[1:]
                        self.setcont(eng, s, p, sg)
                        return x
                    return do
                return eng.fork(st, c, [follow(x) for x in alts])

            def isend(s):
                eng.emit(s, "CITEREND", p)
                return nxt

            def isnext(s):
                x = self.mkelem(eng, s, p, "next")
                sg = [y for y in self.segs(eng, s, p)]
                n1 = eng.new(s, "y#", ("prefix", p[2]))
                n2 = eng.new(s, "y#", ("suffix", p[2]))
                s.iv[n1] = (0, INF)
                s.iv[n2] = (0, INF)
                self.setcont(eng, s, p, [("sg", n1), x, ("sg", n2)])
                eng.emit(s, "CITER", p, ("p", x, 0), "next")
                return ("p", x, 0)
            if not self.segs(eng, st, p) and known:
                return eng.ret(st, c, isend(st))
            return eng.fork(st, c, [isnext, isend])
        a0, b0 = vals[0], vals[1]
        what = a0[1][0] if is_ptr(a0) else "?"
        if what == "END#":
            eng.emit(st, "CERASERANGE", p, "none", a0)
            return eng.ret(st, c, b0)
        if what == "RM#":
            how, val = a0[1][3], a0[1][4]
            eng.emit(st, "CREMOVED", p, how, val)
            n = eng.new(st, "y#", ("rest", p[2]))
            st.iv[n] = (0, INF)
            self.setcont(eng, st, p, [("sg", n)])
            return eng.ret(st, c, b0)
        segs = self.segs(eng, st, p)
        full = is_ptr(a0) and segs and a0[1] == segs[0] and is_ptr(b0) and b0[1][0] == "END#"
        eng.emit(st, "CERASERANGE", p, "all" if full else "some", a0)
        if st.dead:
            return False
        if full:
            self.setcont(eng, st, p, [])
        else:
            st.mem.get(p[1], {}).pop(("#", p[2]), None)
        return eng.ret(st, c, b0)

    # ---------------------------------------------------------------- algorithms
    def m_algo(self, eng, st, c, a):
        base = c.f.base.split("<")[0]
        its = [x for x in a if is_ptr(x) and x[1][0] in ("E#", "END#", "RM#")]
        if base == "move" and len(a) == 1:
            return NotImplemented
        if base in ("move", "copy") and len(a) >= 3:
            eng.emit(st, "AMOVE", base, *a)
            if len(its) >= 2 and its[0][1][0] == "RM#":
                # [partition point, end) into somewhere
                p = ("p", its[0][1][1], its[0][1][2])
                dst = a[-1]
                tgt = None
                if is_ptr(dst):
                    tgt = eng.load(st, dst, 8, "p") if dst[1][0] == "A#" else dst
                if is_ptr(tgt):
                    n = eng.new(st, "y#", ("moved", p[2]))
                    st.iv[n] = (0, INF)
                    self.setcont(eng, st, tgt, list(self.segs(eng, st, tgt)) + [("sg", n)])
            elif len(its) >= 2:
                dst = a[-1]
                tgt = eng.load(st, dst, 8, "p") if is_ptr(dst) and dst[1][0] == "A#" else dst
                if is_ptr(tgt) and tgt[1][0] not in ("E#", "END#"):
                    n = eng.new(st, "y#", ("moved", 0))
                    st.iv[n] = (0, INF)
                    self.setcont(eng, st, tgt, list(self.segs(eng, st, tgt)) + [("sg", n)])
            return eng.ret(st, c, eng.result(st, c, a))
        if not its:
            return NotImplemented
        p = ("p", its[0][1][1], its[0][1][2])
        if base in ("remove", "find", "count"):
            val = self.elem_value(eng, st, a[2])
            if base == "remove":
                eng.emit(st, "AREMOVE", p, "value", val)
                return eng.ret(st, c, ("p", ("RM#", p[1], p[2], "value", val), 0))
            if base == "find":
                def found(s):
                    x = self.mkelem(eng, s, p, "found")
                    sg = self.segs(eng, s, p)
                    if not sg:
                        return "DEAD"
                    n1, n2 = eng.new(s, "y#", ("prefix", p[2])), eng.new(s, "y#", ("suffix", p[2]))
                    s.iv[n1] = (0, INF)
                    s.iv[n2] = (0, INF)
                    self.setcont(eng, s, p, [("sg", n1), x, ("sg", n2)])
                    s.mem.setdefault(x, {})[0] = (val, 8)
                    eng.emit(s, "CFIND", p, val, True)
                    return ("p", x, 0)

                def missing(s):
                    eng.emit(s, "CFIND", p, val, False)
                    return ("p", ("END#", p[1], p[2]), 0)
                return eng.fork(st, c, [found, missing])
            return eng.ret(st, c, eng.result(st, c, a))
        if base in ("partition", "stable_partition", "remove_if", "find_if", "any_of", "all_of",
                    "none_of", "count_if", "for_each", "find_if_not"):
            # evaluate the functor once for a generic element
            fn = a[-1]
            f = self.functor(eng, c)
            if f is None or not its:
                return eng.ret(st, c, eng.result(st, c, a))
            e = None
            st_empty = None
            empty = is_ptr(a[0]) and a[0][1][0] == "END#"
            if empty:
                if base in ("any_of",):
                    return eng.ret(st, c, 0)
                if base in ("all_of", "none_of"):
                    return eng.ret(st, c, 1)
                return eng.ret(st, c, a[0] if base != "for_each" else eng.result(st, c, a))
            segs = self.segs(eng, st, p)
            known = base in ("for_each", "find_if", "find_if_not", "any_of", "all_of", "none_of") and \
                a[0][1] == segs[0] and is_ptr(a[1]) and a[1][1][0] == "END#" and \
                not any(x[0] == "sg" for x in segs) if segs else False
            if not known:
                x = self.mkelem(eng, st, p, "generic")
                eng.emit(st, "AVISIT", p, base, ("p", x, 0))
            if st.dead:
                return False
            # closures small enough are passed by value, materialise them
            this = fn
            if not is_ptr(fn) or self.byvalue(eng, c):
                o = ("A#", st.frames[-1].cs, "algo")
                st.mem[o] = {0: (fn, 8)}
                this = ("p", o, 0)
            if known:
                return self.algo_each(eng, st, c, (base, p, 0, f.name, this))
            eng.push_frame(st, f, [this, ("p", x, 0)], c,
                           tag=("then", "algo", (base, p, ("p", x, 0)), c.dst))
            return not st.dead
        eng.emit(st, "ALGO", base, *a)
        return eng.ret(st, c, eng.result(st, c, a))

    def algo_each(self, eng, st, c, what):
        """visits the elements of a range all of which are known"""
        base, p, i, fname, this = what
        segs = self.segs(eng, st, p)
        if i >= len(segs):
            eng.emit(st, "CITEREND", p)
            if base in ("find_if", "find_if_not"):
                return eng.ret(st, c, ("p", ("END#", p[1], p[2]), 0))
            if base == "for_each":
                return eng.ret(st, c, eng.new(st, "y#", ("algo", 0)))
            return eng.ret(st, c, 0 if base == "any_of" else 1)
        x = ("p", segs[i], 0)
        eng.emit(st, "CITER", p, x, "next" if i else "first")
        if st.dead:
            return False
        eng.push_frame(st, eng.p.funcs[fname], [this, x], c, tag=("then", "each", what + (x,), c.dst))
        return not st.dead

    def each_done(self, eng, st, c, what, v):
        base, p, i, fname, this, x = what
        nxt = (base, p, i + 1, fname, this)
        if base != "for_each":
            t = eng.truth(st, v)
            if t is None:
                if base in ("find_if", "find_if_not"):
                    def found(s):
                        return x if eng.assume(s, v, base == "find_if") and not s.dead else "DEAD"
                    return eng.fork(st, c, [found, lambda s: ("p", ("END#", p[1], p[2]), 0)])
                s = eng.new(st, "y#", ("any", st.frames[-1].cs, st.frames[-1].b, st.frames[-1].i))
                st.iv[s] = (0, 1)
                return eng.ret(st, c, s)
            if base in ("find_if", "find_if_not") and t == (base == "find_if"):
                return eng.ret(st, c, x)
            if base in ("any_of", "none_of") and t:
                return eng.ret(st, c, 1 if base == "any_of" else 0)
            if base == "all_of" and not t:
                return eng.ret(st, c, 0)
        return self.algo_each(eng, st, c, nxt)

    def byvalue(self, eng, c):
        di = c.f.di
        if not di:
            return False
        t = eng.p.canon(di[-1])
        return t >= 0 and eng.p.is_class(t) and eng.p.sizeof(t) <= 8

    def functor(self, eng, c):
        """operator() of the closure passed to an algorithm"""
        di = c.f.di
        if not di:
            return None
        t = eng.p.canon(di[-1])
        for f in eng.p.funcs.values():
            if f.base.startswith("operator()") and f.cls >= 0 and eng.p.canon(f.cls) == t:
                return f
        return None

    # ---------------------------------------------------------------- resume
    def mkcall(self, st, fr, dst):
        c = Call()
        c.dst = fr.dst
        c.normal = fr.normal
        c.unwind = fr.unwind
        c.site = fr.csite
        c.kind = "v"
        c.sret = False
        c.nounwind = True
        c.name = None
        c.f = None
        return c

    def resume(self, eng, st, fr, tag, v):
        """a frame pushed by a model returned"""
        c = self.mkcall(st, fr, tag[-1])
        if tag[1] == "sp1":
            return self.weakrel(eng, st, c, tag[2])
        if tag[1] == "sp2":
            return eng.ret(st, c, None)
        if tag[1] == "destroy":
            return self.destroy_next(eng, st, c, tag[2])
        if tag[1] == "each":
            return self.each_done(eng, st, c, tag[2], v)
        if tag[1] == "algo":
            base, p, x = tag[2]
            ident = eng.load(st, x, 8, "p")
            eng.emit(st, "APRED", p, base, x, v)
            if st.dead:
                return False
            if base in ("partition", "stable_partition", "remove_if"):
                return eng.ret(st, c, ("p", ("RM#", p[1], p[2], base, v), 0))
            if base in ("find_if", "find_if_not"):
                def found(s):
                    if not eng.assume(s, v, base == "find_if") or s.dead:
                        return "DEAD"
                    n1, n2 = eng.new(s, "y#", ("prefix", p[2])), eng.new(s, "y#", ("suffix", p[2]))
                    s.iv[n1] = (0, INF)
                    s.iv[n2] = (0, INF)
                    self.setcont(eng, s, p, [("sg", n1), x[1], ("sg", n2)])
                    return x

                def missing(s):
                    return ("p", ("END#", p[1], p[2]), 0)
                return eng.fork(st, c, [found, missing])
            if base in ("any_of", "all_of", "none_of"):
                fr2 = st.frames[-1]
                s = eng.new(st, "y#", ("any", fr2.cs, fr2.b, fr2.i))
                st.iv[s] = (0, 1)
                return eng.ret(st, c, s)
            return eng.ret(st, c, eng.new(st, "y#", ("algo", 0)))
        if tag[1] == "nested":
            # an operation executed by someone else while this thread waits
            h = tag[2]
            eng.nested_value = v
            return h(eng, st, c, tag) if callable(h) else eng.ret(st, c, tag[3])
        raise Broken("resume " + str(tag))

    # ---------------------------------------------------------------- intrinsics
    def intrinsic(self, eng, st, c, name, a):
        n = name[5:]
        if n.startswith(("lifetime", "dbg", "invariant", "donothing", "experimental.noalias", "x86.sse2.pause",
                         "prefetch")):
            if n.startswith("lifetime"):
                q = a[1]
                if is_ptr(q) and q[1][0] == "A#" and q[2] == 0:
                    st.mem[q[1]] = {}
                    st.typ.pop(q[1], None)
                    st.esc.discard(q[1])
            return eng.ret(st, c, None)
        if n.startswith(("memcpy", "memmove")):
            eng.copy_mem(st, a[0], a[1], a[2])
            s, d = a[1], a[0]
            if is_ptr(s) and is_ptr(d) and type(a[2]) is int and type(s[2]) is int and type(d[2]) is int:
                for k, x in list(st.mem.get(s[1], {}).items()):
                    if type(k) is tuple and k[0] == "#s" and s[2] <= k[1] < s[2] + a[2]:
                        st.mem.setdefault(d[1], {})[("#s", k[1] - s[2] + d[2])] = x
            return eng.ret(st, c, None)
        if n.startswith("memset"):
            p, v, k = a[0], a[1], a[2]
            if is_ptr(p) and type(p[2]) is int and type(k) is int:
                m = st.mem.setdefault(p[1], {})
                for x in [x for x in m if type(x) is int and p[2] <= x < p[2] + k]:
                    del m[x]
                if v == 0:
                    if p[1][0] in ("A#", "H#") and p[2] == 0 and k > 64:
                        m["zero"] = 1
                    elif k <= 512:
                        o = 0
                        while o + 8 <= k:
                            m[p[2] + o] = (0, 8)
                            o += 8
                        while o < k:
                            m[p[2] + o] = (0, 1)
                            o += 1
            return eng.ret(st, c, None)
        if n.startswith(("type.test", "public.type.test")):
            p = a[0]
            if is_ptr(p) and p[1][0] == "VT#" and type(a[1]) is tuple and a[1][0] == "md":
                st.bf[("cls", p[1][1])] = a[1][1]
            return eng.ret(st, c, 1)
        if n.startswith("assume"):
            if not eng.assume(st, a[0], True) or st.dead:
                return False
            return eng.ret(st, c, None)
        if n.startswith("expect"):
            return eng.ret(st, c, a[0])
        if n.startswith("threadlocal.address"):
            return eng.ret(st, c, a[0])
        if n.startswith("eh.typeid.for"):
            g = a[0][1][1] if is_ptr(a[0]) else "?"
            return eng.ret(st, c, ("tid", g))
        if n.startswith("trap"):
            eng.emit(st, "TERMINATE", "trap")
            return False
        if n.startswith(("smax", "smin", "umax", "umin")):
            return self.minmax(eng, st, c, n, a)
        if n.startswith("abs"):
            return eng.ret(st, c, eng.fresh(st, ("abs", st.frames[-1].cs, st.frames[-1].b, st.frames[-1].i), c.kind))
        return eng.ret(st, c, eng.fresh(st, ("intr", n, st.frames[-1].cs, st.frames[-1].b, st.frames[-1].i), c.kind))

    def minmax(self, eng, st, c, n, a):
        pred = {"sma": "sge", "smi": "sle", "uma": "uge", "umi": "ule"}[n[:3]]

        def first(s):
            return a[0] if eng.assume_cmp(s, pred, a[0], a[1]) and not s.dead else "DEAD"

        def second(s):
            return a[1] if eng.assume_cmp(s, NEGATE[pred], a[0], a[1]) and not s.dead else "DEAD"
        t = eng.cmp_truth(st, pred, a[0], a[1])
        if t is not None:
            return eng.ret(st, c, a[0] if t else a[1])
        return eng.fork(st, c, [first, second])

    # ---------------------------------------------------------------- outside
    def external(self, eng, st, c, key, a):
        eng.unknown_calls[key] = eng.unknown_calls.get(key, 0) + 1
        if key in PURE:
            return eng.ret(st, c, eng.result(st, c, a))
        eng.emit(st, "EXT", key, *a)
        if st.dead:
            return False
        for x in a:
            eng.escape(st, x)
        eng.havoc(st, "external")
        return eng.ret(st, c, eng.result(st, c, a))

    def op_slot(self, eng):
        t = eng.p.by_name.get("xdispatch::operation")
        for v in t.virtuals:
            if v[1] == "operator()":
                return v[0]
        raise Broken("operation::operator() vanished")

    def op_function(self, eng, st, ptr):
        """operator() of an operation whose class is known or None"""
        if not is_ptr(ptr) or type(ptr[2]) is not int:
            return None
        e = st.mem.get(ptr[1], {}).get(ptr[2])
        if e is None or not is_ptr(e[0]) or e[0][1][0] != "G#":
            return None
        g = eng.p.globals.get(e[0][1][1])
        if g is None:
            return None
        v = g["initmap"].get(e[0][2] + 8 * self.op_slot(eng))
        if v is None or v[0] != "f":
            return None
        return eng.p.funcs.get(v[1])

    def deref_sp(self, eng, st, ref):
        """the object behind a reference to a shared_ptr"""
        return eng.load(st, ref, 8, "p") if is_ptr(ref) else ref

    def vcall(self, eng, st, c, cname, meth, obj, a, v):
        k = 1 if c.sret else 0
        this = a[k] if len(a) > k else a[0]
        if is_operation(cname) and meth == "operator()":
            eng.emit(st, "EXEC", this, *a[k + 1:])
            if st.dead:
                return False
            return self.user_call(eng, st, c, a[k + 1:])
        if meth.startswith("~"):
            eng.emit(st, "VDTOR", this, cname)
            return eng.ret(st, c, None) if not st.dead else False
        h = self.extra.get(cname + "::" + meth)
        if h is not None:
            r = h(eng, st, c, a)
            if r is not NotImplemented:
                return r
        eng.emit(st, "VCALL", cname, meth, *a[k:])
        if st.dead:
            return False
        di = v[3] if v else []
        for x in a:
            eng.escape(st, x)
            # shared pointers are passed by reference
            if is_ptr(x) and x[1][0] == "A#":
                for off in (x[2], x[2] + 8) if type(x[2]) is int else ():
                    e = st.mem.get(x[1], {}).get(off)
                    if e is not None:
                        eng.escape(st, e[0])
        c2f = c.f
        if c.sret and a and is_ptr(a[0]):
            t = eng.p.canon(di[0]) if di else -1
            eng.make_symbolic(st, a[0], t)
            eng.havoc(st, "virtual call")
            return eng.ret(st, c, None)
        eng.havoc(st, "virtual call")
        fr = st.frames[-1]
        val = eng.fresh(st, ("vret", fr.cs, fr.b, fr.i), c.kind, di[0] if di else -1)
        return eng.ret(st, c, val)

    # ---------------------------------------------------------------- continuations
    def run_cont(self, eng, st, cont):
        """cont = ("exec", ptr to an operation) executed by somebody else later"""
        kind = cont[0]
        if kind == "exec":
            ptr = cont[1]
            eng.emit(st, "CONT", ptr, *cont[2:3])
            if st.dead:
                return False
            eng.havoc(st, "later")
            f = self.op_function(eng, st, ptr)
            if f is None:
                raise Broken("continuation of an unknown operation")
            args = [ptr] + list(cont[3] if len(cont) > 3 else ())
            eng.push_frame(st, f, args, None, tag="cont")
            eng.push(st)
            return False
        if kind == "call":
            f = eng.p.funcs[cont[1]]
            eng.emit(st, "CONT", f.dem)
            eng.havoc(st, "later")
            eng.push_frame(st, f, list(cont[2]), None, tag="cont")
            eng.push(st)
            return False
        raise Broken("continuation " + kind)


class ExactModels(Models):
    """containers whose elements are all known, algorithms rearrange them"""

    def exact(self, eng, st, p):
        return all(x[0] == "E#" for x in self.segs(eng, st, p))

    def range(self, eng, st, first, last):
        """(container, elements) between two iterators"""
        if not (is_ptr(first) and is_ptr(last)) or first[1][0] not in ("E#", "END#") or last[1][0] not in ("E#", "END#"):
            return None
        if first[1][0] == "END#":
            return ("p", first[1][1], first[1][2]), []
        for o, m in st.mem.items():
            for k, v in m.items():
                if type(k) is tuple and k[0] == "#" and v[0] == "L" and first[1] in v[1]:
                    segs = list(v[1])
                    i = segs.index(first[1])
                    j = segs.index(last[1]) if last[1] in segs else len(segs)
                    if any(x[0] != "E#" for x in segs[i:j]) or j < i:
                        return None
                    return ("p", o, k[1]), segs[i:j]
        return None

    def m_algo(self, eng, st, c, a):
        base = c.f.base.split("<")[0]
        a = [self.itval(eng, st, x) if i < 2 else x for i, x in enumerate(a)]
        if len(a) >= 3 and base in ("partition", "stable_partition", "remove_if", "copy_if", "move", "copy"):
            r = self.range(eng, st, a[0], a[1])
            if r is not None:
                p, els = r
                if base in ("move", "copy"):
                    return self.transfer(eng, st, c, a, tuple(els), 0)
                if base in ("partition", "stable_partition"):
                    f = self.functor(eng, c)
                    if f is not None:
                        fn = a[2]
                        this = fn
                        if not is_ptr(fn) or self.byvalue(eng, c):
                            o = ("A#", st.frames[-1].cs, "algo")
                            st.mem[o] = {0: (fn, 8)}
                            this = ("p", o, 0)
                        return self.split(eng, st, c, p, tuple(els), 0, (), f, this)
        return super().m_algo(eng, st, c, a)

    def split(self, eng, st, c, p, els, i, truths, f, this):
        if i == len(els):
            segs = list(self.segs(eng, st, p))
            k = segs.index(els[0]) if els else 0
            yes = [e for e, t in zip(els, truths) if t]
            no = [e for e, t in zip(els, truths) if not t]
            rest = segs[k + len(els):]
            self.setcont(eng, st, p, segs[:k] + yes + no + rest)
            nxt = no + rest
            return eng.ret(st, c, ("p", nxt[0], 0) if nxt else ("p", ("END#", p[1], p[2]), 0))

        def done(eng, st, c, tag):
            p, els, i, truths, this = tag[3]
            t = eng.truth(st, eng.nested_value)
            if t is None:
                return eng.violate(st, "the selection of connections is not decided by them")
            return self.split(eng, st, c, p, els, i + 1, truths + (t,), f, this)
        eng.push_frame(st, f, [this, ("p", els[i], 0)], c,
                       tag=("then", "nested", done, (p, els, i, truths, this), c.dst))
        return not st.dead

    def transfer(self, eng, st, c, a, els, i):
        """moves or copies elements to the end of another container"""
        dst = a[2]
        tgt = dst
        if is_ptr(dst) and dst[1][0] == "A#" and ("#", dst[2]) not in st.mem.get(dst[1], {}):
            tgt = eng.load(st, dst, 8, "p")
        if not is_ptr(tgt) or tgt[1][0] in ("E#", "END#"):
            return super().m_algo(eng, st, c, a)
        if i == len(els):
            return eng.ret(st, c, eng.result(st, c, a))
        e = self.mkelem(eng, st, tgt, ("new", st.frames[-1].cs, st.frames[-1].b, st.frames[-1].i))
        t = st.typ.get(els[i])
        if t:
            st.typ[e] = t
        cls = t[0][1] if t else -1
        move = c.f.base.split("<")[0] == "move"
        f = None
        for g in eng.p.funcs.values():
            if g.ctor and g.cls >= 0 and "~" not in g.base and cls >= 0 and eng.p.canon(g.cls) == eng.p.canon(cls) and \
                    len(g.di) == 3 and g.di[2] >= 0 and eng.p.pointee(g.di[2]) >= 0 and \
                    eng.p.canon(eng.p.pointee(g.di[2])) == eng.p.canon(cls) and \
                    (eng.p.types[g.di[2]].tag == TAG_RREF) == move:
                f = g
        src = ("p", els[i], 0)
        if f is None:
            if cls >= 0 and eng.p.types[cls].name.startswith("std::shared_ptr<"):
                v = self.sp_get(eng, st, src)
                self.sp_set(eng, st, ("p", e, 0), v)
                if move:
                    self.sp_set(eng, st, src, (0, 0))
                else:
                    self.ref(st, v[1], 1)
                self.setcont(eng, st, tgt, list(self.segs(eng, st, tgt)) + [e])
                return self.transfer(eng, st, c, a, els, i + 1)
            return super().m_algo(eng, st, c, a)
        st.mem[e] = {}

        cf = c.f
        kind = c.kind

        def done(eng, st, c, tag):
            tgt, e, a, els, i = tag[3]
            c.f, c.kind = cf, kind
            self.setcont(eng, st, tgt, list(self.segs(eng, st, tgt)) + [e])
            return self.transfer(eng, st, c, list(a), els, i + 1)
        eng.push_frame(st, f, [("p", e, 0), src], c,
                       tag=("then", "nested", done, (tgt, e, tuple(a), els, i), c.dst))
        return not st.dead

    def c_erase(self, eng, st, c, key, p, rest):
        vals = [self.itval(eng, st, x) for x in rest]
        if not self.is_assoc(key) and vals and self.exact(eng, st, p):
            r = None
            if len(vals) == 2:
                r = self.range(eng, st, vals[0], vals[1])
            elif is_ptr(vals[0]) and vals[0][1] in self.segs(eng, st, p):
                r = (p, [vals[0][1]])
            if r is not None and r[0] == p:
                segs = list(self.segs(eng, st, p))
                els = r[1]
                i = segs.index(els[0]) if els else len(segs)
                rest2 = segs[i + len(els):]
                nxt = ("p", rest2[0], 0) if rest2 else ("p", ("END#", p[1], p[2]), 0)
                self.setcont(eng, st, p, [x for x in segs if x not in els])
                return self.each_dtor(eng, st, c, tuple(els), nxt)
        return super().c_erase(eng, st, c, key, p, rest)

    def each_dtor(self, eng, st, c, els, res):
        """destroys elements, returning a position afterwards"""
        while els:
            e = els[0]
            t = st.typ.get(e)
            cls = t[0][1] if t else -1
            els = els[1:]
            d = self.dtor_of(eng, cls)
            if d is not None:
                def done(eng, st, c, tag):
                    return self.each_dtor(eng, st, c, *tag[3])
                eng.push_frame(st, d, [("p", e, 0)], c, tag=("then", "nested", done, (els, res), c.dst))
                return not st.dead
            if cls >= 0 and eng.p.types[cls].name.startswith("std::shared_ptr<"):
                pi = eng.load(st, ("p", e, 8), 8, "p")
                if is_ptr(pi):
                    eng.emit(st, "RELEASE", self.target(st, pi[1]))
                    if st.dead:
                        return False
                    self.ref(st, pi, -1)
        return eng.ret(st, c, res)
