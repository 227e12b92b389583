"""C19: results depend only on the inputs - effect analysis over every function body of the crate."""
import re
from vlib import graph

# callees (by definition path) whose result is not a function of their arguments
AMBIENT = [
    (r"^std::env::", "reads the process environment"),
    (r"^std::time::(?!Duration)", "reads the clock"),
    (r"^std::process::(?!Termination)", "depends on other processes"),
    (r"^std::net::(?!.*addr)", "uses the network"),
    (r"^std::os::", "uses the operating system directly"),
    (r"^std::io::stdio::(?!.*_?e?print)", "uses the standard streams"),
    (r"^std::io::(stdin|stdout|stderr)$", "uses the standard streams"),
    (r"^std::thread::(local|current|available_parallelism|park|sleep|functions::(available_parallelism|current|id))", "depends on the thread it runs on"),
    (r"^std::hash::random|^std::collections::hash::map::RandomState|RandomState::|^std::random", "uses a random seed"),
    (r"^(rand|rand_core|rand_chacha|fastrand|getrandom|chrono|time|oorandom|tempfile)::", "uses randomness or the clock"),
    (r"^rayon(_core)?::.*(current_num_threads|current_thread_index|max_num_threads)", "depends on the thread pool"),
    (r"^num_cpus::", "depends on the machine"),
    (r"^core::core_arch::|is_.*_feature_detected|^std_detect::", None),
    (r"^core::panic::location|Location::<?.*caller", None),
]
HASH_ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_keys", "into_values", "retain", "into_iter",
             "extract_if", "difference", "intersection", "union", "symmetric_difference", "next"}
HASHY = re.compile(r"(^|::)(HashMap|HashSet)$")
# parallel consumers that combine or choose in scheduling order
SCHED = {"find_any", "find_map_any", "position_any", "reduce", "reduce_with", "try_reduce", "try_reduce_with", "fold", "fold_with", "try_fold",
         "sum", "product", "any", "take_any", "skip_any", "while_some", "panic_fuse", "take_any_while", "skip_any_while", "par_bridge"}
SCHED_OK = {"any"}
SHARED = re.compile(r"(^|::)(Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceCell|OnceLock|LazyLock|Lazy|Atomic\w*|Sender|SyncSender|Condvar)$")
ONCE = re.compile(r"(^|::)(OnceLock|LazyLock|OnceCell|Lazy|OnceBox)$")
FS = re.compile(r"^std::fs::|^std::path::.*::(exists|try_exists|metadata|symlink_metadata|canonicalize|read_dir|read_link|is_file|is_dir|is_symlink)$")
FS_PURE = re.compile(r"^std::io::|fmt|clone|::drop$|eq$")
FS_CONFIG = re.compile(r"::(options|new|write|append|truncate|create|create_new|read|custom_flags|mode)$")
FS_WRITE = re.compile(r"::(create|create_new|write|append|truncate|remove_file|remove_dir|remove_dir_all|rename|copy|create_dir|create_dir_all|hard_link|set_permissions|set_len|set_times|set_modified|soft_link)$")


def run(ck):
    ck.rule("ambient", "no function of the crate reads the clock, the environment, a random source, standard streams, thread identity or machine properties", 1000)
    ck.rule("order", "no function iterates a hash table, and no parallel operation combines results in scheduling order or shares mutable state", 1)
    ck.rule("address", "no function turns an address into a number or text", 1)
    ck.rule("state", "no static can change after its initialisation, unless it is computed once from nothing but constants", 30)
    ck.rule("fs", "every file operation acts on a path the caller of the exported function passed, and functions that return data only read", 2)
    p = ck.p
    g = graph.load(p)
    effects(ck, p, g)
    statics(ck, p, g)
    files(ck, p, g)


def ty_has(p, t, pred, depth=0, seen=None):
    """does a type (through references, generics and fields of local ADTs) contain one whose ADT path satisfies pred"""
    seen = set() if seen is None else seen
    if not isinstance(t, tuple) or depth > 6 or t in seen:
        return False
    seen.add(t)
    if t and t[0] == "adt":
        if pred(t[1]):
            return True
    return any(ty_has(p, x, pred, depth + 1, seen) for x in t if isinstance(x, tuple))


def casts(body):
    for bi, b in enumerate(body["blocks"]):
        for s in b.get("s", ()):
            yield from _casts(s, s)


def _casts(x, s):
    if isinstance(x, (list, tuple)):
        if len(x) >= 3 and x[0] == "cast" and isinstance(x[1], str):
            yield x, s
        for y in x:
            yield from _casts(y, s)


def effects(ck, p, g):
    nord, naddr = [], []
    for it in p.fns():
        ck.saw_fn(it["key"])
        bad = None
        calls = [(s.fi, s.fargs, s) for s in g.sites[it["key"]] if s.fi] + [(fi, (), None) for fi in g.uses.get(it["key"], ()) if "key" in fi]
        for fi, fargs, s in calls:
            ck.stats["call_sites"] += 1
            k = fi["key"]
            where = p.loc(s.t[6]) if s else p.loc_of_item(it)
            for pat, why in AMBIENT:
                if why and re.search(pat, k):
                    bad = "%s at %s: %s" % (k, where, why)
            nm = fi.get("name") or k.split("::")[-1]
            selfs = [a for a in fargs[:1]]
            if "impl_self" in fi:
                selfs.append(p.ty(fi["impl_self"]))
            strip = [t[1] if t and t[0] == "ref" else t for t in selfs]
            if nm in HASH_ITER and any(t and t[0] == "adt" and (HASHY.search(t[1]) or re.search(r"hash_(map|set)|hash::(map|set)", t[1])) for t in strip):
                nord.append((it, "%s iterates a hash table (%s) at %s" % (it["path"], nm, where)))
            if re.match(r"^rayon", k):
                if nm in SCHED and nm not in SCHED_OK:
                    nord.append((it, "%s combines parallel results in scheduling order (%s) at %s" % (it["path"], nm, where)))
                for a in fargs:
                    for ct in closures(a):
                        up = p.items.get(ct)
                        if up and ty_has(p, upvars(p, up), lambda n: bool(SHARED.search(n))):
                            nord.append((it, "%s: a parallel closure shares mutable state at %s" % (it["path"], where)))
            if k.startswith("core::fmt::") and "Pointer" in k or re.search(r"::(addr|expose_provenance)$", k) and "ptr" in k:
                naddr.append((it, "%s formats or exposes an address at %s" % (it["path"], where)))
        ck.judge("ambient", it["path"], bad is None, bad or "")
        for c, s in casts(it["body"]):
            if "ExposeProvenance" in c[1] and "With" not in c[1]:
                naddr.append((it, "%s turns an address into an integer" % it["path"]))
    judge_list(ck, "order", nord, "no unordered iteration or racing reduction in %d functions" % len(p.fns()))
    judge_list(ck, "address", naddr, "no address-dependent value in %d functions" % len(p.fns()))


def judge_list(ck, rid, found, okd):
    if not found:
        ck.ok(rid, "crate", okd)
    for it, d in found:
        ck.bad(rid, it["path"], d)


def closures(t):
    if isinstance(t, tuple):
        if t and t[0] == "closure":
            yield t[1]
        for x in t:
            if isinstance(x, tuple):
                yield from closures(x)


_caps = {}


def upvars(p, it):
    """type of the tuple of captured values of a closure, from where it is made"""
    if not _caps:
        for f in p.fns():
            for b in f["body"]["blocks"]:
                for s in b.get("s", ()):
                    if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], list) and s[2][1][0] == "closure":
                        _caps[s[2][1][1]] = p.ty(s[2][1][2][-1])
    return _caps.get(it["key"], ("tuple", ()))


def statics(ck, p, g):
    users = {}
    for it in p.raw["items"]:
        if it["kind"] != "static":
            continue
        t = p.ty(it["ty"])
        if not it.get("mutable") and not it.get("thread_local") and it.get("freeze"):
            ck.ok("state", it["path"], "immutable")
            continue
        if not it.get("mutable") and not it.get("thread_local") and t[0] == "adt" and ONCE.search(t[1]):
            r = once_init(p, g, it)
            if r is None:
                ck.ok("state", it["path"], "initialised once, from constants only")
                continue
            ck.bad("state", it["path"], "%s keeps state between calls: %s" % (p.loc_of_item(it), r))
            continue
        ck.bad("state", it["path"], "%s is %s: results can depend on what was done before" % (
            p.loc_of_item(it), "a mutable static" if it.get("mutable") else "thread-local" if it.get("thread_local") else "a static with interior mutability (%s)" % p.tystr(t)[:60]))


def once_init(p, g, st):
    """why the value a once-cell is given can differ between calls (None: it cannot)"""
    if re.search(r"(^|::)(LazyLock|Lazy)$", p.ty(st["ty"])[1]):
        return None       # initialised by a function without captures; its body is under the other rules
    sites = [s for ss in g.sites.values() for s in ss if s.fi and re.search(r"(^|::)(OnceLock|OnceCell)::", s.name)]
    for s in sites:
        nm = s.name.split("::")[-1]
        if nm in ("set", "try_insert", "take", "get_mut", "set_unsync"):
            return "%s calls %s at %s" % (s.item["path"], s.name, p.loc(s.t[6]))
        for a in s.fargs:
            for ct in closures(a):
                c = p.items.get(ct)
                if c is None or upvars(p, c) != ("tuple", ()):
                    return "its initialiser in %s captures values of one call" % s.item["path"]
    return None


# ---- file system ------------------------------------------------------------------------------------------------
def assigns(body):
    """local -> list of source place/operand trees assigned to it (flow-insensitive)"""
    src = {}
    for b in body["blocks"]:
        for s in b.get("s", ()):
            if s and s[0] in ("=", "assign", "a"):
                src.setdefault(root(s[1]), []).append(s[2])
        t = b["t"]
        if t[0] == "call":
            src.setdefault(root(t[3]), []).append(t[2])
            src.setdefault(root(t[3]), []).append(t[1])
            # a method taking &mut first argument passes its other arguments into it
            if len(t[2]) > 1:
                for l in locals_of(t[2][0]):
                    src.setdefault(l, []).append(t[2][1:])
    return src


def root(place):
    while isinstance(place, (list, tuple)) and place:
        if isinstance(place[0], int):
            return place[0]
        place = place[0] if not isinstance(place[0], str) else place[1]
    return place if isinstance(place, int) else None


def locals_of(x):
    """locals read in an operand / rvalue tree"""
    out = set()
    _loc(x, out)
    return out


def _loc(x, out):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] in ("c", "m", "copy", "move"):
            r = root(x[1])
            if r is not None:
                out.add(r)
                return
        if x and x[0] in ("ref", "rawptr", "addrof", "len", "discr", "copyderef", "use"):
            for y in x[1:]:
                r = root(y) if isinstance(y, (list, tuple)) and y and isinstance(y[0], int) else None
                if r is not None:
                    out.add(r)
                elif isinstance(y, (list, tuple)):
                    _loc(y, out)
            return
        for y in x:
            _loc(y, out)


def params_behind(it, operands):
    """indices of the function's parameters (1-based locals) the operands are computed from"""
    body = it["body"]
    src = assigns(body)
    n = body["argc"] if "argc" in body else body["nargs"]
    seen, work, ps = set(), set(), set()
    work |= locals_of(operands)
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        if 1 <= l <= n:
            ps.add(l)
        for s in src.get(l, ()):
            work |= locals_of(s) - seen
    return ps


def pathish(p, it, i):
    """is parameter i (1-based) a path?"""
    ts = it["sig"]
    t = p.ty(ts[i - 1])
    if ty_has(p, t, lambda n: n.split("::")[-1] in ("Path", "PathBuf", "OsStr", "OsString")):
        return True
    def params(x):
        if isinstance(x, tuple):
            if x and x[0] == "param":
                yield x
            for y in x:
                if isinstance(y, tuple):
                    yield from params(y)
    names = set(params(t))
    for pr in it.get("preds", ()):
        if pr[0].endswith("AsRef") or pr[0].endswith("Into"):
            tt = [p.arg(a) for a in pr[1]]
            if tt and tt[0] in names and any(ty_has(p, x, lambda n: n.split("::")[-1] in ("Path", "PathBuf")) for x in tt[1:]):
                return True
    return False


def files(ck, p, g):
    callers = {}
    for k, ss in g.sites.items():
        for s in ss:
            for tg in g.targets(s.fi, s.fargs):
                callers.setdefault(tg["key"], []).append((s.item, s))
    cl_parent = {c: par for par, cs in g.clos.items() for c in cs}
    for k, ss in g.sites.items():
        for s in ss:
            if not s.fi or not FS.search(s.fi["key"]) or FS_PURE.search(s.fi["key"]):
                continue
            it = s.item
            writing = bool(FS_WRITE.search(s.fi["key"]))
            if "impl_self" in s.fi and p.tystr(p.ty(s.fi["impl_self"])).endswith("OpenOptions") or s.name == "File::options":
                if FS_CONFIG.search(s.fi["key"]):
                    continue          # only prepares an open
                writing = any(x.fi and "OpenOptions" in x.name and FS_WRITE.search(x.fi["key"]) for x in ss)
            inst = "%s in %s" % (s.name, it["path"])
            t = s.t
            r = climb(ck, p, g, callers, cl_parent, it, t[2], writing, set())
            ck.judge("fs", inst, r is None, "%s: %s" % (p.loc(t[6]), r or ""), "path given by the caller")
        for fi in g.uses.get(k, ()):
            if "key" in fi and FS.search(fi["key"]) and not FS_PURE.search(fi["key"]):
                it = p.items[k]
                ps = params_behind(it, [])
                path = [i for i in range(1, len(it["sig"])) if pathish(p, it, i)] if it.get("sig") else []
                ck.judge("fs", "%s in %s" % (fi["key"], it["path"]), bool(path) or None, "%s is used as a value" % fi["key"])


def climb(ck, p, g, callers, cl_parent, it, operands, writing, seen):
    """None: fine; else the reason why the path is not one a caller gave"""
    key = it["key"]
    ck.saw_fn(key)
    if it["kind"] == "closure":
        par = p.items.get(cl_parent.get(key))
        if par is None:
            return "a file is used in a closure that could not be followed"
        # the closure's captures come from the parent: use everything the parent captured
        for b in par["body"]["blocks"]:
            for st in b.get("s", ()):
                if key in str(st):
                    return climb(ck, p, g, callers, cl_parent, par, st[2:], writing, seen)
        return climb(ck, p, g, callers, cl_parent, par, [], writing, seen)
    ps = params_behind(it, operands)
    path = [i for i in ps if it.get("sig") and i - 1 < len(it["sig"]) - 1 and pathish(p, it, i)]
    mark = (key, tuple(sorted(ps)))
    if mark in seen:
        return None
    seen.add(mark)
    up = callers.get(key, [])
    if it.get("reach") and (it.get("exported") or it.get("pubvis")):
        if not path:
            return "%s uses a file although its caller gave no path" % it["path"]
        out = p.ty(it["sig"][-1])
        if writing and not unit_result(out):
            return "%s returns data to its caller but modifies the file system" % it["path"]
    elif not ps:
        return "%s uses a file whose path does not come from its arguments" % it["path"]
    for cit, s in up:
        ops = [s.t[2][i - 1] for i in (path or ps) if i - 1 < len(s.t[2])]
        r = climb(ck, p, g, callers, cl_parent, cit, ops, writing, seen)
        if r:
            return r
    return None


def unit_result(t):
    if t == ("tuple", ()):
        return True
    return t[0] == "adt" and t[1].endswith("Result") and t[2] and t[2][0] == ("tuple", ())
