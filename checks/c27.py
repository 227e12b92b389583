"""C27: public values can cross threads.

The driver asks the compiler's trait solver, for every struct and enum of the crate, whether the type is Send and Sync when its type
parameters (and their associated types) are; this is the question a downstream `thread::spawn` or `Arc` asks."""

# a decoder needs to be movable, not shareable: the file parsers of other crates may hold callbacks; an animation's frames are a boxed
# iterator supplied by the caller, documented as such
NO_SYNC_TRAITS = ("image::ImageDecoder", "image::ImageEncoder", "image::AnimationDecoder")


def run(ck):
    p = ck.p
    ck.rule("send", "a public type is Send when its parameters are", 60)
    ck.rule("sync", "a public type that is not a decoder or encoder is Sync when its parameters are", 50)
    ck.rule("excepted", "types that wrap an iterator the caller supplies are as free as that iterator", 0)
    coders = {}
    for t in NO_SYNC_TRAITS:
        for im in p.impls_of_trait.get(t, []):
            s = im["_self"]
            if s[0] == "adt":
                coders.setdefault(s[1], set()).add(t.split("::")[-1])
    for t in ("ImageDecoder", "AnimationDecoder"):
        if not any(t in v for v in coders.values()):
            ck.und("send", t, "no implementation of %s found" % t)
    n = 0
    for k, a in sorted(p.adts.items()):
        if not a.get("local") or not p.reach_types.get(k, (False, False))[0]:
            continue
        au = a.get("auto") or {}
        if "Send" not in au:
            ck.und("send", k, "%s: the driver reports no auto traits" % k)
            continue
        if boxed_iterator(p, a):
            n += 1
            continue
        where = "%s (%s)" % (k, culprit(p, a, "Send"))
        # a borrow of pixels may need them to be Sync to be sent: both are assumed of the parameters
        ck.judge("send", k, au["Send"][1], "%s is not Send" % where, "Send")
        if k in coders or codec(k):
            continue
        ck.judge("sync", k, au["Sync"][1], "%s (%s) is not Sync" % (k, culprit(p, a, "Sync")), "Sync")
    ck.ok("excepted", "frames", "%d types hold a caller's boxed iterator and are excepted" % n)


def codec(k):
    """helper types of codecs that hold a reader or writer follow their decoder"""
    return k.startswith("codecs::") and (k.endswith("Decoder") or k.endswith("Encoder"))


def boxed_iterator(p, a):
    fs = [f for v in a["variants"] for f in v["f"]]
    if len(fs) != 1:
        return False
    s = str(p.ty(fs[0]["ty"]))
    return "std::boxed::Box" in s and "dyn" in s and "Iterator" in s


def culprit(p, a, tr):
    """the field whose type is to blame, for the report"""
    for v in a["variants"]:
        for f in v["f"]:
            t = p.ty(f["ty"])
            for x in walk(t):
                if x[0] == "adt" and x[1] in p.adts and p.adts[x[1]].get("local"):
                    if not (p.adts[x[1]].get("auto") or {}).get(tr, [1, 1])[1]:
                        return "field %s: %s" % (f["n"], p.tystr(t)[:100])
                if x[0] in ("ptr", "dyn") or x[0] == "adt" and x[1].split("::")[-1] in ("Rc", "Cell", "RefCell", "UnsafeCell", "NonNull", "Weak", "OnceCell"):
                    return "field %s: %s" % (f["n"], p.tystr(t)[:100])
    return "some field"


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from walk(x)
