from objs import *

T, P = (lambda: mod("time")), (lambda: mod("spectra"))
ERR = lambda: mod("errors").ChannelNotFoundError


def unknown_name(chans, nc):
    s = sstr("unknown")
    st = PList(chans)
    require_forall(nc, lambda i: Not(st.get(i) == s))
    return s


@contract("C29", "channels of time data", ["resistics.time.TimeData.get_chan", "resistics.time.TimeData.get_chan_index", "resistics.time.TimeData.__getitem__",
                                           "resistics.time.TimeMetadata.__getitem__", "resistics.time.get_metadata"])
def chans():
    td = time_data()
    m_ = td.metadata
    x, names = td.data.copy(), PList(m_.chans)
    i = sint("i")
    require(0 <= i, i < m_.n_chans)
    c = names.get(i)
    m = mark()
    a = attempt(td.get_chan_index, c)
    ensure(a.ok, "index of a channel available")
    if a.ok:
        ensure(num(a.value) == i, "index of a channel")
    for get, n in ((td.get_chan, "get_chan"), (td.__getitem__, "[]")):
        o = attempt(get, c)
        ensure(o.ok, "a channel by name: " + n)
        if o.ok:
            ensure(len(o.value.shape) == 1 and num(o.value.shape[0]) == m_.n_samples, "all samples of the channel: " + n)
            ensure_cells(o.value, lambda j: x.at(i, j), "the channel's own row: " + n)
    o = attempt(m_.__getitem__, c)
    ensure(o.ok, "channel metadata by name")
    if o.ok:
        ensure(o.value.name == c, "metadata of that channel")
    u = unknown_name(names, m_.n_chans)
    for get, n in ((td.get_chan, "get_chan"), (td.__getitem__, "[]"), (td.get_chan_index, "index"), (m_.__getitem__, "metadata")):
        must_fail(attempt(get, u), (ERR(), KeyError), "unknown channel refused: " + n)
    unchanged(m, "asking changes nothing")
    cover("end")


@contract("C29", "setting a channel", ["resistics.time.TimeData.set_chan", "resistics.time.TimeData.__setitem__"])
def setting():
    td = time_data()
    m_ = td.metadata
    x, names = td.data.copy(), PList(m_.chans)
    item = decide(sbool("item"))
    i = sint("i")
    require(0 <= i, i < m_.n_chans)
    c = names.get(i)
    k = nat("length")
    v = real_array("v", k)
    u = unknown_name(names, m_.n_chans)
    must_fail(attempt(td.set_chan, u, v), ERR(), "setting an unknown channel refused")
    before = snapshot(m_)
    o = attempt(td.__setitem__, c, v) if item else attempt(td.set_chan, c, v)
    if decide(k == m_.n_samples):
        cover("set")
        ensure(o.ok, "a channel of the right length is set")
        ensure_cells(td.data, lambda a, j: Ite(num(a) == i, v.at(j), x.at(a, j)), "that channel changed and no other")
    else:
        must_fail(o, ValueError, "wrong length refused")
        ensure_cells(td.data, lambda a, j: x.at(a, j), "data unchanged by a refusal")
    ensure_same(td.metadata, before, "metadata unchanged")


@contract("C29", "electric and magnetic channels", ["resistics.time.TimeMetadata." + f for f in
                                                    ("get_electric_chans", "get_magnetic_chans", "any_electric", "any_magnetic", "get_chans_with_type")])
def types():
    m_ = time_metadata()
    names = PList(m_.chans)
    nc = m_.n_chans
    fam = lambda i: m_.chans_metadata.lookup(names.get(i)).chan_type
    m = mark()
    for kind, get, some in (("electric", m_.get_electric_chans, m_.any_electric), ("magnetic", m_.get_magnetic_chans, m_.any_magnetic)):
        o = attempt(get)
        ensure(o.ok, kind + " channels available")
        if not o.ok:
            return
        lst = o.value
        st = PList(lst)
        i, a, b = sint("i" + kind), sint("a" + kind), sint("b" + kind)

        def member():
            require(0 <= i, i < nc)
            c = names.get(i)
            ensure(SBool(N.bz(V.scalar_eq(fam(i), kind))) == SBool(N.bz(lst.__contains__(c))), f"exactly the {kind} channels")
        branches(member)

        def order():
            require(0 <= a, a < b, b < st.n)
            ca, cb = st.get(a), st.get(b)
            if ensure(names.__contains__(ca), f"{kind} channels are channels") and ensure(names.__contains__(cb), f"{kind} channels are channels"):
                ensure(names.index(ca) < names.index(cb), f"{kind} channels in channel order")
        branches(order)
    unchanged(m, "asking changes nothing")
    cover("end")


@contract("C29", "copy of time data", ["resistics.time.TimeData.copy"])
def copies():
    td = time_data()
    m = mark()
    o = attempt(td.copy)
    ensure(o.ok, "copied")
    if o.ok:
        ensure_same(o.value.metadata, td.metadata, "metadata of the copy")
        ensure_same_array(o.value.data, td.data, "data of the copy")
        separate(o.value, td, "the copy is independent")
    unchanged(m, "the original is unchanged")
    cover("end")


@contract("C29", "levels, channels and frequencies of spectra data", ["resistics.spectra.SpectraData." + f for f in ("get_level", "get_chan", "get_chans", "get_freq", "get_timestamps")])
def spectra():
    sd = spectra_data()
    m_ = sd.metadata
    nl, nc = m_.n_levels, m_.n_chans
    names = PList(m_.chans)
    l = sint("level")
    require(l >= 0)
    m = mark()
    o = attempt(sd.get_level, l)
    if decide(l >= nl):
        cover("beyond")
        must_fail(o, ValueError, "levels beyond those present are refused")
        must_fail(attempt(sd.get_timestamps, l), ValueError, "timestamps of levels beyond are refused")
        return
    lm = m_.levels_metadata.get(l)
    x = sd.data[l]
    ensure(o.ok, "level available")
    if not o.ok:
        return
    ensure_same_array(o.value, x, "the level asked for")
    i = sint("i")
    require(0 <= i, i < nc)
    pick = eng.fresh_fn("pick", [z3.IntSort()], z3.IntSort())
    n_want = nat("n_want", 1)
    require_forall(n_want, lambda k: And(0 <= SNum.atom(pick(iz(k)), "int"), SNum.atom(pick(iz(k)), "int") < nc))
    c = names.get(i)
    o = attempt(sd.get_chan, l, c)
    ensure(o.ok, "channel available")
    if o.ok:
        ensure(len(o.value.shape) == 2, "channel shape")
        ensure_cells(o.value, lambda w, f: x.at(w, i, f), "the channel asked for")
    want = PList.sym(n_want, lambda k: names.get(SNum.atom(pick(iz(k)), "int")))
    o = attempt(sd.get_chans, l, want)
    ensure(o.ok, "several channels available")
    if o.ok:
        ensure(And(len(o.value.shape) == 3, num(o.value.shape[1]) == want.n), "as many channels as asked for")
        ensure_cells(o.value, lambda w, k, f: x.at(w, SNum.atom(pick(iz(k)), "int"), f), "the channels in the order asked")
    must_fail(attempt(sd.get_chan, l, unknown_name(names, nc)), ERR(), "unknown channel refused")
    f = sint("f")
    o = attempt(sd.get_freq, l, f)
    if decide(Or(f < 0, f >= lm.n_freqs)):
        must_fail(o, ValueError, "frequency indices out of range are refused")
        return
    ensure(o.ok, "frequency available")
    unchanged(m, "asking changes nothing")
    cover("end")
