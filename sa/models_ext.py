"""Contracts of the image libraries."""
from eng import *
import os
from models import model, ok, i32, i64, clone, ev, site, set_errno, chkstr, chkfree, release, wanted, extstr, getfile, fl, cstring, alloc

# ------------------------------------------------------------ libpng
def pngobj(E, st, v, what="png call"):
    return wanted(E, st, v, "png", what)

def png_fail(E, st, p, f, fid, what):
    """libpng reports an error: calls the user's error function, which must not return"""
    o = st.mem[p.o]
    ev(st, "decode"); st.note(E.cur.loc, "%s: libpng error" % what)
    fn = o.attrs.get("errfn")
    if not isinstance(fn, FN):
        # default handler: longjmp to the registered buffer
        jb = o.attrs.get("jb")
        return [E.longjmp_outs(st, (jb.o, jb.off) if jb is not None else ("none",), i32(1))]
    outs = E.call_function(st, fn.name, [p, extstr(E, st, "png message")])
    res = []
    for r in outs:
        if r[0] == "ret":
            E.report(r[2], "errfn", "the libpng error handler returns instead of jumping", end=False)
        else: res.append(r)
    return res

@model("png_sig_cmp")
def m_sigcmp(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[2], 64)); s = E.U(st, E.toint(st, a[1], 64))
    x = E.access(st, a[0], n, False, "png_sig_cmp")
    sig = b"\x89PNG\r\n\x1a\n"
    if x and n.isconst() and s.isconst() and n.c <= 8:
        eqs = []
        for i in range(s.c, min(8, s.c + n.c)):
            v = E.peek(st, x[0], x[1] + i, 1, "i8")
            if v is UN: E.report(st, "uninit", "png_sig_cmp of uninitialised bytes")
            p = E.U(st, v)
            if p.isconst() and p.c != sig[i]: return ok(i32(1), st)
            eqs.append(p - sig[i])
        q = clone(E, st)
        outs = []
        if all(E.assume(q, ("eq", e), True) for e in eqs): outs.append(("ok", i32(0), q))
        p = fresh("cmp", -255, 255); st.f.add_neq(p)
        st.note(E.cur.loc, "not a PNG signature")
        ev(st, "decode")
        outs.append(("ok", I(p, 32), st))
        return outs
    return ok(I(fresh("cmp", -255, 255), 32), st)

@model("png_create_read_struct")
def m_png_create(E, st, ins, a, *r):
    s = clone(E, st); ev(s, "nomem"); s.note(E.cur.loc, "png_create_read_struct fails")
    jb = mkobj("jmpbuf", "png jmp_buf", None, "unk"); st.new(jb)
    o = mkobj("png", "png_struct", None, "unk", site=site(E))
    o.attrs.update(owned=True, fam="png", errfn=a[2], jb=P(jb.id), info=NULL, state="new", tr=frozenset())
    st.new(o)
    E.store(st, P(o.id, const(ROWS)), 8, I(ZERO, 64))
    return [("ok", NULL, s), ("ok", P(o.id), st)]

@model("png_create_info_struct")
def m_png_info(E, st, ins, a, *r):
    o = pngobj(E, st, a[0], "png_create_info_struct")
    s = clone(E, st); ev(s, "nomem"); s.note(E.cur.loc, "png_create_info_struct fails")
    i = mkobj("pnginfo", "png_info", None, "unk", site=site(E))
    i.attrs.update(owned=True, fam="pnginfo", color=None)
    st.new(i)
    return [("ok", NULL, s), ("ok", P(i.id), st)]

@model("png_destroy_read_struct")
def m_png_destroy(E, st, ins, a, *r):
    p = E.load(st, a[0], 8, "ptr") if E.isnull(st, a[0]) is not True else NULL
    if E.isnull(st, p) is not True and not isinstance(p, XP):
        o = pngobj(E, st, p, "png_destroy_read_struct")
        if o is not None:
            jb = o.attrs.get("jb")
            release(E, st, p.o)
            if isinstance(jb, P) and jb.o in st.mem: st.w(jb.o).alive = False
            for k in [k for k in st.jmps if isinstance(jb, P) and k[0] == jb.o]: del st.jmps[k]
        E.store(st, a[0], 8, NULL)
    if E.isnull(st, a[1]) is not True:
        i = E.load(st, a[1], 8, "ptr")
        if E.isnull(st, i) is not True and not isinstance(i, XP):
            o = wanted(E, st, i, "pnginfo", "png_destroy_read_struct(info)")
            if o is not None: release(E, st, i.o)
            E.store(st, a[1], 8, NULL)
    return ok(None, st)

@model("png_set_longjmp_fn")
def m_png_jb(E, st, ins, a, *r):
    o = pngobj(E, st, a[0], "png_set_longjmp_fn")
    return ok(o.attrs["jb"] if o is not None else XP(E.newunk(), True), st)

@model("png_longjmp")
def m_png_longjmp(E, st, ins, a, f, fid, b, idx):
    o = pngobj(E, st, a[0], "png_longjmp")
    jb = o.attrs["jb"]
    return [E.longjmp_outs(st, (jb.o, jb.off), i32(1) if E.toint(st, a[1], 32).p == ZERO else E.toint(st, a[1], 32))]

@model("png_init_io")
def m_png_io(E, st, ins, a, *r):
    o = pngobj(E, st, a[0]); getfile(E, st, a[1], "png_init_io")
    if o is not None: st.w(o.id, False).attrs["io"] = a[1]
    return ok(None, st)

@model("png_set_sig_bytes")
def m_png_sig(E, st, ins, a, *r):
    o = pngobj(E, st, a[0])
    if o is not None: st.w(o.id, False).attrs["sig"] = True
    return ok(None, st)

def png_io(E, st, o, what):
    io = o.attrs.get("io")
    if io is None: E.report(st, "png", "%s before png_init_io" % what)
    getfile(E, st, io, what)

COMBOS = [(0, "lt8"), (0, 8), (0, 16), (2, 8), (2, 16), (3, "lt8"), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]

@model("png_read_info")
def m_png_read_info(E, st, ins, a, f, fid, b, idx):
    o = pngobj(E, st, a[0], "png_read_info")
    png_io(E, st, o, "png_read_info")
    wanted(E, st, a[1], "pnginfo", "png_read_info")
    outs = png_fail(E, clone(E, st), a[0], f, fid, "png_read_info")
    w = fresh("pngw", 1, 2**31 - 1); h = fresh("pngh", 1, 2**31 - 1)
    for c, d in COMBOS:
        s = st.copy()
        dp = fresh("bitdepth", 1, 4) if d == "lt8" else const(d)
        s.w(a[0].o).attrs.update(color=const(c), depth=dp, width=w, height=h, state="info", lt8=(d == "lt8"))
        s.w(a[1].o).attrs.update(color=const(c), depth=dp, width=w, height=h)
        s.note(E.cur.loc, "PNG colour type %d, depth %s" % (c, d))
        outs.append(("ok", None, s))
    return outs

@model("png_get_image_width", "png_get_image_height", "png_get_color_type", "png_get_bit_depth", "png_get_channels", "png_get_rowbytes")
def m_png_get(E, st, ins, a, *r):
    n = E.curcallee
    pngobj(E, st, a[0], n)
    i = wanted(E, st, a[1], "pnginfo", n)
    if i.attrs.get("color") is None: E.report(st, "png", "%s before png_read_info" % n)
    w = int(ins.ty[1:])
    if n.endswith("width"): return ok(I(i.attrs["width"], w), st)
    if n.endswith("height"): return ok(I(i.attrs["height"], w), st)
    if n.endswith("color_type"): return ok(I(i.attrs["color"], w), st)
    if n.endswith("bit_depth"): return ok(I(i.attrs["depth"], w), st)
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[i.attrs["color"].c]
    if n.endswith("channels"): return ok(I(const(ch), w), st)
    if not i.attrs["depth"].isconst(): return ok(I(fresh("rowbytes", 1, 2**33), w), st)
    return ok(I(i.attrs["width"] * ch * (i.attrs["depth"].c // 8 or 1), w), st)

@model("png_get_valid")
def m_png_valid(E, st, ins, a, *r):
    o = pngobj(E, st, a[0], "png_get_valid")
    t = o.attrs.get("trns")
    if E.toint(st, a[2], 32).p == const(0x10):
        if t is None:
            if o.attrs["color"].c in (4, 6):
                return ok(I(ZERO, int(ins.ty[1:])), st)
            s = clone(E, st)
            s.w(o.id, False).attrs["trns"] = True; st.w(o.id, False).attrs["trns"] = False
            s.note(E.cur.loc, "tRNS chunk present")
            return [("ok", I(const(0x10), int(ins.ty[1:])), s), ("ok", I(ZERO, int(ins.ty[1:])), st)]
        return ok(I(const(0x10 if t else 0), int(ins.ty[1:])), st)
    return ok(I(fresh("valid", 0, 2**32 - 1), int(ins.ty[1:])), st)

@model("png_set_tRNS_to_alpha", "png_set_strip_alpha", "png_set_palette_to_rgb", "png_set_strip_16", "png_set_scale_16", "png_set_expand_gray_1_2_4_to_8", "png_set_expand", "png_set_packing")
def m_png_set(E, st, ins, a, *r):
    o = pngobj(E, st, a[0], E.curcallee)
    st.w(o.id, False).attrs["tr"] = o.attrs["tr"] | {E.curcallee[8:]}
    return ok(None, st)

def png_output(st, o):
    """colour type and depth after the requested transformations"""
    c = o.attrs["color"].c; d = 4 if o.attrs.get("lt8") else o.attrs["depth"].c
    tr = o.attrs["tr"]
    trns = o.attrs.get("trns")
    expand = tr & {"tRNS_to_alpha", "palette_to_rgb", "expand_gray_1_2_4_to_8", "expand"}
    etrns = tr & {"tRNS_to_alpha", "palette_to_rgb", "expand"}
    if expand:
        if c == 3: c = 6 if (trns and etrns) or trns else 2; d = 8
        else:
            if trns and etrns: c |= 4
            if d < 8: d = 8
    if d == 16 and tr & {"strip_16", "scale_16"}: d = 8
    if "strip_alpha" in tr and c != 3: c &= ~4
    if d < 8 and "packing" in tr: d = 8
    return c, d

@model("png_read_update_info")
def m_png_update(E, st, ins, a, f, fid, *r):
    o = pngobj(E, st, a[0], "png_read_update_info")
    outs = png_fail(E, clone(E, st), a[0], f, fid, "png_read_update_info")
    c, d = png_output(st, o)
    if o.attrs.get("trns") is None and c != o.attrs["color"].c: pass
    w = st.w(a[1].o); w.attrs["color"] = const(c); w.attrs["depth"] = const(d)
    st.w(a[0].o).attrs["updated"] = True
    outs.append(("ok", None, st))
    return outs

@model("png_set_interlace_handling")
def m_png_interlace(E, st, ins, a, *r):
    o = pngobj(E, st, a[0], E.curcallee)
    if o.attrs.get("handled") is None:
        st.w(o.id, False).attrs["handled"] = "late" if o.attrs.get("updated") else "yes"
    t = o.attrs.get("interlaced")
    if t is None:
        s = png_lace(E, st, o)
        return [("ok", i32(7), s), ("ok", i32(1), st)]
    return ok(i32(7 if t else 1), st)

def png_lace(E, st, o):
    """decides whether the image is interlaced: the returned state where it is, and st where it is not"""
    s = clone(E, st)
    s.w(o.id, False).attrs["interlaced"] = True; st.w(o.id, False).attrs["interlaced"] = False
    s.note(E.cur.loc, "interlaced PNG")
    return s

ROWS = 1 << 40     # offset of a hidden cell counting the rows read

@model("__sa_png_complete")
def m_png_complete(E, st, ins, a, *r):
    """every row of every pass of every PNG being decoded was read"""
    for o in list(st.mem.values()):
        if o.kind != "png" or not o.alive or "width" not in o.attrs: continue
        v = E.load(st, P(o.id, const(ROWS)), 8, "i64")
        n = v.p if isinstance(v, I) else None
        if os.environ.get("DBG"): print("ROWS", n, v, o.attrs["height"], o.attrs.get("interlaced"), list(st.f.f)[:12], flush=True)
        if n is None or not E.eqz(st, n - o.attrs["height"] * (7 if o.attrs.get("interlaced") else 1)): return ok(bconst(False), st)
    return ok(bconst(True), st)

@model("png_read_row", "png_read_rows")
def m_png_row(E, st, ins, a, f, fid, b, idx):
    o = pngobj(E, st, a[0], "png_read_row")
    png_io(E, st, o, "png_read_row")
    if E.curcallee == "png_read_rows": raise Unsupported("png_read_rows")
    c, d = png_output(st, o)
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[c]
    if o.attrs.get("trns") is None and o.attrs["color"].c not in (4, 6):
        # the client never asked whether there is a tRNS chunk: it may be there
        s1 = clone(E, st); s1.w(o.id, False).attrs["trns"] = True; st.w(o.id, False).attrs["trns"] = False
        r1 = m_png_row(E, s1, ins, a, f, fid, b, idx)
        return r1 + m_png_row(E, st, ins, a, f, fid, b, idx)
    if o.attrs.get("interlaced") is None:
        s1 = png_lace(E, st, o)
        r1 = m_png_row(E, s1, ins, a, f, fid, b, idx)
        return r1 + m_png_row(E, st, ins, a, f, fid, b, idx)
    if o.attrs["interlaced"] and o.attrs.get("handled") == "late":
        E.report(st, "png", "interlace handling was only requested after png_read_update_info: libpng cannot decode interlaced images")
    v = E.load(st, P(o.id, const(ROWS)), 8, "i64")
    w = o.attrs["width"]
    if d < 8: rb = divsym(w * (ch * d) + 7, const(8))
    else: rb = w * (ch * d // 8)
    outs = png_fail(E, clone(E, st), a[0], f, fid, "png_read_row")
    if E.isnull(st, a[1]) is not True:
        x = E.access(st, a[1], rb, True, "png_read_row")
        if x: E.fill(st, x[0], x[1], rb, ("int", 0, 255, 8))
    if isinstance(v, I): E.store(st, P(o.id, const(ROWS)), 8, I(v.p + 1, 64))
    outs.append(("ok", None, st))
    return outs

@model("png_read_end")
def m_png_end(E, st, ins, a, f, fid, b, idx):
    o = pngobj(E, st, a[0], "png_read_end")
    png_io(E, st, o, "png_read_end")
    outs = png_fail(E, clone(E, st), a[0], f, fid, "png_read_end")
    outs.append(("ok", None, st))
    return outs

# ------------------------------------------------------------ libjpeg
JF = ["err", "mem", "client_data", "out_color_space", "output_width", "output_height", "rec_outbuf_height", "output_scanline", "out_color_components", "output_components"]
def joff(E):
    if not hasattr(E, "_joff"):
        g = E.prog.globals.get("__sa_jpeg_off")
        if g is None: raise Unsupported("no libjpeg layout")
        E._joff = {n: 0 for n in JF}
        vals = {off: int(v[1]) for off, ty, v in g["init"] if isinstance(v, list) and v[0] == "i"}
        for i, n in enumerate(JF): E._joff[n] = vals.get(8 * i, 0)
        e = E.prog.globals["__sa_jerr_off"]
        ev_ = {off: int(v[1]) for off, ty, v in e["init"] if isinstance(v, list) and v[0] == "i"}
        E._jerr = {"error_exit": ev_.get(0, 0), "emit_message": ev_.get(8, 0), "reset_error_mgr": ev_.get(16, 0)}
    return E._joff

def jf(E, st, p, name):
    return P(p.o, p.off + joff(E)[name], p.gen)

def jerr(E, st, p, which):
    """function pointer in the client's error manager"""
    joff(E)
    e = E.load(st, jf(E, st, p, "err"), 8, "ptr")
    if e is UN: E.report(st, "uninit", "libjpeg uses cinfo.err, which is not set")
    if not isinstance(e, P): return None
    v = E.load(st, P(e.o, e.off + E._jerr[which], e.gen), 8, "ptr")
    if v is UN: E.report(st, "uninit", "libjpeg calls err->%s, which is not set" % which)
    if E.isnull(st, v) is True: E.report(st, "null", "libjpeg calls err->%s, which is null" % which)
    return v

def jfail(E, st, p, what):
    ev(st, "decode"); st.note(E.cur.loc, "%s: libjpeg error" % what)
    fn = jerr(E, st, p, "error_exit")
    if not isinstance(fn, FN): return []
    try:
        outs = E.call_function(st, fn.name, [p])
    except PathEnd:
        return []
    res = []
    for r in outs:
        if r[0] == "ret": E.report(r[2], "errfn", "the libjpeg error handler returns instead of jumping", end=False)
        else: res.append(r)
    return res

def jcheck(E, st, p, what, created=True):
    if p is UN or E.isnull(st, p) is True: E.report(st, "null", "%s of a null decompressor" % what)
    E.access(st, p, 8, False, what)
    if created:
        m = E.load(st, jf(E, st, p, "mem"), 8, "ptr")
        if m is UN: E.report(st, "uninit", "%s of a decompressor that was never created" % what)
        if E.isnull(st, m) is True: E.report(st, "null", "%s of a decompressor that was never created" % what)
        o = st.mem.get(m.o) if isinstance(m, P) else None
        if o is None or not o.alive: E.report(st, "uaf", "%s of a destroyed decompressor" % what)
        jerr(E, st, p, "emit_message")
        return o

@model("jpeg_CreateDecompress")
def m_jcreate(E, st, ins, a, f, fid, *r):
    p = a[0]
    jcheck(E, st, p, "jpeg_create_decompress", False)
    sz = E.U(st, E.toint(st, a[2], 64))
    E.access(st, p, sz, True, "jpeg_create_decompress")
    J = joff(E)
    e = E.load(st, jf(E, st, p, "err"), 8, "ptr"); c = E.peek(st, st.mem[p.o], p.off + J["client_data"], 8, "ptr")
    E.fill(st, st.mem[p.o], p.off, sz, "zero")
    E.store(st, jf(E, st, p, "err"), 8, e)
    E.poke(st, st.w(p.o), p.off + J["client_data"], 8, c)
    for n in ("output_width", "output_height", "rec_outbuf_height", "output_scanline", "out_color_space"):
        E.store(st, jf(E, st, p, n), 4, i32(0))
    E.store(st, jf(E, st, p, "mem"), 8, NULL)
    s = clone(E, st); ev(s, "nomem")
    outs = jfail(E, s, p, "jpeg_create_decompress")
    o = mkobj("jpeg", "libjpeg decompressor state", None, "unk", site=site(E))
    o.attrs.update(owned=True, fam="jpeg", src=NULL, state="created")
    st.new(o)
    E.store(st, jf(E, st, p, "mem"), 8, P(o.id))
    outs.append(("ok", None, st))
    return outs

@model("jpeg_destroy_decompress", "jpeg_destroy", "jpeg_abort_decompress")
def m_jdestroy(E, st, ins, a, *r):
    p = a[0]
    m = E.load(st, jf(E, st, p, "mem"), 8, "ptr")
    if m is UN: E.report(st, "uninit", "jpeg_destroy_decompress of a decompressor that was never created")
    if isinstance(m, P) and m.o:
        o = st.mem.get(m.o)
        if o is None or not o.alive: E.report(st, "doublefree", "jpeg_destroy_decompress twice")
        release(E, st, m.o)
        E.store(st, jf(E, st, p, "mem"), 8, NULL)
    return ok(None, st)

@model("jpeg_stdio_src")
def m_jsrc(E, st, ins, a, f, fid, *r):
    o = jcheck(E, st, a[0], "jpeg_stdio_src")
    getfile(E, st, a[1], "jpeg_stdio_src")
    outs = []
    if o is not None: st.w(o.id, False).attrs["src"] = a[1]
    s = clone(E, st); ev(s, "nomem")
    outs += jfail(E, s, a[0], "jpeg_stdio_src")
    outs.append(("ok", None, st))
    return outs

def jio(E, st, o, what):
    if o is None: return
    if E.isnull(st, o.attrs.get("src")) is True: E.report(st, "jpeg", "%s without a data source" % what)
    getfile(E, st, o.attrs["src"], what)

@model("jpeg_read_header")
def m_jheader(E, st, ins, a, f, fid, *r):
    o = jcheck(E, st, a[0], "jpeg_read_header"); jio(E, st, o, "jpeg_read_header")
    jerr(E, st, a[0], "reset_error_mgr")
    outs = jfail(E, clone(E, st), a[0], "jpeg_read_header")
    E.store(st, jf(E, st, a[0], "out_color_space"), 4, I(fresh("jcs", 2, 5), 32))
    st.w(o.id, False).attrs["state"] = "header"
    outs.append(("ok", i32(1), st))
    return outs

@model("jpeg_start_decompress")
def m_jstart(E, st, ins, a, f, fid, *r):
    o = jcheck(E, st, a[0], "jpeg_start_decompress"); jio(E, st, o, "jpeg_start_decompress")
    outs = jfail(E, clone(E, st), a[0], "jpeg_start_decompress")
    cs = E.load(st, jf(E, st, a[0], "out_color_space"), 4, "i32")
    gray = E.decide(st, ("eq", cs.p - 1)) is True
    w = fresh("jw", 1, 65500); h = fresh("jh", 1, 65500)
    E.store(st, jf(E, st, a[0], "output_width"), 4, I(w, 32)); E.store(st, jf(E, st, a[0], "output_height"), 4, I(h, 32))
    E.store(st, jf(E, st, a[0], "rec_outbuf_height"), 4, I(fresh("rec", 1, 4), 32))
    E.store(st, jf(E, st, a[0], "output_scanline"), 4, I(ZERO, 32))
    st.w(o.id, False).attrs.update(state="started", comps=const(1) if gray else fresh("comps", 1, 4), w=w, h=h)
    outs.append(("ok", i32(1), st))
    return outs

@model("jpeg_read_scanlines")
def m_jlines(E, st, ins, a, f, fid, *r):
    o = jcheck(E, st, a[0], "jpeg_read_scanlines"); jio(E, st, o, "jpeg_read_scanlines")
    if o.attrs.get("state") != "started": E.report(st, "jpeg", "jpeg_read_scanlines before jpeg_start_decompress")
    n = E.U(st, E.toint(st, a[2], 32))
    outs = jfail(E, clone(E, st), a[0], "jpeg_read_scanlines")
    sl = E.U(st, E.load(st, jf(E, st, a[0], "output_scanline"), 4, "i32"))
    h = o.attrs["h"]
    row = o.attrs["w"] * o.attrs["comps"]
    # past the last line: nothing is delivered
    s = clone(E, st)
    if E.decide(s, ("ge", sl - h)) is not False and E.assume(s, ("ge", sl - h), True): outs.append(("ok", I(ZERO, 32), s))
    if not E.assume(st, ("ge", h - sl - 1), True): return outs
    s = clone(E, st)
    if E.assume(s, ("eq", n), True): outs.append(("ok", I(ZERO, 32), s))
    if not E.assume(st, ("ge", n - 1), True): return outs
    # any number of rows up to four
    for q in (1, 2, 3, 4):
        s = clone(E, st)
        if not E.assume(s, ("ge", n - q), True) or not E.assume(s, ("ge", h - sl - q), True): continue
        x = E.access(s, a[1], const(8 * q), False, "row pointers")
        if x:
            for j in range(q):
                v = E.peek(s, s.mem[x[0].id], x[1] + 8 * j, 8, "ptr")
                if v is UN: E.report(s, "uninit", "jpeg_read_scanlines: row pointer not set")
                if E.isnull(s, v) is True: E.report(s, "null", "jpeg_read_scanlines: null row pointer")
                if isinstance(v, P):
                    y = E.access(s, v, row, True, "jpeg_read_scanlines row")
                    if y: E.fill(s, s.mem[v.o], y[1], row, ("int", 0, 255, 8))
        E.store(s, jf(E, s, a[0], "output_scanline"), 4, I(sl + q, 32))
        outs.append(("ok", I(const(q), 32), s))
    return outs

@model("jpeg_finish_decompress")
def m_jfinish(E, st, ins, a, f, fid, *r):
    o = jcheck(E, st, a[0], "jpeg_finish_decompress")
    outs = jfail(E, clone(E, st), a[0], "jpeg_finish_decompress")
    outs.append(("ok", i32(1), st))
    return outs

# ------------------------------------------------------------ MagickWand
@model("NewMagickWand")
def m_wand(E, st, ins, a, *r):
    o = mkobj("wand", "MagickWand", None, "unk", site=site(E))
    o.attrs.update(owned=True, fam="wand", loaded=False)
    st.new(o)
    return ok(P(o.id), st)

@model("DestroyMagickWand")
def m_wand_d(E, st, ins, a, *r):
    o = wanted(E, st, a[0], "wand", "DestroyMagickWand")
    if o is not None: release(E, st, o.id)
    return ok(NULL, st)

@model("MagickReadImage")
def m_mread(E, st, ins, a, *r):
    o = wanted(E, st, a[0], "wand", "MagickReadImage")
    chkstr(E, st, a[1], "MagickReadImage")
    s = clone(E, st); ev(s, "open"); s.note(E.cur.loc, "MagickReadImage fails")
    set_errno(E, s, 1)
    st.w(o.id, False).attrs["loaded"] = True
    return [("ok", i32(0), s), ("ok", i32(1), st)]

@model("MagickGetException")
def m_mexc(E, st, ins, a, *r):
    wanted(E, st, a[0], "wand", "MagickGetException")
    E.store(st, a[1], 4, I(fresh("extype", 0, 999), 32))
    o = mkobj("heap", "exception text", None, "unk", site=site(E))
    o.attrs.update(owned=True, fam="magick"); st.new(o)
    return ok(P(o.id), st)

@model("RelinquishMagickMemory", "MagickRelinquishMemory")
def m_mrel(E, st, ins, a, *r):
    if E.isnull(st, a[0]) is not True:
        chkfree(E, st, a[0], "magick", "MagickRelinquishMemory")
        if isinstance(a[0], P): release(E, st, a[0].o)
    return ok(NULL, st)

@model("MagickGetImageWidth", "MagickGetImageHeight")
def m_mdim(E, st, ins, a, *r):
    wanted(E, st, a[0], "wand", E.curcallee)
    return ok(i64(fresh("mdim", 0, 2**64 - 1)), st)

@model("MagickResetIterator")
def m_mreset(E, st, ins, a, *r):
    wanted(E, st, a[0], "wand", E.curcallee)
    return ok(None, st)

@model("MagickNextImage")
def m_mnext(E, st, ins, a, *r):
    wanted(E, st, a[0], "wand", E.curcallee)
    s = clone(E, st); s.note(E.cur.loc, "no further image")
    return [("ok", i32(0), s), ("ok", i32(1), st)]

@model("MagickExportImagePixels")
def m_mexport(E, st, ins, a, *r):
    wanted(E, st, a[0], "wand", E.curcallee)
    w = E.U(st, E.toint(st, a[3], 64)); h = E.U(st, E.toint(st, a[4], 64))
    mp = cstring(E, st, a[5]); n = len(mp) if mp else 1
    tot = w * h * (4 * n)
    x = E.access(st, a[7], tot, True, "MagickExportImagePixels")
    s = clone(E, st); ev(s, "decode"); s.note(E.cur.loc, "MagickExportImagePixels fails")
    if x: E.fill(st, x[0], x[1], tot, FL())
    return [("ok", i32(0), s), ("ok", i32(1), st)]

# ------------------------------------------------------------ FFmpeg
AVERROR_EOF = -541478725
EAGAIN = -11

def pp_free(E, st, a, kind, what):
    if E.isnull(st, a) is True: return
    p = E.load(st, a, 8, "ptr")
    if p is UN: E.report(st, "uninit", "%s of an uninitialised pointer" % what)
    if E.isnull(st, p) is True: return
    if isinstance(p, P):
        o = wanted(E, st, p, kind, what)
        for k in ("buf",):
            b = o.attrs.get(k)
            if isinstance(b, P) and b.o in st.mem and st.mem[b.o].alive: st.w(b.o).alive = False
        release(E, st, p.o)
    E.store(st, a, 8, NULL)

def avobj(E, st, kind, label):
    o = mkobj(kind, label, None, "unk", site=site(E))
    o.attrs.update(owned=True, fam=kind)
    st.new(o)
    return o

def averr(E, st, name, eof=False):
    v = fresh(name, -2**31 + 1, -1)
    if not eof: st.f.add_neq(v - AVERROR_EOF)
    st.f.add_neq(v - EAGAIN)
    return I(v, 32)

@model("avformat_open_input")
def m_avopen(E, st, ins, a, *r):
    chkstr(E, st, a[1], "avformat_open_input")
    s = clone(E, st); ev(s, "open"); s.note(E.cur.loc, "avformat_open_input fails")
    E.store(s, a[0], 8, NULL)
    o = avobj(E, st, "avfmt", "AVFormatContext")
    E.store(st, a[0], 8, P(o.id))
    return [("ok", averr(E, s, "averr"), s), ("ok", i32(0), st)]

@model("avformat_close_input")
def m_avclose(E, st, ins, a, *r):
    pp_free(E, st, a[0], "avfmt", "avformat_close_input"); return ok(None, st)

@model("avformat_find_stream_info")
def m_avinfo(E, st, ins, a, *r):
    wanted(E, st, a[0], "avfmt", E.curcallee)
    s = clone(E, st); ev(s, "decode"); s.note(E.cur.loc, "%s fails" % E.curcallee)
    return [("ok", averr(E, s, "averr"), s), ("ok", I(fresh("nonneg", 0, 2**31 - 1), 32), st)]

@model("av_find_best_stream")
def m_avbest(E, st, ins, a, *r):
    wanted(E, st, a[0], "avfmt", E.curcallee)
    s = clone(E, st); ev(s, "decode"); s.note(E.cur.loc, "no video stream")
    if E.isnull(st, a[4]) is not True: E.store(st, a[4], 8, XP(E.newunk(), True))
    return [("ok", averr(E, s, "averr"), s), ("ok", I(fresh("stream", 0, 2**31 - 1), 32), st)]

def avalloc(kind, label):
    def m(E, st, ins, a, *r):
        for x in a:
            if x is UN: E.report(st, "uninit", "uninitialised argument of %s" % E.curcallee)
        s = clone(E, st); ev(s, "nomem"); s.note(E.cur.loc, "%s fails" % E.curcallee)
        o = avobj(E, st, kind, label)
        return [("ok", NULL, s), ("ok", P(o.id), st)]
    return m
model("avcodec_alloc_context3")(avalloc("avcodec", "AVCodecContext"))
model("av_frame_alloc")(avalloc("avframe", "AVFrame"))
model("av_packet_alloc")(avalloc("avpacket", "AVPacket"))
model("sws_alloc_context", "sws_getContext")(avalloc("sws", "SwsContext"))

@model("avcodec_free_context")
def m_avfc(E, st, ins, a, *r): pp_free(E, st, a[0], "avcodec", E.curcallee); return ok(None, st)
@model("av_frame_free")
def m_avff(E, st, ins, a, *r): pp_free(E, st, a[0], "avframe", E.curcallee); return ok(None, st)
@model("av_packet_free")
def m_avpf(E, st, ins, a, *r): pp_free(E, st, a[0], "avpacket", E.curcallee); return ok(None, st)
@model("sws_freeContext")
def m_swsf(E, st, ins, a, *r):
    if E.isnull(st, a[0]) is not True:
        o = wanted(E, st, a[0], "sws", E.curcallee)
        if o is not None: release(E, st, o.id)
    return ok(None, st)

@model("avcodec_parameters_to_context", "avcodec_open2", "sws_init_context", "avcodec_send_packet")
def m_avstep(E, st, ins, a, *r):
    n = E.curcallee
    kind = "sws" if n.startswith("sws") else "avcodec"
    wanted(E, st, a[0], kind, n)
    s = clone(E, st); s.note(E.cur.loc, "%s fails" % n)
    if n == "avcodec_send_packet":
        if isinstance(a[1], P) and a[1].o:
            pk = wanted(E, st, a[1], "avpacket", n)
            if not pk.attrs.get("ref"): E.report(st, "av", "avcodec_send_packet of a packet that was not read")
        # the decoder is only fed after it asked for input, so EAGAIN cannot happen; EOF after flushing is possible
        q = st.copy()
        ev(s, "decode")
        return [("ok", averr(E, s, "averr"), s), ("ok", i32(AVERROR_EOF), q), ("ok", i32(0), st)] if E.isnull(st, a[1]) is True else [("ok", averr(E, s, "averr"), s), ("ok", i32(0), st)]
    ev(s, "decode")
    if n == "sws_init_context":
        st.w(a[0].o, False).attrs["init"] = True
        return [("ok", averr(E, s, "averr"), s), ("ok", I(fresh("nonneg", 0, 2**31 - 1), 32), st)]
    return [("ok", averr(E, s, "averr"), s), ("ok", i32(0), st) if n != "avcodec_parameters_to_context" else ("ok", I(fresh("nonneg", 0, 2**31 - 1), 32), st)]

@model("av_opt_set_int")
def m_avopt(E, st, ins, a, *r):
    return ok(I(fresh("optres", -2**31, 0), 32), st)

@model("avcodec_receive_frame")
def m_avrecv(E, st, ins, a, *r):
    wanted(E, st, a[0], "avcodec", E.curcallee); fr = wanted(E, st, a[1], "avframe", E.curcallee)
    s = clone(E, st); ev(s, "decode"); s.note(E.cur.loc, "avcodec_receive_frame fails")
    q = st.copy(); q.note(E.cur.loc, "decoder drained")
    t = st.copy()
    if fr is not None: st.w(fr.id).attrs["ref"] = True
    return [("ok", averr(E, s, "averr"), s), ("ok", i32(AVERROR_EOF), q), ("ok", i32(EAGAIN), t), ("ok", i32(0), st)]

@model("av_read_frame")
def m_avread(E, st, ins, a, *r):
    wanted(E, st, a[0], "avfmt", E.curcallee); pk = wanted(E, st, a[1], "avpacket", E.curcallee)
    if pk.attrs.get("ref"): E.report(st, "leak", "av_read_frame into a packet whose previous data was not unreferenced", end=False)
    s = clone(E, st); ev(s, "io"); s.note(E.cur.loc, "av_read_frame: I/O error")
    q = st.copy(); q.note(E.cur.loc, "av_read_frame: end of file")
    w = st.w(pk.id); w.attrs["ref"] = True; w.cells = {}
    return [("ok", averr(E, s, "averr"), s), ("ok", i32(AVERROR_EOF), q), ("ok", i32(0), st)]

@model("av_packet_unref")
def m_avunref(E, st, ins, a, *r):
    pk = wanted(E, st, a[0], "avpacket", E.curcallee)
    st.w(pk.id).attrs["ref"] = False
    return ok(None, st)

@model("sws_scale_frame")
def m_swsscale(E, st, ins, a, *r):
    wanted(E, st, a[0], "sws", E.curcallee); d = wanted(E, st, a[1], "avframe", E.curcallee); sfr = wanted(E, st, a[2], "avframe", E.curcallee)
    if not st.mem[a[0].o].attrs.get("init"): E.report(st, "av", "sws_scale_frame with a context that is not initialised")
    if not sfr.attrs.get("ref"): E.report(st, "av", "sws_scale_frame of a frame that was not decoded")
    s = clone(E, st); ev(s, "decode"); s.note(E.cur.loc, "sws_scale_frame fails")
    return [("ok", averr(E, s, "averr"), s), ("ok", I(fresh("nonneg", 0, 2**31 - 1), 32), st)]

@model("av_strerror", "av_make_error_string")
def m_avstr(E, st, ins, a, *r):
    n = E.U(st, E.toint(st, a[2], 64))
    x = E.access(st, a[1], n, True, "av_strerror")
    if x:
        E.fill(st, x[0], x[1], n, "unk"); st.w(x[0].id).attrs["nul"] = x[1] + n - 1
    return ok(I(fresh("avstr", -2**31, 0), 32), st)

@model("av_demuxer_iterate")
def m_avdemux(E, st, ins, a, *r):
    E.store(st, a[0], 8, XP(E.newunk()))
    s = clone(E, st)
    return [("ok", NULL, s), ("ok", XP(E.newunk(), True), st)]

@model("av_match_name")
def m_avmatch(E, st, ins, a, *r):
    return ok(I(fresh("match", 0, 1), 32), st)
