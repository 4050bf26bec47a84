"""Whole fonts with everything the exporters look at (arguments of the bounded runs)."""
import copy


def rich_font(rng):
    """(number of masters, [(key, data)], [(glyph data, [(key, data)])])"""
    from props import c12, c13, c14, c15, c16, c17

    M = rng.choice([1, 1, 2, 4])
    maybe = lambda p, f: [f()] if rng.random() < p else []
    order = [f"g{i}" for i in range(rng.randint(1, 5))]
    tt, _ = c17.gen(rng)
    ents = [(dict(c17.KEYS)[k], tt[k]) for k, _ in c17.KEYS if tt.get(k) is not None]
    ns = {d[-1]: len(v) for d, v in (tt.get("stems") or dict(ttStemsV=[], ttStemsH=[])).items()}
    nz = {d[-1]: len(v) for d, v in (tt.get("zones") or dict(ttZonesT=[], ttZonesB=[])).items()}
    groups, flags = {}, {}
    for n in rng.sample(["_A", "_B", "caps", ".m"], rng.randint(0, 4)):
        m = rng.sample(order, rng.randint(0, len(order)))
        if n[0] == "_" and m:
            m[0] += "'"
            flags[n] = (rng.choice([2**10, 2**11, 3 * 2**10]), 0)
        groups[n] = m
    ents += [("OpenType Class", f"{n}: {' '.join(m)}") for n, m in groups.items()]
    if flags:
        ents.append(("OpenType Kerning Class Flags", flags))
    ents += [("Global Guides", x) for x in maybe(0.5, lambda: c16.gen_guides(rng, M))]
    ents += [("Global Guide Properties", x) for x in maybe(0.5, lambda: c16.gen_props(rng, M))]
    ents += [("features", x) for x in maybe(0.5, lambda: ["feature kern {", "  pos @_A @_B -10;", "} kern;"])]
    ents += [("font_style", x) for x in maybe(0.5, lambda: rng.choice([0, 1, 32, 33, 64]))]
    ents += [("panose", x) for x in maybe(0.4, lambda: [rng.randrange(10) for _ in range(10)])]
    ents += [("unicoderanges", x) for x in maybe(0.4, lambda: sorted(rng.sample(range(128), 5)))]
    ents += [("xuid", x) for x in maybe(0.3, lambda: [1, 2, 3])]
    ents += [("customdata", x) for x in maybe(0.4, lambda: "user data")]
    ents += [("cvt", x) for x in maybe(0.3, lambda: "0100ff7f")]
    ents += [("note", x) for x in maybe(0.3, lambda: "a note")]
    ents += [("OpenType Metrics Class Flags", x) for x in maybe(0.3, lambda: {"_A": (1, 2, 3)})]
    glyphs = []
    for i, name in enumerate(order):
        follow = []
        d = dict(name=name, num_masters=M, metrics=[(rng.randint(0, 1000), 0) for _ in range(M)],
                 nodes=c14.gen_nodes(rng, M, rng.choice([0, 1, 2])))
        n = len(d["nodes"])
        if rng.random() < 0.4:
            while True:
                M2, hints, masks, links, nodes = unpack(c15.gen(rng))
                if M2 == M:
                    break
            d["nodes"], n = nodes, len(nodes)
            d["hints"] = dict(hints, hintmasks=list(masks)) if masks else hints
            if links["x"] or links["y"]:
                follow.append(("Links", links))
        if rng.random() < 0.3 and i:
            d["components"] = [dict(gid=rng.randrange(i), offsetX=[3] * M, offsetY=[4] * M,
                                    scaleX=[rng.choice([1.0, 0.5])] * M, scaleY=[1.0] * M)]
        if rng.random() < 0.4:
            d["guides"] = c16.gen_guides(rng, M)
            if rng.random() < 0.6:
                follow.append(("Glyph Guide Properties", c16.gen_props(rng, M)))
        if rng.random() < 0.4:
            d["kerning"] = {r: [rng.choice([0, -10, 33]) for _ in range(M)]
                            for r in rng.sample(range(len(order)), rng.randint(0, len(order)))}
        if rng.random() < 0.4:
            prog = []
            for _ in range(rng.randint(1, 4)):
                c = c17.gen_cmd(rng, ns, nz)
                for k in c17.POINTS[c["cmd"]]:
                    c["params"][k] = rng.randrange(n + 2)
                prog.append(c)
            d["tth"] = prog
        if rng.random() < 0.4:
            a = [dict(x=rng.randint(0, 900), y=rng.randint(0, 900), name=f"a{j}") for j in range(rng.randint(1, 3))]
            follow.append(("Glyph GDEF Data", dict(anchors=a)))
            if rng.random() < 0.6:
                follow.append(("Glyph Anchors MM", [dict(x=[x["x"] + m for m in range(M)], y=[x["y"] - m for m in range(M)]) for x in a]))
        if rng.random() < 0.3:
            follow.append(("Glyph Sketch", [(1, 2, 3)]))
        if rng.random() < 0.4:
            follow.append(("unicodes", [rng.randrange(1, 65536) for _ in range(rng.randint(0, 3))]))
        if rng.random() < 0.3:
            follow.append(("mark", rng.randint(0, 255)))
        if rng.random() < 0.3:
            follow.append(("glyph.customdata", "glyph data"))
        if rng.random() < 0.3:
            follow.append(("mask", dict(num_masters=M, weight_vector=[1.0], nodes=c14.gen_nodes(rng, M, 1))))
        if rng.random() < 0.3:
            image = c12.random_bitmap(rng, True)
            image["bitmap"]["preview"] = ["#", " "]
            follow.append(("image", image))
        if rng.random() < 0.3:
            follow.append(("Glyph Bitmaps", c12.datum(rng, 2013)))
        glyphs.append((d, follow))
    return M, ents, glyphs


def unpack(case):
    hints, masks, links, nodes, M = case[:5]
    return M, copy.deepcopy(hints), masks, copy.deepcopy(links), nodes
