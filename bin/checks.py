"""What each property's check explores."""

CHECKS = {}


def check(pid):
    def reg(f):
        CHECKS[pid] = f
        return f
    return reg


def gram_stat(s, c):
    if c["kind"] == "gram":
        s["grammars " + c["obs"]["gen"]] += 1
    for p in c["parses"]:
        s["parses " + p["res"]] += 1
        s["bytes parsed"] += len(p["src"])
        s["longest input"] = max(s["longest input"], len(p["src"]))
        if p["res"] == "ok":
            s["tree nodes"] += len(p["nodes"]) or len(p["cnodes"])
            if p["src"]:
                s["accepted non-empty"] += 1
        if p["res"] == "err":
            k = {"expected": "wrong byte" if len(p["codes"]) == 2 else "trailing"}.get(
                p["words"][0] if p["words"] else "", "no cell")
            s["errors " + k] += 1


TRUST = ("the driver reports what the library returned; TLC evaluates the specification correctly",)


@check("C01")
def c01(run, deep):
    run.model("MCParser_tiny")
    if deep:
        run.model("MCParser_small", heap="12g")
        run.model("MCTableGen")
    scopes = ["Enumerate_21", "Enumerate_13", "Enumerate_31"]
    if deep:
        scopes += ["Enumerate_chain", "Enumerate_22"]
    for s in scopes:
        run.replay_scope(s, ["gen"])
    run.traces_of([("gen", 160000 if deep else 24000, "TraceParse"),
                   ("hugegen", 0, "TraceParse")], gram_stat)
    return run.finish(assumptions=TRUST, floors=[("grammars ok", 2000), ("grammars err", 2000),
                                                 ("replayed grammars", 50000)])


@check("C02")
def c02(run, deep):
    run.model("MCParser_tiny")
    if deep:
        run.model("MCParser_small", heap="12g")
    for s in ["Enumerate_21", "Enumerate_13", "Enumerate_31"] + (["Enumerate_chain", "Enumerate_22"] if deep else []):
        run.replay_scope(s, ["accept"])
    run.model("MCStack")
    run.traces_of([("accept", 60000 if deep else 6000, "TraceParse"),
                   ("hugeaccept", 0, "TraceParse")], gram_stat)
    return run.finish(assumptions=TRUST, floors=[("parses ok", 5000), ("parses err", 5000),
                                                 ("accepted non-empty", 5000)])


@check("C03")
def c03(run, deep):
    run.model("MCParser_tiny")
    for x in ["EnumParse_31", "EnumParse_13"] + (["EnumParse_chain", "EnumParse_22"] if deep else []):
        run.replay_cases(x, "TraceParse", module="EnumParse", check=["tree"])
    run.traces_of([("tree", 60000 if deep else 6000, "TraceParse"),
                   ("bigtree", 400 if deep else 60, "TraceParse"),
                   ("hugetree", 0, "TraceParse")], gram_stat)
    return run.finish(assumptions=TRUST, floors=[("parses ok", 5000), ("accepted non-empty", 4000)])


@check("C04")
def c04(run, deep):
    run.model("MCParser_tiny")
    if deep:
        run.model("MCParser_small", heap="12g")
    for x in ["EnumParse_31", "EnumParse_13"] + (["EnumParse_chain", "EnumParse_22"] if deep else []):
        run.replay_cases(x, "TraceParse", module="EnumParse", check=["error"])
    run.traces_of([("error", 60000 if deep else 8000, "TraceParse"),
                   ("hugeerror", 0, "TraceParse")], gram_stat)
    return run.finish(assumptions=TRUST, floors=[("parses err", 5000), ("errors wrong byte", 500),
                                                 ("errors trailing", 500), ("errors no cell", 500)])


@check("C05")
def c05(run, deep):
    run.model("MCParser_tiny")
    for x in ["EnumTable"] + (["EnumTable_3"] if deep else []):
        run.replay_cases(x, "TraceParse", module="EnumTable", check=["accept", "tree", "error", "numbering"])
    run.traces_of([("table", 100000 if deep else 16000, "TraceParse")], gram_stat)
    return run.finish(assumptions=TRUST, floors=[("parses ok", 5000), ("parses err", 5000),
                                                 ("accepted non-empty", 2000)])


@check("C10")
def c10(run, deep):
    run.model("MCParser_tiny")
    run.traces_of([("malformed", 100000 if deep else 20000, "TraceParse"),
                   ("total", 40000 if deep else 6000, "TraceParse"),
                   ("bulk", 200 if deep else 40, "TraceParse"),
                   ("hugereturned", 0, "TraceParse")], gram_stat)
    return run.finish(assumptions=TRUST, floors=[("grammars err", 3000), ("grammars ok", 1000)])


@check("C11")
def c11(run, deep):
    run.model("MCParser_tiny")
    for x in ["EnumParse_21", "EnumParse_13"] + (["EnumParse_31", "EnumParse_chain"] if deep else []):
        run.replay_cases(x, "TraceParse", module="EnumParse", check=["numbering"])
    run.traces_of([("numbering", 60000 if deep else 6000, "TraceParse"),
                   ("tablenames", 40000 if deep else 4000, "TraceParse"),
                   ("hugenumbering", 0, "TraceParse")], gram_stat)
    return run.finish(assumptions=TRUST, floors=[("grammars ok", 2000), ("parses ok", 5000)])


def hist_stat(s, c):
    for o in c.get("sys", []):
        s["full " + o["op"] + " " + o["res"]] += 1
    for o in c["hist"]:
        if o["key"]:
            s["calls " + o["op"].replace("solo ", "")] += 1
            s["results " + o["res"]] += 1
            s["calls"] += 1
        if o["op"].startswith("solo "):
            s["calls made alone"] += 1
        if o["op"] == "touch":
            s["objects overwritten by the caller"] += 1
    if c["kind"] == "conc":
        s["goroutines"] += max([o["who"] for o in c["hist"]], default=0)


@check("C06")
def c06(run, deep):
    run.model("Session")
    for b in ["grammar", "table"]:
        run.replay_cases("EnumSystem_" + b + ("_5" if deep else ""), "TraceSystem", module="EnumSystem")
    run.traces_of([("hist", 40000 if deep else 8000, "TraceHist"),
                   ("system", 8000 if deep else 1000, "TraceSystem")], hist_stat)
    return run.finish(assumptions=TRUST + ("digests of objects do not collide",),
                      floors=[("calls", 10000), ("calls made alone", 1000), ("calls gen", 1000),
                              ("calls parse", 2000), ("calls toast", 200), ("calls print", 200),
                              ("objects overwritten by the caller", 1000)])


def source_stat(s, c):
    for p in c["parses"]:
        s["parses " + p["res"]] += 1
        s["form " + p["form"]] += 1
        s["reads"] += len(p["chunks"])
        s["empty reads"] += sum(1 for x in p["chunks"] if x["n"] == 0)
        s["faults"] += sum(1 for x in p["chunks"] if x["err"] == "fault")
        s["longest input"] = max(s["longest input"], p["size"])


@check("C07")
def c07(run, deep):
    run.model("MCSource")
    run.replay_cases("EnumSource_4" if deep else "EnumSource_2", "TraceSource", module="EnumSource")
    run.traces_of([("source", 40000 if deep else 8000, "TraceSource"),
                   ("sourcebig", 400 if deep else 96, "TraceSource")], source_stat)
    return run.finish(assumptions=TRUST, floors=[("faults", 1000), ("empty reads", 1000), ("parses ok", 1000),
                                                 ("form buffer", 500), ("form bytes", 500), ("form reader", 2000)])


def text_stat(s, c):
    s[c["kind"] + " " + c["res"]] += 1
    s["bytes of text"] += len(c["text"]) + len(c["printed"])
    s["rules"] += len(c["rules"])


@check("C08")
def c08(run, deep):
    run.model("MCNotation")
    if deep:
        run.model("MCNotation_rules")
    for x in ["EnumText_lines", "EnumText_heads", "EnumText_literals"] + (
            ["EnumText_lines_8", "EnumText_heads_11"] if deep else []):
        run.replay_cases(x, "TraceText", module="EnumText")
    run.traces_of([("text", 120000 if deep else 20000, "TraceText"),
                   ("textbytes", 0, "TraceText", 1 if deep else 2),
                   ("textlong", 400 if deep else 60, "TraceText"),
                   ("hugetext", 0, "TraceText")], text_stat)
    return run.finish(assumptions=TRUST, floors=[("text ok", 2000), ("text err", 2000)])


@check("C09")
def c09(run, deep):
    run.model("MCNotation_rules")
    if deep:
        run.model("MCNotation")
    for x in ["EnumPrint_terminals", "EnumPrint_pairs", "EnumPrint_shapes", "EnumPrint_rules"] + (
            ["EnumPrint_terminals_5", "EnumPrint_pairs_3"] if deep else []):
        run.replay_cases(x, "TraceText", module="EnumPrint")
    run.traces_of([("print", 120000 if deep else 24000, "TraceText"),
                   ("printbytes", 0, "TraceText"),
                   ("hugeprint", 0, "TraceText")], text_stat)
    return run.finish(assumptions=TRUST, floors=[("print ok", 5000)])


def walk_stat(s, c):
    s["walks " + c["tag"]] += 1
    s["visits"] += len(c["visits"])
    s["visits that returned nothing"] += sum(1 for v in c["visits"] if v["ret"] < 0)
    s["largest tree"] = max(s["largest tree"], len(c["tn"]))


@check("C12")
def c12(run, deep):
    run.model("MCWalk")
    run.model("MCStack")
    run.traces_of([("walk", 80000 if deep else 14000, "TraceWalk"),
                   ("walkall", 0, "TraceWalk", 6 if deep else 5),
                   ("walkbig", 240 if deep else 40, "TraceWalk"),
                   ("walkhuge", 0, "TraceWalk")], walk_stat)
    return run.finish(assumptions=TRUST, floors=[("visits", 20000), ("visits that returned nothing", 2000)])


def set_stat(s, c):
    for o in c["setops"]:
        s["set " + o["op"]] += 1


@check("C13")
def c13(run, deep):
    run.model("MCByteSets")
    run.traces_of([("set", 80000 if deep else 14000, "TraceSet"),
                   ("setall", 0, "TraceSet")], set_stat)
    return run.finish(assumptions=TRUST, floors=[("set " + o, 1000) for o in
                                                 ("add", "remove", "union", "contains", "members", "equal")])


def pair_stat(s, c):
    s["pairs " + c["obs"]["gen"]] += 1
    for p in c["parses"]:
        s["parses " + p["res"]] += 1
    if c["swap"]:
        s["pairs with bytes exchanged"] += 1
    if c["perm"] != sorted(c["perm"]):
        s["pairs with rules reordered"] += 1


@check("C14")
def c14(run, deep):
    run.model("MCPresentations")
    for x in ["EnumPair_21", "EnumPair_13", "EnumPair_31"] + (["EnumPair_31_2"] if deep else []):
        run.replay_cases(x, "TracePair", module="EnumPair")
    run.traces_of([("pair", 160000 if deep else 30000, "TracePair")], pair_stat)
    return run.finish(assumptions=TRUST, floors=[("pairs ok", 2000), ("pairs err", 1000),
                                                 ("pairs with rules reordered", 2000), ("parses ok", 3000)])


def toast_stat(s, c):
    s["trees " + c["res"]] += 1
    s["rules"] += len(c["rules"])
    if c["bind"]["ignore"]:
        s["trees with ignored kinds"] += 1


@check("C15")
def c15(run, deep):
    for x in ["symbol", "rule", "all"]:
        run.replay_cases(f"EnumToast_{x}" + ("_5" if deep else ""), "TraceToast", module="EnumToast")
    run.traces_of([("toast", 240000 if deep else 50000, "TraceToast")], toast_stat)
    return run.finish(assumptions=TRUST, floors=[("trees ok", 3000), ("trees err", 1500), ("rules", 3000)])


@check("C16")
def c16(run, deep):
    run.model("Session")
    run.refuted("Session_leaky")
    run.build(race=True)
    for x in ["turns_2", "turns_3", "nested_2", "nested_3"]:
        run.replay_cases("EnumOverlap_" + x, "TraceSystem", module="EnumOverlap")
    run.traces_of([("overlap", 24000 if deep else 3000, "TraceSystem")], hist_stat)
    run.traces_of([("conc", 8000 if deep else 1600, "TraceHist")], hist_stat, race=True)
    return run.finish(assumptions=TRUST + ("the race detector reports the conflicts it meets",
                                           "digests of objects do not collide"),
                      floors=[("calls", 5000), ("goroutines", 1000), ("calls parse", 1000), ("calls gen", 300)])


def example_stat(s, c):
    s[c["mode"] + (" accepted" if c["exit"] == 0 else " refused")] += 1
    s["bytes of text"] += len(c["text"])
    s["lines printed"] += len(c["out"])


@check("C17")
def c17(run, deep):
    for m in ["MCJson_numbers", "MCJson_strings"] + (["MCJson", "MCJson_lines"] if deep else []):
        run.model(m, module="MCJson")
    run.build_example("json")
    run.build_example("parseownsyntax")
    for x in ["structure_6", "numbers_5", "strings_5", "words_5"] if deep else ["structure", "numbers", "strings_5", "words"]:
        run.replay_cases("EnumJson_" + x, "TraceExample", module="EnumJson")
    run.traces_of([("json", 50000 if deep else 9000, "TraceExample"),
                   ("jsonbig", 80 if deep else 24, "TraceExample"),
                   ("jsonbytes", 0, "TraceExample", 1 if deep else 2),
                   ("hugejson", 0, "TraceExample")], example_stat)
    return run.finish(assumptions=TRUST, floors=[("json accepted", 1000), ("json refused", 1000), ("self accepted", 1)])
