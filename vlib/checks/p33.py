""" P33: platform checks and displays. """
import contextlib
import inspect
import io
import json

import networkx as nx
from hypothesis import strategies as st

import objects as ob
import vchecked
from engine import Sub, expect
from dessia_common import checks as dcc
from dessia_common.core import DessiaObject, stringify_dict_keys
from dessia_common.displays import DisplaySetting, networkx_to_visjs_data
from dessia_common.utils.types import is_bson_valid

LEVELS = ["debug", "info", "warning", "error"]
KINDS = {"PassedCheck": "info", "CheckWarning": "warning", "FailedCheck": "error", "BadType": "error",
         "GeometricInconsistance": "error", "NonSerializable": "error", "NonCopyable": "error", "NonDisplayable": "error",
         "BadStructure": "error"}

CHECKS = st.lists(st.tuples(st.sampled_from(sorted(KINDS)), st.text("abc é", max_size=5)), max_size=6)


def check_list(recipe):
    return dcc.CheckList([getattr(dcc, kind)(message) for kind, message in recipe])


def judge_lists(case, ctx):
    first, second, level = case
    one, two = check_list(first), check_list(second)
    whole = one + two
    expect(len(one) == len(first) and len(two) == len(second), "adding lists changes them")
    expect([(type(c).__name__, c.message) for c in whole.checks] == first + second, "sum of two lists")
    expect(len(whole) == len(first + second), "length of a list")
    for i, check in enumerate(whole.checks):
        expect(whole[i] is check, f"item {i}")
        expect(check.level == KINDS[type(check).__name__], "level of a check")
        expect(bool(check) == (check.level != "error"), "a check is true when nothing fails")
    above = [(k, m) for k, m in first + second if LEVELS.index(KINDS[k]) >= LEVELS.index(level)]
    found = [(type(c).__name__, c.message) for c in whole.checks_above_level(level)]
    expect(found == above, lambda: f"above {level}: {found}, expected {above}")
    try:
        whole.raise_if_above_level(level)
        raised = False
    except ValueError:
        raised = True
    expect(raised == bool(above), lambda: f"raise_if_above_level({level}) of {first + second}: {raised}")
    expect(whole.to_dict() == {"checks": [{"level": KINDS[k], "message": m, "object_class": k} for k, m in first + second]},
           "dict of a list")
    if above and len(above) < len(whole):
        ctx.hit(level)


VALUES = st.one_of(st.integers(-3, 3), st.floats(-3, 3), st.text("ab", max_size=2), st.booleans(), st.none(),
                   st.lists(st.integers(0, 2), max_size=2), st.just({"a": 1}))


def judge_types(case, ctx):
    value, type_, level = case
    right = isinstance(value, type_)
    calls = [("type_check", lambda: dcc.type_check(value, type_, level=level))]
    if type_ in (int, float, str):
        calls.append(("is_" + type_.__name__, lambda: getattr(dcc, "is_" + type_.__name__)(value, level=level)))
    for what, call in calls:
        found = call()
        expect(bool(found.checks_above_level("error")) == (not right), lambda: f"{what} of {value!r} as {type_}: {found}")
        expected = 1 if not right or level == "info" else 0
        expect(len(found) == expected, lambda: f"{what} of {value!r} as {type_}, level {level}: {found}")
    ctx.hit(f"{level} {right}")


# --- BSON ------------------------------------------------------------------------------------------------------------

TEXT_KEYS = st.sampled_from(["a", "b", "key", "a.b", ".", "é", ""])
KEYS = st.one_of(TEXT_KEYS, TEXT_KEYS, st.sampled_from([1, 2, 2.5, None, (1, 2), True]))
DATA = st.recursive(st.one_of(st.integers(-3, 3), st.floats(-3, 3), st.text("ab.", max_size=3), st.booleans(), st.none(),
                              st.sampled_from([float, 1j, {1, 2}, object])),
                    lambda inner: st.one_of(st.lists(inner, max_size=3), st.lists(inner, max_size=3).map(tuple),
                                            st.dictionaries(KEYS, inner, max_size=3)), max_leaves=8)


def bson(value, numbers):
    if isinstance(value, dict):
        return all((isinstance(k, str) and "." not in k or isinstance(k, int) and numbers) and bson(v, numbers)
                   for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return all(bson(v, numbers) for v in value)
    return value is None or isinstance(value, (int, float, str))


def texted(value):
    if isinstance(value, (list, tuple)):
        return [texted(v) for v in value]
    if isinstance(value, dict):
        return {str(k): texted(v) for k, v in value.items()}
    return value


def judge_bson(value, ctx):
    before = repr(value)
    for numbers in (False, True):
        valid, hint = is_bson_valid(value, allow_nonstring_keys=numbers)
        expect(valid == bson(value, numbers), lambda: f"{value!r} is told {valid} ({hint})")
        expect(bool(hint) == (not valid), lambda: f"hint {hint!r} for {valid}")
    expect(is_bson_valid(value)[0] == bson(value, False), "default")
    found = stringify_dict_keys(value)
    expect(repr(found) == repr(texted(value)), lambda: f"{value!r} gives {found!r}")
    expect(repr(value) == before, "the value is changed")
    if isinstance(value, (dict, list, tuple)) and value:
        ctx.hit("valid" if bson(value, True) else "not valid")


# --- Platform checks -------------------------------------------------------------------------------------------------

STATES = {"Sound": [], "Personal": [], "Forgetful": ["NonSerializable"], "Mutant": ["FailedCheck"], "Dotted": ["FailedCheck"]}


@st.composite
def boxes(draw, depth=3):
    """ A box that holds, at some place, an object that may be wrong. """
    state = draw(st.sampled_from(sorted(STATES)))
    places = draw(st.lists(st.sampled_from(["content", "others", "more"]), max_size=depth))
    return state, places, draw(st.integers(-3, 3).map(float)), draw(st.booleans())


def make_box(case):
    state, places, value, sibling = case
    if state == "Dotted":
        object_ = vchecked.Dotted({"a": 1., "b.c": value})
    else:
        object_ = getattr(vchecked, state)(value)
    for place in places:
        content = {"content": None, "others": [vchecked.Sound(7.)] if sibling else [], "more": {"x": 1} if sibling else {}}
        if place == "content":
            content["content"] = object_
        elif place == "others":
            content["others"].append(object_)
        else:
            content["more"]["key"] = object_
        object_ = vchecked.Box(**content)
    return object_


def quiet(call):
    with contextlib.redirect_stdout(io.StringIO()):
        return call()


def judge_platform(case, ctx):
    object_ = make_box(case)
    found = quiet(object_.check_platform)
    failed = [type(c).__name__ for c in found.checks_above_level("error")]
    expect(failed == STATES[case[0]], lambda: f"{case}: {found}")
    expect(len(found) == 5, lambda: f"{len(found)} checks")
    wrong = bool(failed)
    expect(quiet(object_.is_valid) == (not wrong), lambda: f"{case} is told {not wrong}")
    expect(quiet(lambda: object_.check_list(check_platform=False)).checks == [], "checks without those of platform")
    try:
        quiet(object_._check_platform)
        raised = False
    except ValueError:
        raised = True
    expect(raised == wrong, lambda: f"{case}: _check_platform raises: {raised}")
    ctx.hit(case[0])


def judge_own(case, ctx):
    """ Checks a class adds. """
    recipe, level = case
    object_ = vchecked.Wary(1., [list(c) for c in recipe])
    found = quiet(object_.check_list)
    expect([(type(c).__name__, c.message) for c in found.checks][5:] == recipe and len(found) == 5 + len(recipe),
           lambda: f"{found} for {recipe}")
    passed = [(k, m) for k, m in recipe if LEVELS.index(KINDS[k]) < LEVELS.index(level)]
    valid = quiet(lambda: object_.is_valid(level))
    expect(valid == (len(passed) == len(recipe) and level in ("warning", "error")),  # The platform gives informations
           lambda: f"valid at level {level}: {valid}, with {recipe}")
    ctx.hit(level)


def judge_sound(case, ctx):
    root = ob.build(case)[-1]
    before = ob.normal(root)
    found = quiet(root.check_platform)
    valid = is_bson_valid(stringify_dict_keys(root.to_dict()))[0]
    failed = [c for c in found.checks_above_level("error")]
    expect(len(failed) == (0 if valid else 1), lambda: f"{found}")
    expect(ob.normal(root) == before, "the object is changed by its check")
    if len(case) > 1:
        ctx.hit("graph")


# --- Displays --------------------------------------------------------------------------------------------------------

SETTINGS = {"Views": [("Markdown", "markdown", "to_markdown", False, True), ("Plot", "plot_data", "plot", True, True),
                      ("unnamed_plot", "plot_data", "unnamed_plot", True, False), ("CAD", "babylon_data", "shape", True, False),
                      ("Structure Tree", "tree", "", False, False)],
            "WordyViews": [("Plot", "plot_data", "plot", True, True), ("Text", "markdown", "text", False, True),
                           ("Other CAD", "babylon_data", "shape", True, True), ("Structure Tree", "tree", "", False, False)]}


def view_data(views, selector):
    if selector == "Markdown":
        return inspect.cleandoc(views.to_markdown())
    if selector == "Plot":
        return {"numbers": views.numbers, "title": views.title}
    if selector == "unnamed_plot":
        return [views.title]
    if selector == "Text":
        return inspect.cleandoc(f"\n            # {views.title}\n\n            {views.numbers}\n            ")
    if selector == "Other CAD":
        return {"of": views.title}
    return {"meshes": [{"position": views.numbers}], "of": {"name": "", "object_class": "vchecked.Sound", "value": 1.}}


def judge_displays(case, ctx):
    class_name, title, numbers, failing = case
    views = getattr(vchecked, class_name)(title, numbers, failing)
    settings = views.display_settings()
    found = {(s.selector, s.type, s.method, s.serialize_data, s.load_by_default) for s in settings}
    expect(found == set(SETTINGS[class_name]) and len(settings) == len(found), lambda: f"settings {found}")
    for setting in settings:
        again = DisplaySetting.dict_to_object(json.loads(json.dumps(setting.to_dict())))
        expect(again == setting and again.to_dict() == setting.to_dict() and hash(again) == hash(setting),
               lambda: f"{setting.to_dict()} comes back as {again.to_dict()}")
        expect(setting.reference_path == "#", "path of a display")
    displays = views._displays()
    json.dumps(displays)
    expect([d["type_"] for d in displays] == [s.type for s in settings], lambda: f"displays {[d['type_'] for d in displays]}")
    for setting, display in zip(settings, displays):
        if setting.type == "tree":
            continue
        one = views._display_from_selector(setting.selector).to_dict()
        if setting.selector in failing:
            expect(display["data"] is None and f"view {setting.selector} fails" in display["traceback"] and
                   f"view {setting.selector} fails" in one["traceback"], lambda: f"failing {setting.selector}: {display}")
            continue
        expect(one == display, lambda: f"{setting.selector}: {one} then {display}")
        data = dict(display["data"]) if isinstance(display["data"], dict) else display["data"]
        if isinstance(data, dict) and isinstance(data.get("of"), dict):
            data["of"] = {k: v for k, v in data["of"].items() if k in ("name", "object_class", "value")}
        expected = view_data(views, setting.selector)
        expect(data == expected and not display["traceback"], lambda: f"{setting.selector}: {display}, expected {expected}")
        expect(display["reference_path"] == "#", "path of a display")
    for unknown in ("no_view", "", "plot"):
        try:
            views._display_from_selector(unknown)
            known = True
        except ValueError:
            known = False
        expect(not known, f"display {unknown!r} is not refused")
    ctx.hit(class_name, "fails" if failing else "no failure")


SETTING = st.tuples(st.sampled_from(["a", "b", None]), st.sampled_from(["markdown", "plot_data"]), st.sampled_from(["m", "n"]),
                    st.dictionaries(st.sampled_from(["reference_path", "x"]), st.sampled_from(["#/a", "p", None]), max_size=2),
                    st.booleans(), st.booleans())


def judge_settings(case, ctx):
    one, two, attributes = case
    first, second = DisplaySetting(*one[:4], *one[4:]), DisplaySetting(*two)
    same = [o == t for i, (o, t) in enumerate(zip(one, two)) if i != 3]
    expect((first == second) == all(same), lambda: f"{one} and {two} are told {first == second}")
    expect(first == DisplaySetting(*one) and hash(first) == hash(DisplaySetting(*one)), "a setting is not its equal")
    again = DisplaySetting.dict_to_object(json.loads(json.dumps(first.to_dict())))
    expect(again == first and again.arguments == one[3] and again.to_dict() == first.to_dict(), "reload")
    expect(first.reference_path == (one[3].get("reference_path") or "#"), lambda: f"path {first.reference_path}")
    path = one[2]
    for attribute in attributes:
        first.compose(attribute)
        path = f"{attribute}.{path}"
    expect(first.method == path, lambda: f"{first.method} for {path}")
    ctx.hit("same" if all(same) else "others")


# --- Graphs ----------------------------------------------------------------------------------------------------------

@st.composite
def nets(draw):
    nodes = draw(st.lists(st.sampled_from([0, 1, 2, 7, "a", "b", "a long name of node", (1, 2)]), min_size=1, max_size=6,
                          unique=True))
    options = {"name": st.sampled_from(["n", "é"]), "label": st.sampled_from(["l", ""]), "shape": st.just("box"),
               "color": st.sampled_from(["red", "#fff"])}
    drawn = [(n, {k: draw(options[k]) for k in draw(st.sets(st.sampled_from(sorted(options)), max_size=2))}) for n in nodes]
    edge_options = {"color": st.just("blue"), "head_type": st.sampled_from(["circle", "bar"]), "weight": st.just(2)}
    edges = [(draw(st.sampled_from(nodes)), draw(st.sampled_from(nodes)),
              {k: draw(edge_options[k]) for k in draw(st.sets(st.sampled_from(sorted(edge_options)), max_size=2))})
             for _ in range(draw(st.integers(0, 6)))]
    return draw(st.booleans()), drawn, edges, draw(st.sampled_from(["", "graph"]))


def judge_net(case, ctx):
    directed, nodes, edges, name = case
    graph = nx.DiGraph(name=name) if directed else nx.Graph(name=name)
    graph.add_nodes_from(nodes)
    for start, end, data in edges:
        graph.add_edge(start, end, **data)
    found = networkx_to_visjs_data(graph)
    expect(found["name"] == name, "name of a graph")
    json.dumps(found)
    expect([n["id"] for n in found["nodes"]] == list(range(len(nodes))), lambda: f"nodes {found['nodes']}")
    for (node, data), shown in zip(nodes, found["nodes"]):
        if "name" in data or "label" in data:
            expect(shown["label"] == data.get("name", "") + data.get("label", ""), lambda: f"{node} {data} shown {shown}")
        else:
            expect(shown["title"] == (str(node) if isinstance(node, (str, int)) else ""), lambda: f"{node} titled {shown}")
        expect(shown["shape"] == data.get("shape", "circular"), lambda: f"{node} {data} shown {shown}")
        expect(shown.get("color") == data.get("color"), lambda: f"{node} {data} shown {shown}")
        expect(all(isinstance(shown[c], float) for c in "xy"), lambda: f"{node} placed {shown}")
    index = {n: i for i, (n, _) in enumerate(nodes)}
    ends = [(e["from"], e["to"]) for e in found["edges"]]
    expected = {}
    for start, end, data in edges:
        key = (index[start], index[end])
        if not directed:
            key = tuple(sorted(key))
        expected.setdefault(key, {}).update(data)
    expect(sorted(e if directed else tuple(sorted(e)) for e in ends) == sorted(expected), lambda: f"edges {ends}")
    for edge in found["edges"]:
        key = (edge["from"], edge["to"])
        data = expected[key if directed else tuple(sorted(key))]
        expect((edge["color"]["color"] if "color" in edge else None) == data.get("color"), lambda: f"edge {edge}")
        if not directed:
            expect("arrows" not in edge, lambda: f"edge {edge}")
        elif "head_type" in data:
            expect(edge["arrows"]["to"]["type"] == data["head_type"], lambda: f"edge {edge}")
        else:
            expect(edge["arrows"] == "to", lambda: f"edge {edge}")
    if edges:
        ctx.hit("directed" if directed else "not directed")


SUBS = [
    Sub("check lists", st.tuples(CHECKS, CHECKS, st.sampled_from(LEVELS)), judge_lists, quick=400, thorough=5000,
        rule="some checks are above the level and some are not"),
    Sub("type checks", st.tuples(VALUES, st.sampled_from([int, float, str, bool, list, dict, object]),
                                 st.sampled_from(["info", "error"])), judge_types, quick=300, thorough=2000, rule="all"),
    Sub("BSON validity", DATA, judge_bson, quick=1500, thorough=50000, rule="a container that is not empty"),
    Sub("platform checks", boxes(), judge_platform, quick=90, thorough=2000, shards=3, rule="all"),
    Sub("own checks", st.tuples(CHECKS, st.sampled_from(LEVELS)), judge_own, quick=60, thorough=1000, rule="all"),
    Sub("platform checks of sound objects", ob.graphs(keys=ob.ANY_KEYS), judge_sound, quick=90, thorough=3000, shards=3,
        rule="two objects or more"),
    Sub("displays", st.tuples(st.sampled_from(["Views", "WordyViews"]), st.text("ab é", max_size=4),
                              st.lists(st.integers(-3, 3).map(float), max_size=3),
                              st.lists(st.sampled_from(["Plot", "unnamed_plot", "CAD", "Text", "Other CAD"]), max_size=2)),
        judge_displays, quick=24, thorough=600, shards=2, rule="all"),
    Sub("display settings", st.tuples(SETTING, SETTING, st.lists(st.sampled_from(["a", "b"]), max_size=2)), judge_settings,
        quick=300, thorough=5000, rule="all"),
    Sub("graphs", nets(), judge_net, quick=400, thorough=10000, shards=2, rule="some edges"),
]
