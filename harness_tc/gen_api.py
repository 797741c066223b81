"""dev-time: writes harness_tc/api.json"""
import json, os
F = []
def fn(id, args, ret):
    F.append({"id": id, "call": id, "args": args, "ret": ret, "kind": "extra", "sym": id, "mod": "tc", "inst": ""})
fn("h_tc_deconfined", [["mu", "R"], ["t", "R"], ["pb", "RL"]], "R")
fn("h_tc_critical", [["ts", "RL"], ["ds", "RL"]], "R")
fn("h_tc_reduce", [["pb", "RL"]], ["R", "*"])
fn("h_tc_reduce2", [["pb", "RL"]], ["R", "*"])
fn("h_tc_poly", [["mu", "R"], ["p", "RL"]], "R")
fn("h_tc_poly_ad", [["mu", "R"], ["n", "U"], ["p", "RV"]], ["R", "R"])
c = [["mu", "R"], ["t", "R"], ["f0", "R"], ["ren", "R"], ["om", "R"]]
fn("h_tc_config_plain", c + [["fc", "F"]], ["R"] * 6)
fn("h_tc_config_corrected", c + [["fc", "F"], ["cfc", "F"], ["pb", "RL"]], ["R"] * 3)
fn("h_tc_config_reset", c + [["fc", "F"], ["cfc", "F"], ["pb", "RL"]], ["R"] * 2)
fn("h_tc_config_twice", [["order", "U"]] + c + [["fc", "F"], ["old", "F"], ["cfc", "F"], ["opb", "RL"], ["pb", "RL"]], ["R"] * 3)
g = [[k, "R"] for k in ("lo", "hi", "step", "olo", "ohi", "ostep")]
fn("h_tc_grid", [["which", "U"]] + g, ["R", "*"])
fn("h_tc_pbase", g[:3], "R")
fn("h_tc_run", [["which", "U"], ["corr", "U"]] + [[k, "R"] for k in "om ren f0 thi tst mlo mhi mst plo phi pst m q0 q1 mc c0 c1 edge".split()] + [["w", "RV"]], ["*"])
json.dump(F, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.json"), "w"), indent=1)
