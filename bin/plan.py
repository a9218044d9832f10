"""What each check explores: number of random cases per tier, and the design models."""


def tiers(name):
    return {"quick": name + ".quick.cfg", "thorough": name + ".thorough.cfg"}


KNOTS = {"module": "MCKnots", "cfg": tiers("MCKnots")}

PLAN = {
    "C01": {"cases": {"quick": 1500, "thorough": 60000}, "models": [KNOTS]},
    "C02": {"cases": {"quick": 1500, "thorough": 40000}},
    "C03": {"cases": {"quick": 1200, "thorough": 40000}, "models": [KNOTS]},
    "C04": {"cases": {"quick": 350, "thorough": 20000},
            "models": [{"module": "MCEdit", "cfg": tiers("MCEdit"), "limit": {"quick": 250}}]},
    "C05": {"cases": {"quick": 2500, "thorough": 60000}, "models": [KNOTS]},
    "C06": {"cases": {"quick": 1500, "thorough": 40000}},
    "C07": {"cases": {"quick": 1500, "thorough": 40000}},
    "C08": {"cases": {"quick": 240, "thorough": 6000}},
    "C09": {"cases": {"quick": 1500, "thorough": 40000}, "models": [{"module": "RatTest", "cfg": "RatTest.cfg"}]},
    "C10": {"cases": {"quick": 1500, "thorough": 40000},
            "models": [{"module": "MCBisect", "cfg": tiers("MCBisect"), "limit": {"thorough": 4000}}]},
    "C11": {"cases": {"quick": 700, "thorough": 20000}, "models": [{"module": "MCGrid", "cfg": tiers("MCGrid")}]},
    "C12": {"cases": {"quick": 900, "thorough": 20000}},
    "C13": {"cases": {"quick": 2000, "thorough": 60000}, "models": [{"module": "MCTriangle", "cfg": tiers("MCTriangle")}]},
    "C14": {"cases": {"quick": 500, "thorough": 20000},
            "models": [{"module": "MCEar", "cfg": tiers("MCEar")},
                       {"module": "MCEar", "cfg": tiers("MCShapes"), "limit": {"quick": 800, "thorough": 30000}}]},
    "C15": {"cases": {"quick": 300, "thorough": 12000},
            "models": [{"module": "MCHoles", "cfg": tiers("MCHoles"), "limit": {"quick": 500, "thorough": 15000}},
                       {"module": "MCHoles", "cfg": {"quick": None, "thorough": "MCHoles3.thorough.cfg"}, "limit": {"thorough": 10000}}]},
    "C16": {"cases": {"quick": 240, "thorough": 8000},
            "models": [{"module": "MCFront", "cfg": tiers("MCFront"), "timeout": 1500},
                       {"module": "MCEar", "cfg": tiers("MCShapes"), "limit": {"quick": 250, "thorough": 12000}},
                       {"module": "MCHoles", "cfg": tiers("MCHoles"), "limit": {"quick": 120, "thorough": 5000}}]},
    "C17": {"cases": {"quick": 170, "thorough": 8000},
            "models": [{"module": "MCEar", "cfg": tiers("MCShapes"), "limit": {"quick": 80, "thorough": 5000}},
                       {"module": "MCHoles", "cfg": tiers("MCHoles"), "limit": {"quick": 60, "thorough": 3000}}]},
    "C18": {"cases": {"quick": 300, "thorough": 8000}, "models": [{"module": "MCExport", "cfg": tiers("MCExport"), "limit": {"quick": 400, "thorough": 2900}}]},
    "C19": {"cases": {"quick": 300, "thorough": 8000}, "models": [{"module": "MCExport", "cfg": tiers("MCExport"), "limit": {"quick": 400, "thorough": 2900}}]},
    "C20": {"cases": {"quick": 220, "thorough": 8000}, "models": [{"module": "MCPen", "cfg": tiers("MCPen"), "limit": {"quick": 400, "thorough": 12000}}]},
    "C21": {"cases": {"quick": 1200, "thorough": 40000}, "models": [{"module": "MCReader", "cfg": tiers("MCReader")}]},
    "C22": {"cases": {"quick": 1000, "thorough": 20000}},
    "C23": {"cases": {"quick": 300, "thorough": 8000},
            "models": [{"module": "MCStep", "cfg": tiers("MCStep"), "limit": {"quick": 400, "thorough": 12000}}]},
    "C24": {"cases": {"quick": 800, "thorough": 30000}, "models": [{"module": "MCLoop", "cfg": tiers("MCLoop"), "limit": {"quick": 1600, "thorough": 60000}}]},
    "C25": {"cases": {"quick": 160, "thorough": 6000},
            "models": [{"module": "MCSolid", "cfg": tiers("MCSolid"), "limit": {"quick": 100, "thorough": 4000}}]},
    "C26": {"cases": {"quick": 500, "thorough": 20000},
            "models": [{"module": "MCWriter", "cfg": tiers("MCWriter"), "limit": {"quick": 400, "thorough": 8000}}]},
    "C27": {"cases": {"quick": 400, "thorough": 15000},
            "models": [{"module": "MCMemo", "cfg": tiers("MCMemo"), "limit": {"quick": 500, "thorough": 15000}},
                       {"module": "MCSaves", "cfg": tiers("MCSaves")}]},
}
