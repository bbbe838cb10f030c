"""show what the analysed program raises in scenarios of a property: dbg.py C26 'JARGO one message'"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from absint import interp
from checks import base, registry
seen = {}
def wrap(name):
    o = getattr(interp.Interp, name)
    def f(self, *a):
        k = (str(a[0] if name == "raise_" else a[1]), str(a[1:])[:160])
        if k not in seen:
            seen[k] = str(self.site())
            print("RAISE", name, k, self.site(), flush=True)
        return o(self, *a)
    setattr(interp.Interp, name, f)
wrap("raise_"); wrap("may_raise")
_xr = interp.Interp.ex_Raise
def xr(self, s, sc):
    if (s.lineno, self.site()) not in seen:
        seen[(s.lineno, self.site())] = 1
        print("RAISE stmt", self.site(), flush=True)
    return _xr(self, s, sc)
interp.Interp.ex_Raise = xr
prop, only = sys.argv[1:3]
for mod in registry.CHECKS[prop]["modules"]:
    m = importlib.import_module("checks." + mod)
    for name, fn, args in m.scenarios(prop, "quick"):
        if only in name:
            r = base.run_scenario((prop, name, "checks." + mod, fn, args, "quick", 120))
            print(name, r["obligations"], r["proved"], r["undecided"][:3], [v["what"][:200] if isinstance(v, dict) and "what" in v else str(v)[:200] for v in r["violations"][:3]])
