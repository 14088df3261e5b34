"""C08: what has a default may be left out or, where the default is None, given as None."""
import models
import roundtrip
import toughcases


def run(rep, tier):
    rep.rule("R1", "with any one optional group, member or per-entry value left out or None, the writer's program text reaches the end of the file without a failing statement")
    rep.rule("R2", "with it left out, all other values still come back from the file under their own names")
    res = roundtrip.run(toughcases.omissions)
    allow = roundtrip.omitted_allowed
    roundtrip.judge(rep, "R1", res, allow, write=True, lost=False, extra=False, read=False)
    roundtrip.judge(rep, "R2", res, allow, write=False, lost=True, extra=False, read=True)
    rep.analysed["functions followed"] = len(set().union(*[o.functions for _, o in res if o]))
