"""C26: the controls of a page collapse, open and copy what they say."""
import common  # noqa: F401

import harness
from client import ClientSuite


class Mouse(ClientSuite):
    name = "mouse"
    quick, thorough = 1200, 100000
    ops = dict(toggle=6, dots=2, pdots=5, hdots=1.5, link=1.5, item=2, collapse=9, leave=2, text=1, last=3, tick=.5, clip=.5, dismiss=1)
    length = 40
    rule = ("a generated manuscript with handrails, its scripts run in a small browser, and up to 40 clicks on whatever is visible; after "
            "each, what is hidden, which controls offer what, which menus are open, the focus, the clipboard and the notices are those of "
            "the model, and no script failed; non-trivial: something was collapsed within something collapsed, or all steps at once")

    def nontrivial(self, case, ref, c):
        k = self.c
        return bool(k.alls) or any(k.hidden(k.p[h]) for h in k.collapsed)


if __name__ == "__main__":
    raise SystemExit(harness.main("C26", [Mouse()]))
