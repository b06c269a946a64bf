"""C27: keys move through what is visible and do what the mouse does."""
import common  # noqa: F401

import harness
from client import ClientSuite


class Keys(ClientSuite):
    name = "keys"
    quick, thorough = 1200, 100000
    ops = {"key j": 8, "key k": 5, "key h": 4, "key l": 4, "key H": .7, "key .": 4, "key ,": 5, "key ;": 4, "key z": 1, "key ArrowDown": 6,
           "key ArrowUp": 2, "key Enter": 4, "key x": .3, "toggle": 1, "pdots": 1, "collapse": 2, "text": 1, "leave": .5, "blur": .3}
    length = 60
    plain = .12

    def gen(self, rng):
        return dict(super().gen(rng), layout=rng.randrange(10 ** 6))

    rule = ("a generated manuscript, its scripts run in a small browser, and up to 60 keys and clicks; after each, the focus, what is "
            "hidden, the menus and their active entries are those of the model, and no script failed; non-trivial: something was collapsed "
            "and the focus moved past it")

    def nontrivial(self, case, ref, c):
        return bool(self.c.collapsed) and sum(a.get("key") in ("j", "k", "h", "l") for a in self.did) > 4


if __name__ == "__main__":
    raise SystemExit(harness.main("C27", [Keys()]))
