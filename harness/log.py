"""Case recorder used by all drivers."""

import json
import os
import traceback


class Log:
    def __init__(self, path):
        self.path = path
        self.f = open(path, "w")
        self.n = 0

    def begin(self, desc):
        """Notes what is about to run, in case the process dies in it."""
        with open(self.path + ".cur", "w") as fh:
            json.dump(desc, fh, default=str)

    def case(self, rec):
        self.f.write(json.dumps(rec, separators=(",", ":")) + "\n")
        self.n += 1

    def run(self, desc, fn):
        """
        Records what fn() returns, or the exception it raised: recorded cases
        only run calls that the specification says must succeed.
        """
        self.begin(desc)
        try:
            rec = fn()
        except Exception as e:
            rec = dict(
                desc=json.dumps(desc, default=str),  # TLC need not read it
                exc=repr(e),
                tb=traceback.format_exc()[-1500:],
            )
        if rec is not None:
            self.case(rec)

    def close(self):
        self.f.close()
        if os.path.exists(self.path + ".cur"):
            os.remove(self.path + ".cur")


def behaviours(name, shard, nshard):
    """This shard's part of the behaviours that TLC generated."""
    path = os.path.join(os.environ["BEHAVIOURS"], f"{name}.behaviours")
    with open(path) as fh:
        return [json.loads(x) for x in fh.read().splitlines()[shard::nshard]]
