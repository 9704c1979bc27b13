import lib


class Suite:
    name = ""          # harness suite
    module = ""        # specification module
    harness = "core"
    props = ()         # properties this suite decides
    shards = None

    def mc(self, tier, prop):
        return []

    def gen(self, rng, tier, prop):
        return []

    def run(self, binary, name, scripts, work):
        return lib.execute(binary, name, scripts, work, shards=self.shards or lib.NCPU)

    def owners(self, mismatch):
        """Properties a mismatch speaks about."""
        return self.props

    def kf_owner(self, key):
        return key.split("-")[0]

    def must_see(self, prop, tier):
        """op:outcome pairs that have to occur in every run (non-vacuity)."""
        return []
