"""The only source of randomness of the harness: seeded by a string, independent of the hash seed."""
import random


class Rng(random.Random):
    def __init__(self, key: str):
        super().__init__(key)
        self.key = key

    def fork(self, name: str) -> "Rng":
        return Rng(f"{self.key}/{name}")

    def flip(self, p: float) -> bool:
        return self.random() < p

    def r(self, a: float, b: float, nd: int = 3) -> float:
        """A rounded uniform number (specs stay readable)"""
        return round(self.uniform(a, b), nd)

    def pick(self, options, weights=None):
        options = list(options)
        return self.choices(options, weights)[0] if weights else options[self.randrange(len(options))]


def swarm(rng: Rng, features: list[str], p: float = 0.5) -> set[str]:
    """Swarm testing: every run enables its own random subset of the features"""
    return {f for f in features if rng.flip(p)}
