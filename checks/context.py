"""Shared, lazily computed analysis state of one check run."""
import os
from facts import Facts, AnalysisError, REPO
from emit import Emit
from shapes import Shapes


class Context:
    def __init__(self, rep, tier):
        self.rep, self.tier = rep, tier
        self.thorough = tier == "thorough"
        self.broken = False
        self._F = self._E = None
        self.repo = REPO

    @property
    def F(self):
        if self._F is None:
            try:
                self._F = Facts(os.environ.get("VERIF_FACTS") or None)
            except AnalysisError:
                self.broken = True
                raise
            self.rep.count("function_bodies_in_program", len(self._F.bodies))
        return self._F

    @property
    def E(self):
        if self._E is None:
            self._E = Emit(self.F)
        return self._E

    @property
    def S(self):
        return Shapes(self.E)
