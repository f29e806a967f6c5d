"""Lazily built analysis context shared by the rules."""
from . import an, build


class Ctx:
    def __init__(self):
        self.tree = build.Tree()
        self._raw = self._inl = self._con = self._null = None

    @property
    def raw(self):
        if self._raw is None:
            self._raw = an.Prog(self.tree.raw_view())
        return self._raw

    @property
    def inl(self):
        if self._inl is None:
            self._inl = an.Prog(self.tree.inline_view())
        return self._inl

    @property
    def contracts(self):
        if self._con is None:
            from . import nullness
            self._con = nullness.contracts(self.tree.sigs())
        return self._con

    @property
    def null(self):
        if self._null is None:
            from . import nullness
            self._null = nullness.Nullness(self.raw, self.contracts)
        return self._null
