class Unsupported(Exception):
    """The analysis does not model a construct: the obligation is undecided."""

    def __init__(self, what, loc=None):
        from .nodes import Loc

        self.what = what
        self.loc = loc or Loc.cur()
        super().__init__(f"{what} at {self.loc}")


class ProgError(Exception):
    """The analysed program raises on this abstract input."""

    def __init__(self, exc, loc=None):
        from .nodes import Loc

        self.exc = exc
        self.loc = loc or Loc.cur()
        super().__init__(f"{type(exc).__name__ if isinstance(exc, BaseException) else exc}: {exc} at {self.loc}")


class Mismatch(Exception):
    """A definite violation: rule, construct and explanation."""

    def __init__(self, what, loc=None, sig=None):
        super().__init__(what)
        self.loc = loc
        self.sig = sig


class Undecided(Exception):
    pass


class AnchorMissing(Exception):
    pass


class Timeout(BaseException):
    pass
