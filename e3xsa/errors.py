"""Engine-level control flow.

Engine errors derive from BaseException on purpose: interpreted `except
Exception` clauses of the analysed program must never swallow them.
"""


class EngineError(BaseException):
  """Base of everything the analyser raises about itself."""


class Unsupported(EngineError):
  """The analysed code uses a construct the abstract semantics does not model.

  An obligation that meets it is UNDECIDED (never a violation, never a proof).
  """

  def __init__(self, msg, loc=None):
    super().__init__(msg)
    self.msg = msg
    self.loc = loc

  def __str__(self):
    return f'{self.msg}' + (f' at {self.loc}' if self.loc else '')


class AnchorMissing(EngineError):
  """A public entry point named by a property no longer exists."""


class TracerLeak(Exception):
  """Interpreted code forces an abstract (traced) value to a concrete one.

  In JAX this is a ConcretizationTypeError/TracerBoolConversionError.
  """

  def __init__(self, what, loc=None):
    super().__init__(what)
    self.what = what
    self.loc = loc


class ModelError(ValueError):
  """A library model is certain that the real library call would raise."""
