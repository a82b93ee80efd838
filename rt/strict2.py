"""The same module with another name"""

from rt.strict import info  # NOQA
