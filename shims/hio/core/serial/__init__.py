from . import serialing  # noqa
