from . import core, yaml_utils  # noqa
