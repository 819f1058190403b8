def load_operations_from_docstring(d):
    return {}


def load_yaml_from_docstring(d):
    return {}
